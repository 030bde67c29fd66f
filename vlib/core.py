"""Bookkeeping shared by the checks: cases, violations, known findings, evidence.

A check enumerates cases; every case has a key (a short string that names the
input, history or schedule exactly) and a function that raises on disagreement.
`driver.py` runs a check as several shards and merges what they counted.
"""
import fcntl
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Mismatch(AssertionError):
    pass


def require(cond, msg='', *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)


def close(got, want, what='', tol=1e-9, rtol=None):
    """Element-wise |got-want| <= tol + rtol*|want|, no NaN allowed where want is finite."""
    import numpy as np
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Mismatch('%s: shape %s, expected %s' % (what, got.shape, want.shape))
    rtol = tol if rtol is None else rtol
    bad = ~(np.abs(got - want) <= tol + rtol * np.abs(want))
    if np.any(bad):
        i = np.argwhere(np.atleast_1d(bad))[0]
        g, w = np.atleast_1d(got)[tuple(i)], np.atleast_1d(want)[tuple(i)]
        raise Mismatch('%s: at %s got %r, expected %r (tolerance %g)' % (what, tuple(i.tolist()), g, w, tol))


class Enough(Exception):
    pass


class Check:
    MAXV = 3

    def __init__(self, pid, level='exploration', rule='', assumptions=(), **extra):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.extra = dict(extra)
        self.shard, self.nshard = map(int, os.environ.get('VERIF_SHARD', '0/1').split('/'))
        self.replay = None
        if os.environ.get('VERIF_REPLAY'):
            with open(os.environ['VERIF_REPLAY']) as f:
                self.replay = json.load(f)['case']
            self.shard, self.nshard = 0, 1
        self.idx = -1
        q = os.environ.get('VERIF_QUEUE')
        self.queue = os.open(q, os.O_CREAT | os.O_RDWR) if q and self.nshard > 1 else None
        self.claimed = -1
        self.evals = 0
        self.seen = set()
        self.counts = {}
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.outcomes = set()
        self.t0 = time.time()
        hb = os.environ.get('VERIF_HEARTBEAT')
        self.hb = os.open(hb, os.O_CREAT | os.O_WRONLY | os.O_TRUNC) if hb else None
        self.current = None

    def mine(self):
        """Shards enumerate the same cases in the same order; each claims the next unclaimed number."""
        self.idx += 1
        if self.queue is None:
            return self.idx % self.nshard == self.shard
        if self.claimed < self.idx:
            self.claimed = self.claim()
        return self.claimed == self.idx

    def claim(self, at_least=None):
        fcntl.lockf(self.queue, fcntl.LOCK_EX)
        k = int(os.pread(self.queue, 32, 0) or 0)
        if at_least is None:
            os.pwrite(self.queue, b'%032d' % (k + 1), 0)
        else:
            os.pwrite(self.queue, b'%032d' % at_least, 0)
        fcntl.lockf(self.queue, fcntl.LOCK_UN)
        return k

    def heartbeat(self, key):
        self.current = key
        if self.hb is not None:
            b = ('%s' % key).encode()[:4000]
            os.pwrite(self.hb, b.ljust(4000), 0)

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def outcome(self, o):
        self.outcomes.add(o)

    def run(self, key, fn, *args, **kw):
        """One case.  fn raises on a disagreement; it may return something to note as a sample."""
        nontrivial = kw.pop('nontrivial', True)
        sharded = kw.pop('sharded', True)
        if self.replay is not None:
            if key != self.replay:
                return None
        elif sharded and not self.mine():
            return None
        self.heartbeat(key)
        self.evals += 1
        if nontrivial:
            self.seen.add(key)
        try:
            res = fn(*args, **kw)
        except (KeyboardInterrupt, MemoryError, Enough):
            raise
        except Exception as e:
            self.violation(key, '%s: %s' % (type(e).__name__, e), traceback.format_exc())
            return None
        if len(self.samples) < 4 and (self.evals in (1, 7, 50, 300) or len(self.samples) == 0):
            self.samples.append({'case': key, 'observed': str(res)[:200] if res is not None else 'agrees'})
        return res

    def _known(self, key):
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if not os.path.exists(p):
            return False
        for line in open(p):
            if line.startswith('known: property=%s ' % self.pid):
                pat = line.split(' case=', 1)[1].split(' :: ')[0]
                if key.startswith(pat[:-1]) if pat.endswith('*') else key == pat:
                    return True
        return False

    def violation(self, key, msg, tb=''):
        self.violations.append({'case': key, 'message': msg[:2000], 'traceback': tb[-6000:]})
        if not self._known(key):
            self.nviol += 1
        if self.nviol >= self.MAXV and self.replay is None:
            if self.queue is not None:
                self.claim(10 ** 15)      # the other shards finish what they are at
            raise Enough()

    def finish(self):
        out = {'pid': self.pid, 'level': self.level, 'rule': self.rule, 'assumptions': self.assumptions,
               'extra': self.extra, 'evals': self.evals, 'distinct': len(self.seen), 'counts': self.counts,
               'samples': self.samples, 'violations': self.violations, 'wall': time.time() - self.t0,
               'outcomes': len(self.outcomes)}
        p = os.environ.get('VERIF_RESULT')
        s = json.dumps(out)
        if p:
            with open(p + '.tmp', 'w') as f:
                f.write(s)
            os.rename(p + '.tmp', p)
        else:
            print(s)


def under_test(e):
    """Did e come out of the code under test (and not from a check that got at it wrongly)?"""
    return any('edpyt/' in f.filename for f in traceback.extract_tb(e.__traceback__))


def main(fn, *a, **k):
    chk = Check(*a, **k)
    try:
        try:
            fn(chk)
        except (KeyboardInterrupt, MemoryError, Enough):
            raise
        except Exception as e:
            # outside any case: the cases could not even be laid out with the code under test
            if not under_test(e) or chk.replay not in (None, 'enumeration'):
                raise
            chk.violation('enumeration', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
    except Enough:
        pass
    chk.finish()
    sys.stdout.flush()
    os._exit(0)
