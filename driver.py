#!/usr/bin/env python3
"""./run <property> [--replay FILE]: run one property's check and report.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Anything else is an error of the check itself.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
HANG = float(os.environ.get('VERIF_HANG', '240'))     # s without progress on one case


def known_findings(pid):
    """known: property=<id> case=<case key, exact, or prefix ending in *> :: text"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) case=(.+?) :: (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def match(pat, case):
    return case.startswith(pat[:-1]) if pat.endswith('*') else case == pat


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    script = glob.glob(os.path.join(VERIF, 'checks', pid.lower() + '_*.py'))
    if len(script) != 1:
        print('no check for', pid)
        return 2
    head = open(script[0]).read(4000)
    m = re.search(r'^SHARDS = (\d+)', head, re.M)
    shards = int(m.group(1)) if m else 4
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_TIER=tier, VERIF_SEED=str(seed),
               OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OPENBLAS_NUM_THREADS='1')
    env.setdefault('OMP_NUM_THREADS', '1')
    env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + env.get('PATH', '')
    env['HOME'] = env.get('HOME') or '/root'
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replay = os.path.abspath(sys.argv[3])
        env['VERIF_REPLAY'] = replay
        shards = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    procs = []
    try:
        for k in range(shards):
            e = dict(env, VERIF_SHARD='%d/%d' % (k, shards), VERIF_RESULT='%s/r%d' % (tmp, k),
                     VERIF_HEARTBEAT='%s/h%d' % (tmp, k), VERIF_TMP='%s/w%d' % (tmp, k), VERIF_QUEUE='%s/queue' % tmp)
            os.mkdir(e['VERIF_TMP'])
            log = open('%s/log%d' % (tmp, k), 'w')
            procs.append(subprocess.Popen([PY, script[0]], cwd=VERIF, env=e, stdout=log, stderr=subprocess.STDOUT,
                                          start_new_session=True))
        hung = {}
        while any(p.poll() is None for p in procs):
            time.sleep(0.05)
            for k, p in enumerate(procs):
                if p.poll() is None:
                    try:
                        last = os.stat('%s/h%d' % (tmp, k)).st_mtime
                    except OSError:
                        last = t0 + 400        # importing / building
                    if time.time() - last > HANG:
                        hung[k] = True
                        os.killpg(p.pid, 9)
                        p.wait()
        results, viol, errors = [], [], []
        for k, p in enumerate(procs):
            try:
                case = open('%s/h%d' % (tmp, k)).read().rstrip()
            except OSError:
                case = None
            log = open('%s/log%d' % (tmp, k)).read()
            try:
                results.append(json.load(open('%s/r%d' % (tmp, k))))
                continue
            except (OSError, ValueError):
                pass
            if hung.get(k):
                viol.append({'case': case, 'message': 'no progress for %g s: the code under test does not return'
                             % HANG, 'traceback': log[-3000:]})
            elif case and p.returncode in (-11, -6, -7, -8, -4):
                viol.append({'case': case, 'message': 'the code under test killed its process (signal %d)'
                             % -p.returncode, 'traceback': log[-3000:]})
            elif case and p.returncode == 1 and 'run-time error' in log:
                viol.append({'case': case, 'message': 'the code under test ended its process', 'traceback': log[-3000:]})
            else:
                errors.append('shard %d ended with %s at %s\n%s' % (k, p.returncode, case, log[-3000:]))
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)
    for r in results:
        viol += r['violations']
    known = known_findings(pid)
    fresh, seen_known = [], {}
    for v in viol:
        hit = next((x for x in known if match(x[0], v['case'] or '')), None)
        if hit:
            seen_known.setdefault(hit, v)
        else:
            fresh.append(v)
    for (pat, text), v in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s [case %s]' % (pid, text, pat))
    if errors and not fresh:
        print('\n'.join(errors))
        return 2
    counts = {}
    for r in results:
        for n, c in r['counts'].items():
            counts[n] = counts.get(n, 0) + c
    samples = [s for r in results for s in r['samples']][:6]
    r0 = results[0] if results else {'level': 'exploration', 'rule': '', 'extra': {}, 'assumptions': []}
    evals = sum(r['evals'] for r in results)
    distinct = sum(r['distinct'] for r in results)
    cov = {'rule': r0['rule'], 'samples': samples}
    if r0['level'] == 'model_checking':
        cov['states'] = counts.pop('states', 0)
        cov['transitions'] = counts.pop('transitions', 0)
        cov['traces_validated_against_impl'] = counts.pop('traces', 0)
    cov['evaluations'] = evals
    cov['distinct_nontrivial'] = distinct
    cov.update(counts)
    cov.update(r0['extra'])
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': r0['level'], 'coverage': cov, 'assumptions': r0['assumptions'],
          'wall_s': round(time.time() - t0, 3), 'violations': len(fresh)}
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        for i, v in enumerate(fresh[:3]):
            rel = 'replay/%s-%d.json' % (pid, i)
            if replay:
                rel = os.path.relpath(replay, VERIF)
            else:
                with open(os.path.join(VERIF, rel), 'w') as f:
                    json.dump(dict(v, property=pid, tier=tier, seed=seed,
                                   how='VERIF_TIER=%s VERIF_SEED=%d ./run %s --replay %s' % (tier, seed, pid, rel)),
                              f, indent=1)
            print('case %s: %s' % (v['case'], v['message'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, rel))
        return 1
    if replay and evals == 0 and not viol:
        print('replayed case does not exist')
        return 2
    print('%s %s: held on %d cases (%d distinct non-trivial), %.1f s %s' % (
        pid, tier, evals, distinct, time.time() - t0, json.dumps({k: v for k, v in cov.items()
                                                                  if isinstance(v, int) and not isinstance(v, bool)})))
    return 0


sys.exit(main())
