"""A communicator whose ranks are coroutines of this process, scheduled by the explorer.

Every rank runs the real code with private copies of edpyt's Python modules
(separate processes share nothing).  A rank runs until its next collective; the
explorer picks which rank runs next.  A collective completes when all ranks
have arrived with the same operation and matching counts; reductions associate
in order of arrival.
"""
import importlib
import itertools
import subprocess
import sys
import types

import greenlet
import numpy as np

from .core import Mismatch, require


def _np_op(op):
    for name, f in (('SUM', np.add), ('MAX', np.maximum), ('MIN', np.minimum), ('PROD', np.multiply)):
        if op is getattr(MPI(), name):
            return f
    raise Mismatch('unsupported reduction %r' % (op,))


def MPI():
    from mpi4py import MPI as m
    return m


def _spec(msg):
    """(array, count) of a buffer specification."""
    if isinstance(msg, np.ndarray):
        return msg, None
    a = msg[0]
    require(not isinstance(msg[-1], (float, np.floating)), 'count handed to MPI is not an integer')
    c = msg[1] if len(msg) > 1 and isinstance(msg[1], (int, np.integer)) else None
    return a, c


def _mem(a):
    """The memory of a contiguous array as flat elements."""
    if a.flags.c_contiguous:
        return a.reshape(-1)
    require(a.flags.f_contiguous, 'buffer handed to MPI is not contiguous')
    return a.T.reshape(-1)


class Comm:
    def __init__(self, world, rank):
        self._w, self.rank, self.size = world, rank, world.p

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _coll(self, kind, payload, finish):
        return self._w.arrive(self.rank, kind, payload, finish)

    # -- buffers ---------------------------------------------------------
    def Alltoall(self, sendbuf, recvbuf):
        p = self.size
        s, sc = _spec(sendbuf)
        r, rc = _spec(recvbuf)
        sc = s.size // p if sc is None else sc
        rc = r.size // p if rc is None else rc
        require(sc * p <= s.size and rc * p <= r.size, 'Alltoall: buffer too small')
        require(not np.shares_memory(s, r), 'Alltoall: send and receive buffers overlap')

        def finish(all_):
            data = [_mem(x[0])[:x[1] * p].copy() for x in all_]
            for j, (_, cs, rr, cr) in enumerate(all_):
                m = _mem(rr)
                for i in range(p):
                    require(data[i].dtype == m.dtype and all_[i][1] == cr, 'Alltoall: counts or types differ')
                    m[i * cr:(i + 1) * cr] = data[i][j * cr:(j + 1) * cr]
            return [None] * p
        return self._coll('Alltoall', (s, sc, r, rc), finish)

    def Allgather(self, sendbuf, recvbuf):
        p = self.size
        s, sc = _spec(sendbuf)
        r, rc = _spec(recvbuf)
        sc = s.size if sc is None else sc
        rc = r.size // p if rc is None else rc
        require(sc <= s.size and rc * p <= r.size, 'Allgather: buffer too small')
        require(not np.shares_memory(s, r), 'Allgather: send and receive buffers overlap')

        def finish(all_):
            data = [_mem(x[0])[:x[1]].copy() for x in all_]
            for _, _, rr, cr in all_:
                m = _mem(rr)
                for i in range(p):
                    require(data[i].dtype == m.dtype and data[i].size == cr, 'Allgather: counts or types differ')
                    m[i * cr:(i + 1) * cr] = data[i]
            return [None] * p
        return self._coll('Allgather', (s, sc, r, rc), finish)

    def _reduce_buf(self, kind, sendbuf, recvbuf, op, root):
        m_ = MPI()
        op = _np_op(m_.SUM if op is None else op)
        r, rc = _spec(recvbuf) if recvbuf is not None else (None, None)
        if sendbuf is m_.IN_PLACE or isinstance(sendbuf, int):
            s, sc, data = r, rc, None
        else:
            s, sc = _spec(sendbuf)
            if r is not None:
                require(not np.shares_memory(s, r), '%s: send and receive buffers overlap', kind)
        sc = s.size if sc is None else sc
        require(sc <= s.size and (r is None or (rc or 0) <= r.size), '%s: buffer too small', kind)
        data = _mem(s)[:sc].copy()
        order = self._w.order

        def finish(all_):
            acc = None
            require(len({(x[0].dtype, x[0].size) for x in all_}) == 1, '%s: counts or types differ', kind)
            for k in order():
                acc = all_[k][0].copy() if acc is None else op(acc, all_[k][0])
            for k, x in enumerate(all_):
                if root is None or k == root:
                    require(x[1].dtype == acc.dtype and x[1].size >= acc.size, '%s: receive buffer does not match', kind)
                    _mem(x[1])[:acc.size] = acc
            return [None] * self.size
        return self._coll('%s%s' % (kind, '' if root is None else root), (data, r), finish)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        return self._reduce_buf('Allreduce', sendbuf, recvbuf, op, None)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        return self._reduce_buf('Reduce', sendbuf, recvbuf, op, root)

    def Bcast(self, buf, root=0):
        a, c = _spec(buf)

        def finish(all_):
            src = _mem(all_[root][0])
            for k, (x, _) in enumerate(all_):
                require(x.dtype == src.dtype and x.size == src.size, 'Bcast: counts or types differ')
                if k != root:
                    _mem(x)[:] = src
            return [None] * self.size
        return self._coll('Bcast%d' % root, (a, c), finish)

    # -- objects ---------------------------------------------------------
    def allreduce(self, x, op=None):
        op = MPI().SUM if op is None else op
        order = self._w.order

        def finish(all_):
            acc = None
            for k in order():
                acc = all_[k] if acc is None else op(acc, all_[k])
            return [acc] * self.size
        return self._coll('allreduce', x, finish)

    def allgather(self, x):
        return self._coll('allgather', x, lambda all_: [list(all_) for _ in all_])

    def bcast(self, x, root=0):
        return self._coll('bcast%d' % root, x, lambda all_: [all_[root]] * len(all_))

    def Barrier(self):
        return self._coll('Barrier', None, lambda all_: [None] * len(all_))

    barrier = Barrier


class World:
    """One execution of a program by p ranks under a schedule prefix."""

    def __init__(self, p, modules):
        self.p, self.modules = p, modules
        self.waiting = {}
        self.arrivals = []
        self.trace = []
        self.log = []

    def order(self):
        return self.arrivals

    def arrive(self, rank, kind, payload, finish):
        return self.main.switch((rank, kind, payload, finish))

    def run(self, prog, prefix):
        self.main = greenlet.getcurrent()
        comms = [Comm(self, r) for r in range(self.p)]
        res, done = [None] * self.p, [False] * self.p

        def body(r):
            try:
                res[r] = ('value', prog(comms[r]))
            except (Mismatch, KeyboardInterrupt):
                raise
            except Exception as e:
                res[r] = ('raised', type(e).__name__, str(e))
            done[r] = True
        gs = [greenlet.greenlet(body) for _ in range(self.p)]
        value = {r: r for r in range(self.p)}    # what to hand over at the next resume
        home = self.modules.current()
        try:
            while not all(done):
                runnable = [r for r in range(self.p) if not done[r] and r not in self.waiting]
                if not runnable:
                    require(len(self.waiting) == self.p, 'ranks %s wait in %s, the others have ended',
                            sorted(self.waiting), sorted({w[0] for w in self.waiting.values()}))
                    kinds = {w[0] for w in self.waiting.values()}
                    require(len(kinds) == 1, 'ranks issue different collectives: %s', [self.waiting[r][0] for r in range(self.p)])
                    out = self.waiting[0][2]([self.waiting[r][1] for r in range(self.p)])
                    self.log.append(kinds.pop())
                    value = dict(enumerate(out))
                    self.waiting, self.arrivals = {}, []
                    continue
                k = len(self.trace)
                r = prefix[k] if k < len(prefix) else runnable[0]
                require(r in runnable, 'schedule is not reproducible')
                self.trace.append((r, tuple(runnable)))
                self.modules.enter(r)
                req = gs[r].switch(value.get(r))
                if not done[r]:
                    rank, kind, payload, finish = req
                    self.waiting[rank] = (kind, payload, finish)
                    self.arrivals.append(rank)
        finally:
            self.modules.enter(home)
        return res


class Modules:
    """Private copies of edpyt's Python modules, one set per rank."""

    def __init__(self, names):
        self.sets = {}
        self.names = names
        self.now = None
        for n in names:
            importlib.import_module(n)
        self.sets[None] = self._grab()

    @staticmethod
    def _grab():
        return {k: m for k, m in sys.modules.items() if k == 'edpyt' or k.startswith('edpyt.')}

    def add(self, r):
        if r in self.sets:
            return
        base = self.sets[None]
        ext = {k: m for k, m in base.items() if getattr(m, '__file__', '') and not str(m.__file__).endswith('.py')}
        for k in base:
            sys.modules.pop(k, None)
        for k, m in ext.items():
            sys.modules[k] = m
        for n in self.names:
            importlib.import_module(n)
        for k, m in ext.items():
            if '.' in k:
                setattr(sys.modules['edpyt'], k.split('.', 1)[1], m)
        self.sets[r] = self._grab()
        for k in self.sets[r]:
            sys.modules.pop(k, None)
        sys.modules.update(base)

    def current(self):
        return self.now

    def enter(self, r):
        if r == self.now:
            return
        for k in self._grab():
            sys.modules.pop(k, None)
        sys.modules.update(self.sets[r])
        self.now = r


def explore(p, prog, modules, deviations=None, cap=20000):
    """Run prog(comm) under all arrival orders; yields (results, log, trace).

    deviations: at most this many choices differ from the lowest runnable rank (None: no bound)."""
    for r in range(p):
        modules.add(r)
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, dev = stack.pop()
        w = World(p, modules)
        res = w.run(prog, prefix)
        n += 1
        yield res, w.log, w.trace
        require(n < cap, 'more than %d schedules', cap)
        for k in range(len(prefix), len(w.trace)):
            chosen, runnable = w.trace[k]
            for alt in runnable:
                if alt != chosen and (deviations is None or dev + 1 <= deviations):
                    stack.append((tuple(t[0] for t in w.trace[:k]) + (alt,), dev + 1))


_works = None


def real_mpi_starts():
    """Whether importing mpi4py's MPI module works here (it can abort the process)."""
    global _works
    if _works is None:
        try:
            _works = subprocess.run([sys.executable, '-c', 'from mpi4py import MPI; MPI.COMM_WORLD.Get_size()'],
                                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
        except Exception:
            _works = False
    return _works


def ensure():
    """mpi4py must be importable by the code under test, even where MPI itself does not start."""
    if real_mpi_starts():
        return
    m = types.ModuleType('mpi4py')
    m.MPI = types.ModuleType('mpi4py.MPI')
    for n, f in (('SUM', lambda a, b: a + b), ('PROD', lambda a, b: a * b), ('MAX', max), ('MIN', min)):
        setattr(m.MPI, n, f)
    m.MPI.IN_PLACE = object()
    m.MPI.COMM_WORLD = None
    sys.modules['mpi4py'], sys.modules['mpi4py.MPI'] = m, m.MPI
