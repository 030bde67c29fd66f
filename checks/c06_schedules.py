"""C06: parallel loops under every interleaving (partial-order exploration of the real code)."""
SHARDS = 8
TECHNIQUE = 'stateless model checking with dynamic partial-order reduction: compiled OpenMP code under a controlled libgomp/TSan stand-in, numba loops under a coroutine scheduler'
LEVEL = 'model_checking'
NOTE = 'Every class of equivalent interleavings of shared accesses for the stated thread counts and small inputs, at sequential consistency; native code is compiled at -O0 (every source-level access is a scheduling point) with access callbacks, numba loops are interpreted with one thread per iteration.'
import ctypes
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, env
from vlib.core import THOROUGH, close, main, require
env.setup()
for _n in ('psparse', 'continued_fraction'):
    env._ExtFinder.override['edpyt._' + _n] = build.build_ext_sched(_n)
import numpy as np
from scipy.sparse import csr_matrix
from vlib import interleave, models, sched
import numba
from edpyt import _psparse, espace
from edpyt._continued_fraction import continued_fraction
from edpyt.build_mb_ham import build_mb_ham
from edpyt.matvec_product import matvec_operator, todense
from edpyt import shared
from edpyt.lanczos import build_sl_tridiag, sl_solve


class Ev(ctypes.Structure):
    _fields_ = [(k, ctypes.c_int64) for k in 'tid addr size write enabled region'.split()]


LIBS = []
for _n in ('psparse', 'continued_fraction'):
    _l = ctypes.CDLL(env._ExtFinder.override['edpyt._' + _n])
    _l.shim_trace.restype = ctypes.POINTER(Ev)
    LIBS.append(_l)

CHK = None


def native(lib, threads, call):
    def run(prefix):
        arr = (ctypes.c_int * max(1, len(prefix)))(*prefix)
        lib.shim_begin(threads, arr, len(prefix))
        try:
            res = call()
        finally:
            n = lib.shim_end()
        require(n >= 0, 'trace overflow')
        tr = lib.shim_trace()
        out = []
        for k in range(n):
            e = tr[k]
            out.append((e.tid, frozenset(range(e.addr >> 2, ((e.addr + e.size - 1) >> 2) + 1)), bool(e.write),
                        [t for t in range(16) if (e.enabled >> t) & 1], e.region))
        return out, res
    return run


def record(n):
    runs, steps, conf, complete = n
    CHK.count('states', steps + runs)     # the state before each step, and the final ones
    CHK.count('transitions', steps)
    CHK.count('traces', runs)
    CHK.count('conflicting_pairs', conf)
    if not complete:
        CHK.count('capped_cases')
    return '%d executions, %d shared accesses, %d unordered conflicts' % (runs, steps, conf)


CAP = 3000 if THOROUGH else 400


def explore_native(lib, threads, call, serial, what):
    def check(res, prefix):
        close(res, serial, '%s under schedule %s..' % (what, list(prefix)[:40]), 1e-12)
    r = sched.explore(native(lib, threads, call), check, CAP)
    return record(r)


def mat(m, pat):
    A = np.zeros((m, m))
    for k in range(m * m):
        if (pat >> k) & 1:
            A.flat[k] = (k + 1.5) * (-1) ** k / 4.
    return csr_matrix(A), A


def sparse(kern, m, copies, pat, threads):
    S, A = mat(m, pat)
    d = m if kern == 'Multiply' else m * copies
    x = np.cos(np.arange(d) * 1.3) + 1.5
    D = {'UPmultiply': np.kron(np.eye(copies), A), 'DWmultiply': np.kron(A, np.eye(copies)), 'Multiply': A}[kern]
    y0 = np.linspace(-1, 1, d)

    def call():
        y = y0.copy()
        getattr(_psparse, kern)(S, x, y)
        return y
    return explore_native(LIBS[0], threads, call, y0 + D.dot(x), kern)


def wide(kern, m, copies, threads):
    """Long rows and many of them: anything kept between iterations, however it is blocked, is shared."""
    A = np.zeros((m, m))
    for i in range(m):
        A[i, i] = .5 + i % 3
        A[i, (i + 1) % m] = -1.25
    S = csr_matrix(A)
    d = m if kern == 'Multiply' else m * copies
    x = np.cos(np.arange(d) * 1.3) + 1.5
    y0 = np.linspace(-1, 1, d)
    want = {'UPmultiply': lambda: A.dot(x.reshape(copies, m).T).T.ravel(), 'DWmultiply': lambda: A.dot(x.reshape(m, copies)).ravel(),
            'Multiply': lambda: A.dot(x)}[kern]() + y0

    def call():
        y = y0.copy()
        getattr(_psparse, kern)(S, x, y)
        return y
    return explore_native(LIBS[0], threads, call, want, kern)


def cfrac(size, nz, threads):
    a = np.array([.3, -.2, .7, .1])[:size]
    b = np.array([1., .4, .25, .6])[:size]
    z = np.array([.1 + .5j, -.3 + 1.j, .8 + .2j, 1.2 + .7j, -1. + .4j] + [.01 * k + .3j for k in range(max(nz - 5, 0))])[:nz]
    want = []
    for w in z:
        r = 0.
        for k in range(size - 1, -1, -1):
            r = b[k] / (w - a[k] - r)
        want.append(r)
    return explore_native(LIBS[1], threads, lambda: np.atleast_1d(continued_fraction(z.copy(), a, b)), np.array(want),
                          'continued fraction')


def product(n, q, threads):
    sct = espace.build_empty_sector(n, *q)
    ops = build_mb_ham(models.hspin(n), {'U': models.umat(n), 'Jx': models.jx(n), 'Jp': models.jp(n)}, sct)
    D = np.asarray(todense(*ops))
    mv = matvec_operator(*ops)
    x = np.cos(np.arange(sct.d) * .7) + .5
    return explore_native(LIBS[0], threads, lambda: np.array(mv(x)), D.dot(x), 'Hamiltonian product')


def loops(what, call, serial):
    used_all = set()

    def run(prefix):
        try:
            tr, res, used = interleave.run(call, prefix)
        except interleave.Unsupported:
            raise
        used_all.update(used)
        return tr, res

    def check(res, prefix):
        close(res, serial, '%s under schedule %s..' % (what, list(prefix)[:40]), 1e-12)
    try:
        r = sched.explore(run, check, CAP)
    except interleave.Unsupported as e:
        # a loop the rewriter cannot split: fall back to all orders of whole iterations
        runs = 0
        for m in range(1, 6):
            for perm in itertools.permutations(range(m)):
                numba.set_prange_schedule(lambda k, p=perm: list(p) if k == len(p) else None)
                try:
                    check(call(), perm)
                finally:
                    numba.set_prange_schedule(None)
                runs += 1
        CHK.count('fallback_cases')
        return record((runs, runs, 0, True))
    return record(r)


def assembly(n, q, hf, z):
    H, V = models.hspin(n), models.umat(n)
    sct = espace.build_empty_sector(n, *q)
    shared.params.update(hfmode=hf, mu=.3, z=None if z is None else np.array(z[:n]))
    try:
        call = lambda: np.array(build_mb_ham(H, V, sct)[0])
        serial = call()
        return loops('Hamiltonian diagonal', call, serial)
    finally:
        shared.params.update(hfmode=False, mu=0., z=None)


def orders(n, q):
    """All orders of whole iterations."""
    H, V = models.hspin(n), models.umat(n)
    sct = espace.build_empty_sector(n, *q)
    call = lambda: np.array(build_mb_ham(H, V, sct)[0])
    serial = call()
    k = sct.d if len(q) == 1 else sct.states.dw.size
    for perm in itertools.permutations(range(k)):
        numba.set_prange_schedule(lambda m, p=perm: list(p) if m == len(p) else None)
        try:
            close(call(), serial, 'order %s' % (perm,), 0)
        finally:
            numba.set_prange_schedule(None)
        CHK.count('traces')


def ritz(d, k):
    A = models.sym(d, [.4, -.3, .2, .5, .7, -.6]) + np.diag([.1, -.7, .9, .4][:d])
    v0 = np.arange(1., d + 1)
    a, b = build_sl_tridiag(A.dot, v0.copy())

    def call():
        w, X = sl_solve(A.dot, a.copy(), b.copy(), v0.copy(), select=2, select_range=(0, k - 1))
        return np.array(X)
    return loops('Ritz vectors', call, call())


def body(chk):
    global CHK
    CHK = chk
    for w in (17, 65, 129, 257, 520, 1030) + ((2060, 4100) if THOROUGH else ()):
        for threads in (2, 3):
            chk.run('UPmultiply wide %d threads %d' % (w, threads), wide, 'UPmultiply', w, threads, threads)
            chk.run('DWmultiply wide %d threads %d' % (w, threads), wide, 'DWmultiply', threads, w, threads)
            chk.run('Multiply wide %d threads %d' % (w, threads), wide, 'Multiply', w, 1, threads)
            chk.run('continued fraction wide %d threads %d' % (w, threads), cfrac, 3, w, threads)
    for kern in ('UPmultiply', 'DWmultiply', 'Multiply'):
        for m in (2, 3):
            pats = range(1 << 4) if m == 2 else ([0b111111111, 0b101010101, 0b110011001, 0b011101110, 0b000111000, 0b100100100]
                                                 if not THOROUGH else range(0, 512, 3))
            for pat in pats:
                for copies in ((1,) if kern == 'Multiply' else (1, 2, 3)):
                    for threads in (2, 3):
                        chk.run('%s m=%d pattern %d copies %d threads %d' % (kern, m, pat, copies, threads),
                                sparse, kern, m, copies, pat, threads, nontrivial=pat > 0)
    for size, nz, threads in itertools.product((1, 2, 4), (1, 2, 3, 5), (2, 3, 5)):
        chk.run('continued fraction size %d z %d threads %d' % (size, nz, threads), cfrac, size, nz, threads,
                nontrivial=nz > 1)
    for n in ((2, 3) if THOROUGH else (2,)):
        for q in [(N,) for N in range(2 * n + 1)] + list(itertools.product(range(n + 1), repeat=2)):
            for threads in (2, 3):
                chk.run('product n=%d %s threads %d' % (n, q, threads), product, n, q, threads)
    for n in (2, 3):
        for q in [(N,) for N in range(2 * n + 1)] + list(itertools.product(range(n + 1), repeat=2)):
            for hf, z in itertools.product((False, True), (None, (.2, .7, 1.1))):
                if n == 3 and not THOROUGH and (hf or len(q) == 1 and q[0] not in (1, 2)):
                    continue
                chk.run('assembly n=%d %s hf%d z%s' % (n, q, hf, z), assembly, n, q, hf, z)
            if (len(q) == 2 and n <= 3) or n == 1 or (n == 2 and q in ((1,), (3,))):
                chk.run('orders n=%d %s' % (n, q), orders, n, q)
    for d, k in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 2)):
        chk.run('ritz d=%d k=%d' % (d, k), ritz, d, k)


main(body, 'C06', 'model_checking',
     'each case explores all interleavings (one per equivalence class) of the shared-memory accesses of the parallel regions '
     'of one call; non-trivial if more than one thread has work', exhaustive=True)
