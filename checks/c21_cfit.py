"""C21: the compiled bath fit."""
SHARDS = 8
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of parameter grids, function families and problem sequences on the compiled library, each history in its own process with poisoned heap memory'
NOTE = 'Bath sizes 1-6 for the formulas, 1-4 for fits; all sequences of up to 3 (thorough 4) problems through both Python interfaces; every allocation is filled with a pattern, so that uninitialised reads show. Convergence is judged by fixed margins on enumerated starts, not proved.'
import ctypes as ct
import itertools
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, Mismatch, close, main, require
env.setup(optimize=True)
lib = env.setup_backend()
import numpy as np
from edpyt_backend import fit_wrap
from edpyt import fit_cffi

libc = ct.CDLL(None)
libc.fflush.argtypes = [ct.c_void_p]
DP, IP = ct.POINTER(ct.c_double), ct.POINTER(ct.c_int)
F1 = ct.CFUNCTYPE(ct.c_double, ct.c_double)
FN = ct.CFUNCTYPE(ct.c_double, DP)
GN = ct.CFUNCTYPE(None, DP, DP)
CANARY = 7.7250001e77


def quietly(fn):
    """Run fn with the library's printing thrown away."""
    sys.stdout.flush()
    libc.fflush(None)
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        return fn()
    finally:
        libc.fflush(None)
        os.dup2(keep, 1)
        os.close(null)
        os.close(keep)


def forked(fn, poison=None):
    """fn's result, computed in a copy of this process; an ended process is a disagreement."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            if poison is not None:
                libc.mallopt(-6, poison)           # M_PERTURB
            try:
                out = ('ok', quietly(fn))
            except Mismatch as e:
                out = ('bad', str(e))
            except BaseException as e:
                out = ('bad', '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f, 2)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    require(data, 'the calling process was ended (status %s)', st)
    kind, val = pickle.loads(data)
    if kind == 'bad':
        raise Mismatch(val)
    return val


def ptr(a):
    return ct.cast(a.ctypes.data, DP)


def guarded(n, dtype=float):
    """An array of n items between two canaries."""
    a = np.full(n + 4, CANARY, dtype)
    return a, a[2:n + 2]


def intact(a):
    require(np.all(a[:2] == CANARY) and np.all(a[-2:] == CANARY), 'written outside the array')


def freqs(m, beta):
    return 1j * (2 * np.arange(m) + 1) * np.pi / beta


def delta(x, z):
    n = x.size // 2
    return (x[n:] ** 2 / (z[:, None] - x[:n])).sum(1)


def ddelta(x, z):
    n = x.size // 2
    e, v = x[:n], x[n:]
    return np.concatenate([v ** 2 / (z[:, None] - e) ** 2, 2 * v / (z[:, None] - e)], 1)


def chi2(x, vals, z):
    return (np.abs(vals - delta(x, z)) ** 2).mean()


def dchi2(x, vals, z):
    F, g = vals - delta(x, z), ddelta(x, z)
    return -2 * (g.real * F.real[:, None] + g.imag * F.imag[:, None]).mean(0)


# ---- formulas --------------------------------------------------------------------

def formulas(nb, m, beta):
    z = freqs(m, beta)
    n = 2 * nb
    lib.eval_chi2.restype = ct.c_double
    k = 0
    keep = []

    def glob(name, arr):
        keep.append(arr)
        ct.c_void_p.in_dll(lib, name).value = arr.ctypes.data
    ct.c_int.in_dll(lib, 'nbath').value = nb
    ct.c_int.in_dll(lib, 'nmats').value = m
    dall, d = guarded(m, complex)
    rows = [guarded(n, complex) for _ in range(m)]
    table = np.array([r[1].ctypes.data for r in rows], np.uint64)
    vals = np.array([.3 * np.cos(j) - 1j * (.2 + np.sin(j) ** 2) for j in range(m)])
    v0 = vals.copy()
    glob('z', z)
    glob('delta', d)
    glob('vals_true', vals)
    glob('ddelta', table)
    E, V = (-1.3, 0., .4), (0., .7, -1.1)
    if nb > 3:
        E, V = (-1.3, .4), (.7, -1.1)
    for e in itertools.product(E, repeat=nb):
        for v in itertools.product(V, repeat=nb) if nb < 4 else [tuple(V[(i + s) % 2] for i in range(nb)) for s in (0, 1)]:
            x = np.array(e + v)
            x0 = x.copy()
            lib.eval_delta(ptr(x))
            close(d, delta(x, z), 'hybridisation at %s' % (x,), 1e-12)
            lib.eval_ddelta(ptr(x))
            want = ddelta(x, z)
            for j in range(m):
                close(rows[j][1], want[j], 'derivative at %s, frequency %d' % (x, j), 1e-12)
                intact(rows[j][0])
            c = lib.eval_chi2(ptr(x))
            close(c, chi2(x, vals, z), 'cost at %s' % (x,), 1e-12)
            gall, g = guarded(n)
            lib.eval_dchi2(ptr(x), ptr(g))
            close(g, dchi2(x, vals, z), 'gradient at %s' % (x,), 1e-11)
            far = x + .3
            lib.eval_chi2(ptr(far))
            lib.eval_dchi2(ptr(x), ptr(g))
            close(g, dchi2(x, vals, z), 'gradient at %s after the cost elsewhere' % (x,), 1e-11)
            intact(gall)
            intact(dall)
            require(np.array_equal(x, x0) and np.array_equal(vals, v0), 'input altered')
            k += 1
    # the gradient is the derivative of the cost the library reports
    h = 1e-5
    for i in range(n):
        a, b = x.copy(), x.copy()
        a[i] += h
        b[i] -= h
        fd = (lib.eval_chi2(ptr(a)) - lib.eval_chi2(ptr(b))) / (2 * h)
        close(g[i], fd, 'difference quotient, parameter %d' % i, 1e-6, 1e-4)
    return '%d parameter vectors' % k


def start(nb):
    out = []
    for poison in (0x00, 0x5a, 0xa5):
        def go():
            ct.c_int.in_dll(lib, 'nbath').value = nb
            a, x = guarded(2 * nb)
            lib.init_bath(ptr(x))
            intact(a)
            require(not np.any(x == CANARY), 'parameters left unset: %s', x)
            return x.copy()
        out.append(forked(go, poison))
    require(np.array_equal(out[0], out[1]) and np.array_equal(out[0], out[2]), 'depends on memory contents')
    x = out[0]
    e, v = x[:nb], x[nb:]
    require(np.all(np.abs(e) <= 2. + 1e-12) and np.all(v > 0), 'levels %s couplings %s', e, v)
    close(v, np.full(nb, max(.1, 1 / np.sqrt(nb))), 'couplings', 1e-12)
    if nb > 1:
        close(np.sort(e), np.sort(-e), 'symmetry of the levels', 1e-12)
        require(np.all(np.diff(e) > 0), 'levels not distinct and ascending: %s', e)
        close(e[[0, -1]], [-2., 2.], 'band edges', 1e-12)
    if nb > 3 and nb % 2 == 0:
        close(e[nb // 2 - 1:nb // 2 + 1], [-.1, .1], 'levels next to the centre', 1e-12)
        h = nb // 2
        close(e[:h - 1], -2 + np.arange(h - 1) * 2. / (h - 1), 'spacing', 1e-12)
    if nb > 1 and nb % 2:
        close(e, np.linspace(-2, 2, nb), 'spacing', 1e-12)
    return list(x)


# ---- minimisers ------------------------------------------------------------------

FUNS = {'quadratic': (lambda x: (x - .7) ** 2, lambda x: 2 * (x - .7)),
        'quartic': (lambda x: (x - .7) ** 4 + .1 * x, lambda x: 4 * (x - .7) ** 3 + .1),
        'cosh': (lambda x: np.cosh(x - 1.3), lambda x: np.sinh(x - 1.3)),
        'corner': (lambda x: np.sqrt(1e-4 + (x + .4) ** 2), lambda x: (x + .4) / np.sqrt(1e-4 + (x + .4) ** 2)),
        'well': (lambda x: -1 / (1 + (x - 2) ** 2), lambda x: 2 * (x - 2) / (1 + (x - 2) ** 2) ** 2),
        'two wells': (lambda x: (x * x - 1) ** 2 + .2 * x, lambda x: 4 * x * (x * x - 1) + .2),
        'exponential': (lambda x: np.exp(x) - 3 * x, lambda x: np.exp(x) - 3)}


def bracket(name, a):
    f = FUNS[name][0]
    lib.mnbrak.restype = None
    k = 0
    for b in np.arange(-3, 4.1, .5):
        if a == b:
            continue
        v = [ct.c_double(a), ct.c_double(b)] + [ct.c_double() for _ in range(4)]
        lib.mnbrak(*([ct.byref(x) for x in v] + [F1(lambda x: float(f(x)))]))
        p, q, r, fp, fq, fr = [x.value for x in v]
        require(min(p, r) <= q <= max(p, r), 'from (%g,%g): middle %g outside (%g,%g)', a, b, q, p, r)
        require(fq <= fp and fq <= fr, 'from (%g,%g): no bracket, values %g %g %g', a, b, fp, fq, fr)
        close([fp, fq, fr], [f(p), f(q), f(r)], 'values at the bracket', 1e-12)
        require(fq <= min(f(a), f(b)), 'bracket is higher than where it began')
        k += 1
    return '%d brackets' % k


def line(name, a):
    f, df = FUNS[name]
    lib.dbrent.restype = ct.c_double
    lib.dbrent.argtypes = [ct.c_double] * 3 + [F1, F1, ct.c_double, DP]
    k = 0
    for b, c in itertools.product(np.arange(-3, 4.1, .5), repeat=2):
        if not (min(a, c) < b < max(a, c) and f(b) <= f(a) and f(b) <= f(c)):
            continue
        for tol in (1e-8, 2e-4):
            x = ct.c_double()
            calls = []
            r = lib.dbrent(a, b, c, F1(lambda t: (calls.append(t), float(f(t)))[1]), F1(lambda t: float(df(t))), tol, ct.byref(x))
            require(min(a, c) <= x.value <= max(a, c), '(%g,%g,%g): result %g outside', a, b, c, x.value)
            require(all(min(a, c) - 1e-9 <= t <= max(a, c) + 1e-9 for t in calls), '(%g,%g,%g): evaluated outside', a, b, c)
            close(r, f(x.value), '(%g,%g,%g): value' % (a, b, c), 1e-12)
            require(r <= f(b), '(%g,%g,%g): %g is above the start %g', a, b, c, r, f(b))
            # stationary to the precision asked for
            w = 4 * (tol * abs(x.value) + 1e-9)
            lo, hi = x.value - w, x.value + w
            flat = df(lo) <= 1e-7 and df(hi) >= -1e-7 or abs(df(x.value)) < 1e-7
            require(flat, '(%g,%g,%g) to %g: slope %g at the result %g', a, b, c, tol, df(x.value), x.value)
            require(len(calls) < 100, '(%g,%g,%g): %d evaluations', a, b, c, len(calls))
            k += 1
    return '%d searches' % k


def descent(n, A, c):
    """frprmn and dlinmin on q(x) = (x-c).A.(x-c)/2 + q0."""
    A, c = np.array(A, float), np.array(c, float)
    f = lambda x: .5 * (x - c).dot(A).dot(x - c)

    def func(p):
        return float(f(np.array(p[:n])))

    def dfunc(p, g):
        for i, v in enumerate(A.dot(np.array(p[:n]) - c)):
            g[i] = float(v)
    cf, cg = FN(func), GN(dfunc)
    lib.frprmn.restype = lib.dlinmin.restype = None
    for s in itertools.product((-2., 0., 1.5), repeat=n):
        a, p = guarded(n)
        p[:] = s
        d = -A.dot(p - c)
        if np.any(d):
            ba, xi = guarded(n)
            xi[:] = d
            fr = ct.c_double()
            p0 = p.copy()
            lib.dlinmin(ptr(p), ptr(xi), ct.c_int(n), ct.byref(fr), cf, cg)
            intact(a)
            intact(ba)
            t = d.dot(d) / d.dot(A).dot(d)
            close(p, p0 + t * d, 'line minimum from %s' % (s,), 2e-3, 2e-3)
            close(p - p0, xi, 'step returned', 1e-12)
            close(fr.value, f(p), 'value at the line minimum', 1e-12)
        p[:] = s
        it, fr = ct.c_int(), ct.c_double()
        lib.frprmn(ptr(p), ct.c_int(n), ct.c_double(1e-10), ct.byref(it), ct.byref(fr), cf, cg)
        intact(a)
        close(fr.value, f(p), 'value at the minimum', 1e-12)
        require(fr.value <= f(np.array(s)), 'higher than the start')
        require(fr.value < 2e-6, 'from %s: stopped at %s with %g after %d steps', s, p, fr.value, it.value)
        require(1 <= it.value <= 60, '%d steps', it.value)
    return 'minimum reached from all starts'


def quadratics():
    for a, b, c in itertools.product((1., 2., 7.), (-1., 0., .9), (1., 3.)):
        yield 2, [[a, b], [b, c]]
    for a, b, c in itertools.product((1., 5.), (-.6, .5), (0., .7)):
        yield 3, [[a, b, 0.], [b, 2., c], [0., c, 3.]]
    for a in (.5, 1., 4.):
        yield 1, [[a]]


# ---- fits ------------------------------------------------------------------------

def fit(x, vals, beta):
    """lib.fit on guarded copies, everything about it checked."""
    xa, xx = guarded(x.size)
    va, vv = guarded(vals.size, complex)
    xx[:], vv[:] = x, vals
    it, fr = ct.c_int(-7), ct.c_double(np.nan)
    lib.fit.argtypes = None
    lib.fit.restype = None
    lib.fit(ptr(xx), ct.byref(it), ct.byref(fr), ct.c_int(x.size // 2), ct.c_int(vals.size),
            ct.c_void_p(vv.ctypes.data), ct.c_double(beta))
    intact(xa)
    intact(va)
    require(vv.tobytes() == np.array(vals, complex).tobytes(), "target altered")
    require(1 <= it.value <= 2001, 'iterations reported: %d', it.value)
    return xx.copy(), it.value, fr.value


def fits(nb, m, beta, shift, part):
    z = freqs(m, beta)
    E = (-1., 0., .6)
    worst = 0.

    def go():
        worst, k, far = 0., 0, 0
        for e in itertools.combinations(E, nb) if nb > 2 else itertools.product(E, repeat=nb):
            for v in itertools.product((.3, .8), repeat=nb):
                xt = np.array(e + v)
                x0 = xt + shift * np.cos(np.arange(2 * nb) + .3)
                vals = delta(xt, z)
                x, it, f = fit(x0, vals, beta)
                close(f, chi2(x, vals, z), 'cost returned for bath %s' % (xt,), 1e-12, 1e-9)
                c0 = chi2(x0, vals, z)
                require(f <= c0 * (1 + 1e-12) + 1e-20, 'bath %s: cost %g above that of the start %g', xt, f, c0)
                g0, g = np.abs(dchi2(x0, vals, z)).max(), np.abs(dchi2(x, vals, z)).max()
                worst = max(worst, f / c0 if c0 > 1e-9 else 0.)
                far += c0 > 1e-9 and f > .1 * c0
                if shift == 0.:
                    close(x, xt, 'start at the solution', 1e-9)
                elif shift == .02:
                    require(f <= .05 * c0 + 1e-9, 'bath %s: from %s only %g reached (started at %g)', xt, x0, f, c0)
                require(g <= .1 * g0 + 1e-6, 'bath %s from %s: gradient %g (at the start %g)', xt, x0, g, g0)
                k += 1
        return worst, k, far
    worst, k, far = forked(go, 0xa5)
    return '%d baths, cost reduced to at worst %.2g of the start, %d above a tenth' % (k, worst, far)


def bethe(m, beta):
    z = freqs(m, beta)
    return 2 * (z - np.sqrt(z ** 2 - 1))


def asymmetric(m, beta):
    z = freqs(m, beta)
    return .3 / (z - .4) + .7 / (z + 1.1) + .2 / (z - 1.9)


PROBLEMS = {'bethe 2': (2, bethe, 20, 20.), 'bethe 3': (3, bethe, 40, 50.), 'asymmetric 1': (1, asymmetric, 7, 10.),
            'bethe 2 warmer': (2, bethe, 20, 8.), 'asymmetric 2': (2, asymmetric, 20, 20.),
            'asymmetric 4': (4, asymmetric, 25, 30.), 'bethe 1 one frequency': (1, bethe, 1, 5.)}


def answer(name, via):
    nb, f, m, beta = PROBLEMS[name]
    vals = f(m, beta)
    z = freqs(m, beta)
    if via == 'wrap':
        x = fit_wrap.fit_hybrid(nb, m, vals, beta)
        return np.array(x), None
    if via == 'wrap strided':
        big = np.full(2 * m, 9. + 9j)
        big[::2] = vals
        return np.array(fit_wrap.fit_hybrid(nb, m, big[::2], beta)), None
    x = np.concatenate([np.linspace(-1.2, 1., nb), np.full(nb, .5)])
    if via == 'cffi strided':
        big = np.full((2 * nb, 3), 5.)
        big[:, 1] = x
        tgt = np.full((m, 2), 9. + 9j)
        tgt[:, 0] = vals
        r = fit_cffi.fit_hybrid(big[:, 1], m, tgt[:, 0], beta)
        require(np.all(big[:, [0, 2]] == 5.) and np.all(tgt[:, 1] == 9. + 9j), 'neighbouring memory altered')
        return big[:, 1].copy(), (int(r[0]), float(r[1]))
    r = fit_cffi.fit_hybrid(x, m, vals, beta)
    close(r[1], chi2(x, vals, z), 'cost returned', 1e-12, 1e-9)
    return x.copy(), (int(r[0]), float(r[1]))


ASK = [(p, v) for p in PROBLEMS for v in ('wrap', 'cffi')] + [('bethe 2', 'wrap strided'), ('asymmetric 4', 'cffi strided')]
FIRST = {}


def first(q):
    if q not in FIRST:
        got = [forked(lambda: answer(*q), poison) for poison in (0, 0x5a, 0xa5, 0x7f)]
        for g in got[1:]:
            require(np.array_equal(g[0], got[0][0]) and g[1] == got[0][1], '%s: depends on memory contents: %s, %s', q, g, got[0])
        x, r = got[0]
        nb, f, m, beta = PROBLEMS[q[0]]
        require(np.all(np.isfinite(x)), '%s gives %s', q, x)
        c = chi2(x, f(m, beta), freqs(m, beta))
        if q[1].startswith('wrap'):
            x0 = np.concatenate([np.linspace(-2, 2, nb) if nb > 1 else [2.], np.full(nb, max(.1, 1 / np.sqrt(nb)))])
            if nb == 4:
                x0[1:3] = -.1, .1
        else:
            x0 = np.concatenate([np.linspace(-1.2, 1., nb), np.full(nb, .5)])
        require(c <= chi2(x0, f(m, beta), freqs(m, beta)) * (1 + 1e-9), '%s: cost %g above that of the initial bath', q, c)
        FIRST[q] = got[0]
    return FIRST[q]


def histories(a, depth):
    """All sequences of questions that begin with a."""
    n = 0
    for rest in itertools.product(ASK, repeat=depth - 1):
        seq = (a,) + rest
        want = [first(q) for q in seq]

        def go():
            for q, w in zip(seq, want):
                x, r = answer(*q)
                require(np.array_equal(x, w[0]) and r == w[1], '%s: %s gives %s %s, first %s %s',
                        ' -> '.join('%s by %s' % s for s in seq), q, x, r, w[0], w[1])
        forked(go, 0xa5 if n % 2 else 0x11)
        n += 1
    return n


def hostile():
    nan, inf = np.nan, np.inf
    for nb in (1, 2, 3):
        for m in (1, 4):
            for kind, vals in (('zero', np.zeros(m)), ('NaN', np.full(m, nan)), ('one NaN', [nan] + [.1] * (m - 1)),
                               ('infinite', np.full(m, inf)), ('huge', np.full(m, -1e200j)), ('large', np.full(m, -1e6j)),
                               ('tiny', np.full(m, -1e-200j)), ('acausal', np.full(m, 1j)), ('real', np.full(m, 1.))):
                for start_, x in (('bath', np.r_[np.linspace(-1, 1, nb), np.full(nb, .5)]), ('zero', np.zeros(2 * nb)),
                                  ('far', np.r_[np.full(nb, 1e8), np.full(nb, 1e-8)]), ('equal', np.full(2 * nb, .3)),
                                  ('NaN', np.full(2 * nb, nan))):
                    yield nb, m, kind, np.array(vals, complex), start_, x


def survive(nb, m, vals, x):
    def go():
        xx, it, f = fit(x, vals, 10.)
        z = freqs(m, 10.)
        c0 = chi2(x, vals, z)
        if np.isfinite(c0) and np.isfinite(c0 ** 2):
            require(f <= c0 * (1 + 1e-12), 'cost %g above that of the start %g', f, c0)
            require(np.all(np.isfinite(xx)), 'parameters %s', xx)
        return it
    return '%d steps' % forked(go, 0xa5)


def hard(nb, beta, m):
    """Many local valleys and slow convergence: every start of a grid must return to the caller."""
    def go():
        z, k, most = freqs(m, beta), 0, 0
        E = (-1., 0., .6)
        for e in itertools.product(E, repeat=nb):
            for v in itertools.product((.3, .8), repeat=nb):
                for de in (.05, -.2):
                    xt = np.array(e + v)
                    x0 = xt + de * np.cos(np.arange(2 * nb))
                    vals = delta(xt, z)
                    x, it, f = fit(x0, vals, beta)
                    require(f <= chi2(x0, vals, z) * (1 + 1e-12) + 1e-20, 'bath %s from %s: cost rises', xt, x0)
                    k, most = k + 1, max(most, it)
        return k, most
    return '%d fits of at most %d steps' % forked(go, 0x5a)


def body(chk):
    for nb in range(1, 7):
        for m in (1, 2, 5):
            chk.run('formulas nbath=%d nmats=%d' % (nb, m), formulas, nb, m, 7.)
    for nb in range(1, 13 if not THOROUGH else 41):
        chk.run('initial bath %d' % nb, start, nb)
    for name in FUNS:
        for a in np.arange(-3, 4.1, .5):
            chk.run('bracket %s from %g' % (name, a), bracket, name, a)
            chk.run('line search %s from %g' % (name, a), line, name, a)
    for n, A in quadratics():
        for c in (np.zeros(n), np.arange(n) - .6, np.full(n, .3)):
            chk.run('descent %s about %s' % (A, c.tolist()), descent, n, A, c)
    for nb in (1, 2, 3):
        for m, beta in itertools.product((1, 3, 20), (5., 30.)):
            for s in (0., .02, -.02, .1, -.1):
                chk.run('fit nbath=%d nmats=%d beta=%g start off by %g' % (nb, m, beta, s), fits, nb, m, beta, s, 0)
    for nb, beta, m in itertools.product((2, 3), (5., 70.), (3, 50)):
        chk.run('every start nbath=%d beta=%g nmats=%d' % (nb, beta, m), hard, nb, beta, m)
    for nb, m, kind, vals, sname, x in hostile():
        chk.run('survive nbath=%d nmats=%d target %s start %s' % (nb, m, kind, sname), survive, nb, m, vals, x)
    for a in ASK:
        for depth in (1, 2, 3) if not THOROUGH else (1, 2, 3, 4):
            k = chk.run('histories of %d from %s by %s' % (depth, a[0], a[1]), histories, a, depth)
            if k:
                chk.count('traces', k)
                chk.count('transitions', k * depth)
                chk.count('states', 1)


main(body, 'C21', LEVEL, 'parameters x bath sizes x frequency counts x starts x problem sequences', exhaustive=True)
