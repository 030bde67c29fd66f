"""C22: the Python bath fit and the initial baths of both backends."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of parameter grids, frequency arrays, starts and call sequences, compared with pole formulas and with the compiled backend'
NOTE = 'Bath sizes to 8 for the model (thorough 12), to 3 for fits from every start of a grid; scipy minimises as installed, numba kernels run through a plain-Python stand-in.'
import ctypes as ct
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup(optimize=True)
lib = env.setup_backend()
import numpy as np
from edpyt import fit_cg
from edpyt.fit_cg import Chi2, DDelta, Delta, dChi2, fit_hybrid, get_initial_bath


def freqs(m, beta):
    return 1j * (2 * np.arange(m) + 1) * np.pi / beta


def delta(p, z):
    n = p.size // 2
    return (p[n:] ** 2 / (z[..., None] - p[:n])).sum(-1)


def ddelta(p, z):
    n = p.size // 2
    e, v = p[:n], p[n:]
    return np.concatenate([v ** 2 / (z[:, None] - e) ** 2, 2 * v / (z[:, None] - e)], 1)


def cost(p, vals, z):
    return (np.abs(vals - delta(p, z)) ** 2).mean()


def slope(p, vals, z):
    F, g = vals - delta(p, z), ddelta(p, z)
    return -2 * (g.real * F.real[:, None] + g.imag * F.imag[:, None]).mean(0)


def grids(nb):
    E = (-1.3, 0., .4) if nb < 4 else (-1.3, .4)
    V = (0., .7, -1.1) if nb < 3 else (.7, -1.1)
    vs = list(itertools.product(V, repeat=nb)) if nb < 4 else [tuple(V[(i + s) % 2] * (1 + .1 * i) for i in range(nb)) for s in (0, 1)]
    es = itertools.product(E, repeat=nb) if nb < 7 else [tuple(E[(i >> s) & 1] + .01 * i for i in range(nb)) for s in range(3)]
    for e in es:
        for v in vs:
            yield np.array(e + v)


def model(nb):
    zs = [np.array([.3j]), freqs(2, 7.), np.array([-.4 + .1j, .4 - .2j, 2. + .01j, 5j]), np.array([1e10j])]
    vals = [np.array([.3 * np.cos(j) - 1j * (.2 + np.sin(j) ** 2) for j in range(z.size)]) for z in zs]
    fs = [(Delta(z), DDelta(z, 2 * nb)) for z in zs]
    k = 0
    for p in grids(nb):
        p0 = p.copy()
        for z, t, (f, df) in zip(zs, vals, fs):
            z0, t0 = z.copy(), t.copy()
            close(f(p), delta(p, z), 'hybridisation at %s' % p, 1e-12)
            close(df(p), ddelta(p, z), 'derivative at %s' % p, 1e-12)
            c, g = Chi2(f, t), dChi2(f, df, t)
            close(c(p), cost(p, t, z), 'cost at %s' % p, 1e-12)
            close(g(p), slope(p, t, z), 'gradient at %s' % p, 1e-11)
            close(c(p), cost(p, t, z), 'cost asked again', 1e-12)
            close(fit_cg._delta(p, z), delta(p, z), 'hybridisation without buffer', 1e-12)
            require(np.array_equal(z, z0) and np.array_equal(t, t0) and np.array_equal(p, p0), 'input altered')
        k += 1
    z, t = zs[1], vals[1]
    f, df = fs[1]
    c, g = Chi2(f, t), dChi2(f, df, t)
    h = 1e-5
    G = g(p).copy()
    for i in range(2 * nb):
        a, b = p.copy(), p.copy()
        a[i] += h
        b[i] -= h
        close(G[i], (c(a) - c(b)) / (2 * h), 'difference quotient, parameter %d' % i, 1e-6, 1e-4)
    # the same vector with other values, as minimisers change theirs in place
    q = p.copy()
    for i in range(2 * nb):
        close(f(q), delta(q, z), 'hybridisation at a vector changed in place', 1e-12)
        close(df(q), ddelta(q, z), 'derivative at a vector changed in place', 1e-12)
        close(g(q), slope(q, t, z), 'gradient at a vector changed in place', 1e-11)
        close(c(q), cost(q, t, z), 'cost at a vector changed in place', 1e-12)
        q[i] += .05
        close(c(q), cost(q, t, z), 'cost at a vector changed in place', 1e-12)
        close(g(q), slope(q, t, z), 'gradient at a vector changed in place', 1e-11)
        q[i] += .05
    # functions over other arrays are independent of each other
    x = [f(p).copy() for f, _ in fs]
    for (f, _), w in zip(reversed(fs), reversed(x)):
        require(np.array_equal(f(p), w), 'depends on other frequency arrays')
    return '%d parameter vectors' % k


def initial(nb, bw):
    p = get_initial_bath(nbath=nb, bandwidth=bw)
    require(p.shape == (2 * nb,) and p.dtype == float, 'shape %s', p.shape)
    e, v = p[:nb], p[nb:]
    close(v, np.full(nb, max(.1, 1 / np.sqrt(nb))), 'couplings', 1e-12)
    require(np.all(np.abs(e) <= bw + 1e-12), 'levels %s beyond %g', e, bw)
    if nb > 1:
        close(np.sort(e), np.sort(-e), 'symmetry', 1e-12)
        close([e[0], e[-1]], [-bw, bw], 'band edges', 1e-12)
    if nb > 1 and nb % 2:
        close(e, np.linspace(-bw, bw, nb), 'spacing', 1e-12)
    if nb > 3 and not nb % 2:
        close(e[nb // 2 - 1:nb // 2 + 1], [-.1, .1], 'levels next to the centre', 1e-12)
        close(e[:nb // 2 - 1], -bw + np.arange(nb // 2 - 1) * bw / (nb // 2 - 1), 'spacing', 1e-12)
    # in place, over whatever was there
    for junk in (np.nan, 7., -1e300):
        q = np.full(2 * nb, junk)
        r = get_initial_bath(p=q, bandwidth=bw)
        require(r is q, 'not in place')
        require(np.array_equal(q, p), 'from an array of %g: %s, expected %s', junk, q, p)
    if bw == 2.:
        require(np.array_equal(get_initial_bath(nbath=nb), p), 'default bandwidth')
        for junk in (np.nan, -3.):
            x = np.full(2 * nb, junk)
            ct.c_int.in_dll(lib, 'nbath').value = nb
            lib.init_bath(ct.c_void_p(x.ctypes.data))
            close(x, p, 'compiled backend, over %g' % junk, 1e-14)
    try:
        get_initial_bath(p=np.zeros(2 * nb), nbath=nb)
        require(False, 'both an array and a size accepted')
    except ValueError:
        pass


def fits(nb, m, beta, shift):
    z = freqs(m, beta)
    k, worst = 0, 0.
    E = (-1., 0., .6)
    for e in itertools.product(E, repeat=nb) if nb < 3 else itertools.combinations(E, nb):
        for v in itertools.product((.3, .8), repeat=nb):
            xt = np.array(e + v)
            p = xt + shift * np.cos(np.arange(2 * nb) + .3)
            x0 = p.copy()
            vals = delta(xt, z)
            v0 = vals.copy()
            r = fit_hybrid(p, m, vals, beta)
            require(r is None or r is p, 'returns %r', r)
            require(np.array_equal(vals, v0), 'target altered')
            c0, c = cost(x0, vals, z), cost(p, vals, z)
            require(c <= c0 * (1 + 1e-12) + 1e-20, 'bath %s: cost %g above that of the start %g', xt, c, c0)
            g, g0 = np.abs(slope(p, vals, z)).max(), np.abs(slope(x0, vals, z)).max()
            require(g <= 2e-5 + .02 * g0, 'bath %s from %s: gradient %g left of %g', xt, x0, g, g0)
            if shift == 0.:
                close(p, xt, 'start at the solution', 1e-9)
            elif abs(shift) < .05:
                require(c <= .05 * c0 + 1e-7, 'bath %s from %s: cost %g left of %g', xt, x0, c, c0)
            worst = max(worst, c / c0 if c0 > 1e-9 else 0)
            k += 1
    return '%d fits, %.2g of the cost left at worst' % (k, worst)


def bethe(m, beta):
    z = freqs(m, beta)
    return 2 * (z - np.sqrt(z ** 2 - 1))


def asymmetric(m, beta):
    z = freqs(m, beta)
    return .3 / (z - .4) + .7 / (z + 1.1) + .2 / (z - 1.9)


PROBLEMS = [(2, bethe, 20, 20.), (3, bethe, 30, 40.), (1, asymmetric, 7, 10.), (4, asymmetric, 15, 30.), (1, bethe, 1, 5.)]


def solve(i, strided=False):
    nb, f, m, beta = PROBLEMS[i]
    vals = f(m, beta)
    if strided:
        big = np.full(2 * m, 9. + 9j)
        big[::2] = vals
        vals = big[::2]
        box = np.full((2 * nb, 2), 3.)
        p = box[:, 0]
        get_initial_bath(p=p)
    else:
        p = get_initial_bath(nbath=nb)
    fit_hybrid(p, m, vals, beta)
    return p.copy()


def histories(a, b):
    first = [solve(i) for i in range(len(PROBLEMS))]
    for c in range(len(PROBLEMS)):
        for i in (a, b, c):
            require(np.array_equal(solve(i), first[i]), 'problem %d in the sequence %s', i, (a, b, c))
    close(solve(a, True), first[a], 'strided arrays', 1e-9)
    nb, f, m, beta = PROBLEMS[a]
    x0 = get_initial_bath(nbath=nb)
    z, vals = freqs(m, beta), f(m, beta)
    require(cost(first[a], vals, z) <= cost(x0, vals, z), 'cost rises')
    # a second fit from the result does not make it worse
    p = first[a].copy()
    fit_hybrid(p, m, vals, beta)
    require(cost(p, vals, z) <= cost(first[a], vals, z) * (1 + 1e-12), 'refitting raises the cost')


def body(chk):
    for nb in range(1, 13 if THOROUGH else 9):
        chk.run('model nbath=%d' % nb, model, nb)
    for nb in range(1, 41 if THOROUGH else 17):
        for bw in (2., .5, 10., 1.):
            chk.run('initial bath %d bandwidth %g' % (nb, bw), initial, nb, bw)
    for nb in (1, 2, 3):
        for m, beta in itertools.product((1, 3, 20), (5., 30.)):
            for s in (0., .02, -.02, .1, -.1):
                chk.run('fit nbath=%d nmats=%d beta=%g start off by %g' % (nb, m, beta, s), fits, nb, m, beta, s)
    for a, b in itertools.product(range(len(PROBLEMS)), repeat=2):
        chk.run('histories %d %d' % (a, b), histories, a, b)


main(body, 'C22', 'exploration', 'bath sizes x parameters x frequencies x starts x call sequences', exhaustive=True)
