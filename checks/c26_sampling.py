"""C26: sampled bath discretisations stay in range and reproduce what they fit."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of distributions on finite meshes with all random numbers at, between and next to the steps of the cumulative weight, and of all pole sets from finite grids; compared with exact rational arithmetic and explicit resolvents'
NOTE = 'All weight vectors with entries 0,1,2,3 on meshes of up to 4 (thorough 5) points; pole sets of 2-5 (thorough 6) poles from regular and clustered grids; one and two impurities; both copies of the library.'
import itertools
import math
import os
import sys
from fractions import Fraction as F

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup(optimize=True)
import numpy as np
np.seterr(all='ignore')
from edpyt import dedlib, dedlib_dev

LIBS = {'dedlib': dedlib, 'dedlib_dev': dedlib_dev}


class Rng:
    def __init__(self, values):
        self.values = list(values)
        self.used = 0

    def random(self):
        self.used += 1
        return self.values[self.used - 1]


def inverse(w, r):
    """Exact inverse cumulative lookup: the bin k with sum_{j<k} w_j <= r W < sum_{j<=k} w_j."""
    W = sum(w)
    acc = F(0)
    for k, x in enumerate(w):
        acc += x
        if r * W < acc:
            return k
    raise AssertionError


def randoms(w):
    """Random numbers at, next to and between the steps, and next to 0 and 1; the exact ones only where doubles are exact."""
    W = sum(w)
    out = [0., 5e-324, 2. ** -60, 1 - 2. ** -53, 1 - 2. ** -52, 1 - 1e-12, 1 - 1e-9, .5]
    acc = 0
    for x in w:
        acc += x
        for e in (-1e-9, 1e-9):
            out.append(acc / W + e)
        if x:
            out.append((acc - x / 2.) / W)
    return sorted({r for r in out if 0. <= r < 1.})


def support(lib, w, lims, dtype, hold):
    """Every sample is an energy of positive weight, the one the cumulative weight says."""
    m = len(w)
    L = LIBS[lib]
    table = np.array(w, dtype)
    width = lims[1] - lims[0]
    e = np.linspace(lims[0], lims[1], m)
    calls = []

    def p(x):
        calls.append(np.array(x))
        return table if hold else table.copy()
    rs_ = randoms(w)
    for n in (1, 2):
        rng = Rng(rs_ * n)
        s = L.RandomSampler(p, lims, n, rng, nsamples=(m - 1) / width)
        close(calls[-1], e, 'mesh', 1e-12)
        require(np.array_equal(table, np.array(w, dtype)), 'the distribution was changed to %s', table)
        for k in range(len(rs_) * n // n // n * 1 if n == 2 else len(rs_)):
            before = rng.used
            try:
                s()
            except IndexError as x:
                raise AssertionError('random number %r: %s' % (rng.values[before], x))
            rs = rng.values[before:rng.used]
            require(len(rs) == n, '%d random numbers used for %d poles', len(rs), n)
            got = list(s.poles)
            require(got == sorted(got), 'poles are not ordered: %s', got)
            ks = [min(range(m), key=lambda i: abs(e[i] - x)) for x in got]
            for x, i in zip(got, ks):
                require(abs(x - e[i]) < 1e-9, 'pole %s is not on the mesh', x)
                require(w[i] > 0, 'random numbers %s give energy %s of zero weight', rs, x)
            want = sorted(inverse(w, F(r)) for r in rs)
            # where rounding decides between neighbours, either
            sure = all(min(abs(F(r) * sum(w) - c) for c in itertools.accumulate((F(0),) + tuple(map(F, w)))) > F(1, 10 ** 11) or r == 0
                       for r in rs)
            if sure:
                require(ks == want, 'random numbers %s give energies %s, expected %s', rs, ks, want)
    return '%d random numbers' % len(rs_)


def fine(lib, kind, m):
    """Meshes of realistic size: the sampled distribution function is the inverse of the cumulative weight."""
    L = LIBS[lib]
    f = {'flat': lambda x: np.ones_like(x), 'lorentz': lambda x: 1 / (x ** 2 + .01), 'tails': lambda x: np.exp(-50 * x ** 2),
         'half': lambda x: np.where(x < .1, 0., 1. + x), 'two': lambda x: np.where(np.abs(np.abs(x) - .4) < .1, 1., 0.)}[kind]
    e = np.linspace(-1., 1., m)
    w = f(e)
    c = np.array([math.fsum(w[:k + 1]) for k in range(m)]) if m < 2000 else np.cumsum(w)
    rs = [0., 1e-300, 1e-17, 1 - 2. ** -53, 1 - 1e-15, 1 - 1e-13, 1 - 1e-12, 1 - 1e-10] + [k / 64. + 1e-4 for k in range(63)]
    s = L.RandomSampler(f, [-1., 1.], 1, Rng(rs), nsamples=(m - 1) / 2.)
    for r in rs:
        try:
            s()
        except IndexError as x:
            raise AssertionError('random number %r: %s' % (r, x))
        x = s.poles[0]
        k = int(round((x + 1) * (m - 1) / 2))
        require(abs(e[k] - x) < 1e-9 and w[k] > 0, 'random number %r gives %s of weight %s', r, x, w[k])
        lo = c[k - 1] if k else 0.
        require(lo / c[-1] - 1e-9 <= r <= c[k] / c[-1] + 1e-9, 'random number %r gives the bin (%r, %r)', r, lo / c[-1], c[k] / c[-1])


# -- pole fits ----------------------------------------------------------------
ZS = np.array([-1.3 + .2j, .1 + .3j, .9 + .05j, 2.5 + .7j, .4j, -6j])


class Poles:
    def __init__(self, p):
        self.poles = np.array(p, float)

    def __call__(self):
        pass


def interlace(p):
    """Zeros of sum 1/(z-p): eigenvalues of diag(p) in the space orthogonal to the uniform vector."""
    n = len(p)
    u = np.linalg.qr(np.column_stack([np.ones(n) / np.sqrt(n), np.eye(n)[:, :n - 1]]))[0][:, 1:]
    return np.linalg.eigvalsh((u.T * np.array(p)).dot(u))


def fit(L, p):
    g0 = L.Gf0(Poles(p))
    g = L.Gfimp(len(p))
    g.fit(g0)
    return g0, g


def poles(lib, p):
    L = LIBS[lib]
    n = len(p)
    g0, g = fit(L, p)
    G = (1. / (ZS[:, None] - np.array(p)[None])).sum(1) / n
    close(g0(ZS), G, 'non-interacting function', 1e-12)
    gap = np.diff(p)
    want = interlace(p)
    for i in range(n - 1):
        require(p[i] < g.ek[i] < p[i + 1], 'zero %d at %s is not between the poles %s', i, g.ek[i], p)
    close(g.ek, want, 'bath levels', 1e-7)
    require(np.all(g.vk2 > 0), 'residues %s', g.vk2)
    close(g.e0, np.mean(p), 'impurity level', 1e-12)
    # total weight of the hybridisation: second central moment of the poles
    close(g.vk2.sum(), np.var(p), 'sum of the couplings', 1e-6, 1e-6)
    D = ZS - np.mean(p) - 1 / G
    close(g.delta(ZS).sum(1), D, 'hybridisation', 1e-6)
    close(g(ZS), G, 'function of the fit', 1e-6)
    if hasattr(g0, 'derivative'):
        for k, e in enumerate(g.ek):
            d = -sum(1. / (e - x) ** 2 for x in p) / n
            close(g.vk2[k], -1 / d, 'residue %d' % k, 1e-9, 1e-6)
    # refitting with the same object gives the same
    g2 = L.Gfimp(n)
    g2.fit(L.Gf0(Poles(sorted(np.array(p) * .7 + .3))))
    g2.fit(g0)
    close(np.r_[g2.ek, g2.vk2, g2.e0], np.r_[g.ek, g.vk2, g.e0], 'fit after another one', 1e-6, 1e-6)
    # impurity Hamiltonian
    for U in (0., 1.7):
        H, V = np.full((n, n), 0.), np.zeros((n, n))
        if lib == 'dedlib':
            L.build_siam(H, V, U, g)
            require(V[0, 0] == U and np.count_nonzero(V) == (U != 0), 'interaction %s', V.tolist())
        else:
            L.build_siam(H, g)
        R = np.array([np.linalg.inv(z * np.eye(n) - H)[0, 0] for z in ZS])
        close(R, G, 'resolvent of the assembled Hamiltonian', 1e-6)
        require(np.array_equal(H, H.T), 'Hamiltonian is not symmetric')
        star = H.copy()
        star[0, :] = star[:, 0] = 0.
        require(np.count_nonzero(star - np.diag(np.diag(star))) == 0, 'bath levels are coupled to each other')


def several(lib, sets):
    """Several impurities with separate baths in one Hamiltonian."""
    L = LIBS[lib]
    k = len(sets)
    nb = len(sets[0]) - 1
    n = k * (nb + 1)
    gs = [fit(L, p)[1] for p in sets]
    H = np.zeros((n, n))
    for again in range(2):
        L.build_moam(H, gs)
        require(np.array_equal(H, H.T), 'Hamiltonian is not symmetric')
        for i, p in enumerate(sets):
            G = (1. / (ZS[:, None] - np.array(p)[None])).sum(1) / len(p)
            for j in range(k):
                R = np.array([np.linalg.inv(z * np.eye(n) - H)[i, j] for z in ZS])
                close(R, G if i == j else 0 * G, 'resolvent %d,%d of the assembled Hamiltonian' % (i, j), 1e-6)
        for i in range(k):
            H[i, i] -= .8


def weights(m, top):
    for w in itertools.product(range(top + 1), repeat=m):
        if sum(w):
            yield w


def body(chk):
    for lib in LIBS:
        for m in (2, 3, 4) + ((5,) if THOROUGH else ()):
            for w in weights(m, 3 if m < 4 or THOROUGH else 2):
                for lims in ((-1., 1.), (0., .25)) if m < 4 else ((-.5, 2.),):
                    for dtype in (float, int):
                        for hold in (False, True):
                            chk.run('%s weights %s on %s %s %s' % (lib, w, lims, dtype.__name__, hold), support, lib, w, lims, dtype, hold)
        for kind in ('flat', 'lorentz', 'tails', 'half', 'two'):
            for m in (2, 3, 8, 33, 101, 1001, 1537) + ((20001,) if THOROUGH else (4097,)):
                if kind in ('half', 'two') and m < 33:
                    continue
                chk.run('%s %s mesh %d' % (lib, kind, m), fine, lib, kind, m)
        grids = {'regular': [-3., -2., -1., 0., 1., 2., 3.], 'irregular': [-2.9, -1.5, -1., -.2, .05, .7, 2.],
                 'clustered': [-5., -4.999, -4.9, 1e-3, .1, 4.99, 5.]}
        for name, g in grids.items():
            for n in (2, 3, 4, 5) + ((6,) if THOROUGH else ()):
                for p in itertools.combinations(g, n):
                    chk.run('%s poles %s' % (lib, p), poles, lib, p)
        g = grids['irregular']
        for n in (2, 3):
            sets = list(itertools.combinations(g, n))[::1 if THOROUGH else 3]
            for a, b in itertools.permutations(sets, 2):
                chk.run('%s two impurities %s %s' % (lib, a, b), several, lib, (a, b))
        for c in itertools.permutations(list(itertools.combinations(g, 2))[::5], 3):
            chk.run('%s three impurities %s' % (lib, c), several, lib, c)


main(body, 'C26', 'exploration', 'distributions x random numbers; pole sets', exhaustive=True,
     assumptions=['random numbers within 1e-11 of a step may select either neighbour of positive weight'])
