"""C20: occupations from contour and Matsubara sums against Fermi sums, all pole patterns of a grid."""
SHARDS = 4
TECHNIQUE = 'exhaustive enumeration of pole patterns, weights, chemical potentials, temperatures and discretisations, compared with Fermi sums'
NOTE = 'Accuracy asserted: 1e-9 for |E - mu| <= nzp^2/(4 beta) in the contour form, (|E - mu|/w_max)^3 + 1e-10 in the Matsubara form with |E - mu| < w_max/2.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
np.seterr(all='ignore')
from vlib.transport import fermi
from edpyt.integrate_gf import integrate_gf, matsum_gf

KB = 8.617333262e-5
GRID = [-60., -7., -2., -.4, 0., .03, 1.1, 5., 30.]     # in units of the temperature
WEIGHTS = {1: [(1.,)], 2: [(.5, .5), (.9, .1)], 3: [(.2, .5, .3)]}


def contour(T, nzp, k, mus):
    """All patterns at once as components of one vector-valued function, some also on their own."""
    beta = 1 / (KB * T)
    top = nzp ** 2 / 4.
    grid = [x for x in GRID if abs(x) <= top] + [top * .99, -top * .99]
    pat = [(P, w) for P in itertools.combinations_with_replacement(grid, k) for w in WEIGHTS[k]]
    E = np.array([P for P, _ in pat]) / beta
    w = np.array([v for _, v in pat])
    prev, last = np.full(len(pat), -1.), -np.inf
    calls = []

    def gf(z):
        calls.append(z)
        return (w / (z - E)).sum(1)
    for m in mus:
        mu = m / beta
        ok = np.all(np.abs(E - mu) * beta <= top, 1)
        tag = 'T=%g nzp=%d mu=%g/beta' % (T, nzp, m)
        got = integrate_gf(gf, mu, T, nzp)
        want = (w * fermi(beta * (E - mu))).sum(1)
        close(got[ok], want[ok], tag, 2e-9)
        require(np.all(got > -2e-9) and np.all(got < 1 + 2e-9), '%s: out of bounds', tag)
        require(m < last or np.all(got > prev - 4e-9), '%s: decreases with the chemical potential', tag)
        prev, last = got, m
    require(all(np.imag(z) > 0 for z in calls), 'evaluated off the upper half plane')
    for j in range(0, len(pat), len(pat) // 3):
        ms = np.array([m for m in mus if np.all(np.abs(E[j] - m / beta) * beta <= top)])
        if not ms.size:
            continue
        want = np.array([(w[j] * fermi(beta * (E[j] - m / beta))).sum() for m in ms])
        close(integrate_gf(lambda z: (w[j] / (z - E[j])).sum(), ms[0] / beta, T, nzp), want[0], 'scalar function %d' % j, 2e-9)
        close(integrate_gf(lambda z: (w[j] / (np.asarray(z)[..., None] - E[j])).sum(-1), ms / beta, T, nzp), want, 'several mu', 2e-9)
    return '%d patterns' % len(pat)


class Lattice:
    """Diagonal Green functions of several sites; z + mu is what enters."""

    def __init__(self, E, w, mu):
        self.E, self.w, self.mu = E, w, mu

    def __call__(self, z):
        return (self.w[:, None, :] / ((z + self.mu)[None, :, None] - self.E[:, None, :])).sum(-1)


def matsubara(beta, nmats, k, mus):
    wmax = (2 * nmats - 1) * np.pi / beta
    grid = [x / beta for x in GRID] + [.11, -2.7, 1.3]
    for P in itertools.combinations_with_replacement(sorted(grid), k):
        for w in WEIGHTS[k]:
            E, w = np.array(P), np.array(w)
            for m in mus:
                x = E - m
                if np.any(np.abs(x) > .5 * wmax):
                    continue
                g = Lattice(np.array([E, -E]), np.array([w, w]), .123)
                got = matsum_gf(g, m, nmats, beta)
                tag = 'beta=%g nmats=%d poles %s weights %s mu=%g' % (beta, nmats, P, w.tolist(), m)
                require(g.mu == .123, '%s: chemical potential of the function left at %r', tag, g.mu)
                for y, e in zip(got, (E, -E)):
                    if np.any(np.abs(e - m) > .5 * wmax):
                        continue
                    want = (w * fermi(beta * (e - m))).sum()
                    close(y, want, tag, 2 * (np.abs(e - m).max() / wmax) ** 3 + 1e-10)
    # defaults
    g = Lattice(np.array([[-.3], [.2]]), np.ones((2, 1)), 0.)
    close(matsum_gf(g), fermi(70. * np.array([-.3, .2])), 'default discretisation', 1e-8)


def body(chk):
    for T, nzp in itertools.product((30., 300., 4000.), (20, 50, 100) if not THOROUGH else (6, 20, 50, 100, 150)):
        for k in (1, 2, 3):
            chk.run('contour T=%g nzp=%d %d poles' % (T, nzp, k), contour, T, nzp, k, (-50., -1., 0., .2, 3., 40.))
    chk.run('contour defaults', lambda: close(integrate_gf(lambda z: 1 / (z - .01)), float(fermi(.01 / (KB * 300))), 'default', 1e-9))
    for beta, nm in itertools.product((1., 10., 70.), (64, 500, 3000)):
        for k in (1, 2, 3) if nm < 3000 or THOROUGH else (1,):
            chk.run('Matsubara beta=%g n=%d %d poles' % (beta, nm, k), matsubara, beta, nm, k, (-1., 0., .35) if k < 3 else (.35,))


main(body, 'C20', 'exploration', 'pole patterns x weights x potentials x temperatures x discretisations', exhaustive=True)
