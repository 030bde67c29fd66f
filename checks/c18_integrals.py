"""C18: closed-form tunnelling integrals and thermal factors over grids that contain every limit."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of grids of pole positions, lead potentials and temperatures including all coincidences, compared with contour quadrature of the defining integrals'
NOTE = 'Relative tolerance 3e-6 of the size of the integrand (the coinciding-pole branch is accurate to 1e-6), values below 1e-280 are not resolved.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
np.seterr(all='ignore')
from vlib.transport import fermi
from edpyt import integrals, sqtnl, sqtunneling, cotnl, cotunneling
from edpyt.espace import build_espace

POLES = [-35., -4., -1., -.3, 0., .5, 2., 12.]
WIDTH = [0.] + [s * w for w in (1e-9, 1e-6, 9e-5, 1.1e-4, 3e-3, .1, 1., 5., 40.) for s in (1, -1)]
SPLIT = [0., 1e-12, 4e-4, 9.9e-4, 1.01e-3, -1.5e-3, .02, -1., 7.]
BETAS = [1., 11.6, 400.]


class Line:
    """Re int F(z) f(z-a)(1-f(z-b)) dz along Im z = pi/2 in units of 1/beta."""

    def __init__(self, a, b):
        h = np.pi / 12
        x = np.arange(min(a, b) - 42, max(a, b) + 42, h)
        self.z = x + .5j * np.pi
        self.g = h / (1 + np.exp(self.z - a)) / (1 + np.exp(self.z * -1 + b))

    def __call__(self, Y, P):
        t = np.array(Y)[None] / (self.z[:, None] - np.array(P)[None])
        return (self.g * t.sum(1) ** 2).sum().real, (np.abs(self.g) * np.abs(t).sum(1) ** 2).sum()


def near(got, want, scale, what):
    got = float(got)
    require(abs(got - want) <= 3e-6 * scale + 1e-280, '%s: got %r, expected %r (size %g)', what, got, want, scale)


def one(beta, centre, w):
    a, b = centre - .5 * w, centre + .5 * w
    L, R = Line(a, b), Line(b, a)
    mu, um = [a / beta, b / beta], [b / beta, a / beta]
    for p in POLES:
        for C in (1., -.6):
            v, s = L([C], [p])
            got = integrals.I1(C, p / beta, mu, beta)
            near(got, v * beta, s * beta, 'I1 at pole %g/beta' % p)
            require(float(integrals.Gamma1(C, p / beta, mu, beta)) == float(got), 'Gamma1')
        rev = float(integrals.I1(C, p / beta, um, beta))
        near(np.exp(-w) * rev, v * beta, s * beta, 'I1 with exchanged leads, pole %g/beta' % p)
        for d in SPLIT:
            v, s = L([1., 1.], [p, p + d])
            v1, v2 = L([1.], [p])[0], L([1.], [p + d])[0]
            x = .5 * (v - v1 - v2)
            near(integrals.I2(.7, -1.3, p / beta, (p + d) / beta, mu, beta), -.91 * x * beta, s * beta, 'I2 poles %g, +%g' % (p, d))
            near(integrals.I2(-1.3, .7, (p + d) / beta, p / beta, mu, beta), -.91 * x * beta, s * beta, 'I2 poles exchanged %g, +%g' % (p, d))
            v, s = L([.7, -1.3], [p, p + d])
            near(integrals.Gamma2(.7, -1.3, p / beta, (p + d) / beta, mu, beta), v * beta, s * beta, 'Gamma2 poles %g, +%g' % (p, d))
    if abs(w) in (0., 1.) or THOROUGH:
        for P in itertools.combinations_with_replacement(POLES[1::2], 4):
            Y = [.5, -1.2, .8, .3]
            v, s = L(Y, P)
            near(integrals.Gamma4(*Y, *[p / beta for p in P], mu, beta), v * beta, s * beta, 'Gamma4 poles %s' % (P,))


def temperatures(p, q, mu):
    """The same energies at one temperature after another: every answer is that of its own temperature."""
    betas = (.8, 11.6, 30.)
    want, Y = {}, [.7, -1.3]
    for beta in betas:
        L = Line(mu[0] * beta, mu[1] * beta)
        P = [p * beta, q * beta]
        v, s = L(Y, P)
        v1, s1 = L(Y[:1], P[:1])
        v2, s2 = L(Y[1:], P[1:])
        R = Line(mu[1] * beta, mu[0] * beta)
        want[beta] = (beta * v, beta * s), (beta * v1, beta * s1), (beta * (v - v1 - v2) / 2, beta * s), (beta * R(Y, P)[0], beta * R(Y, P)[1])
    for seq in itertools.product(betas, repeat=3):
        for beta in seq:
            tag = 'temperatures %s, at %g' % (seq, beta)
            G, I1, I2, B = want[beta]
            near(integrals.I1(Y[0], p, list(mu), beta), *I1, 'I1, ' + tag)
            near(integrals.I2(*Y, p, q, list(mu), beta), *I2, 'I2, ' + tag)
            near(integrals.Gamma2(*Y, p, q, list(mu), beta), *G, 'Gamma2, ' + tag)
            near(integrals.Gamma(Y, [p, q], list(mu), beta), *G, 'Gamma, ' + tag)
            near(integrals.Gamma(Y, [p, q], list(mu[::-1]), beta), *B, 'Gamma with exchanged leads, ' + tag)
            near(integrals.Gamma(Y, [p, q], list(mu), beta), *G, 'Gamma, ' + tag)


def smooth(beta, p, q):
    """Sweep of the bias through zero and of the pole distance through zero: no jumps."""
    for f, name in ((lambda x: integrals.I1(1., p / beta, [.1 / beta, (.1 + x) / beta], beta), 'I1 in the bias'),
                    (lambda x: integrals.I2(1., 1., p / beta, q / beta, [.1 / beta, (.1 + x) / beta], beta), 'I2 in the bias'),
                    (lambda x: integrals.I2(1., 1., p / beta, (p + x) / beta, [0., 1. / beta], beta), 'I2 in the pole distance')):
        xs = np.concatenate([-np.logspace(-1, -10, 46), [0.], np.logspace(-10, -1, 46)])
        y = np.array([float(f(x)) for x in xs])
        require(np.all(np.isfinite(y)), '%s: not finite', name)
        lim = .5 * (y[45] + y[47])
        require(np.all(np.abs(y - y[46]) <= 4e-6 * beta + 3. * beta * np.abs(xs)), '%s: jump near zero, %s', name, y[np.argmax(np.abs(y - y[46]))])
        require(abs(lim - y[46]) <= 4e-6 * beta, '%s: value at zero %g, limit %g', name, y[46], lim)


def factors(beta):
    """Rates of a single level: occupation of the lead and its complement, at all energies."""
    xs = [0., 1e-300, 1e-12, 1e-3, .5, 3., 36., 99., 101., 705., 715., 5000.]
    for x in xs + [-x for x in xs]:
        for mu in (0., .3):
            e = x / beta + mu
            es, egs = build_espace(np.array([[e]]), np.array([[0.]]))
            el = sqtunneling.build_transition_elements(1, min(s.eigvals.min() for s in es.values()), es)
            es2, _ = build_espace(np.array([[e]]), np.array([[0.]]), symmetry='N')
            l2 = sqtnl.build_transition_elements(1, es2, 1)
            f = float(fermi(beta * (e - mu)))
            g = float(fermi(-beta * (e - mu)))
            for (F, I), t in el.items():
                want = f if sum(F[:2]) > sum(I[:2]) else g
                close(t(np.array([1.]), beta, mu), want, 'sz factor at %g' % x, 1e-12, 1e-10)
            for (F, I), ts in l2.items():
                want = f if F[0] > I[0] else g
                for t in ts:
                    w = want * float(t.v[0]) ** 2
                    close(t(np.array([1.]), beta, mu), w, 'N factor at %g' % x, 1e-12, 1e-10)


def bose(beta):
    """Approximate rates of elastic transfer as a function of the bias: x/(exp(beta x) - 1)."""
    H, V = np.array([[-40.]]), np.array([[80.]])
    es, egs = build_espace(H, V)
    a = cotunneling.build_transition_elements(1, egs, es)
    es2, egs2 = build_espace(H, V, symmetry='N')
    b = cotnl.build_transition_elements(1, es2, 1)
    A = np.ones((2, 1))
    xs = [0.] + [s * 10. ** k for k in np.arange(-30, 3.1, .5) for s in (1, -1)] + [710., -710., 990., 1010., -1010.]
    for x in xs:
        mu = [-.5 * x / beta, .5 * x / beta]
        want = 1 / beta if x == 0 else 0. if x > 700 else x / beta / np.expm1(x)
        for tab in (a, b):
            for sigs in tab.values():
                for s in sigs:
                    got = np.asarray(s.approximate(A, 0, 1, beta, mu)).ravel()[0]
                    amp = np.asarray(s(0., A, 0, 1)).ravel()[0]
                    close(got, want * amp, 'thermal factor at beta dmu = %g' % x, 1e-300, 1e-9)


def body(chk):
    for p, q in itertools.product((-1.2, -.1, .4, 1.5), repeat=2):
        for mu in ((0., 0.), (.1, -.2), (-.2, .35)):
            chk.run('temperatures poles %g %g leads %s' % (p, q, mu), temperatures, p, q, mu)
    for beta in BETAS:
        for w in WIDTH:
            for c in (0., 1.7) if not THOROUGH else (0., 1.7, -.4, -6.):
                chk.run('beta=%g width %g/beta centre %g/beta' % (beta, w, c), one, beta, c, w)
        for p, q in itertools.product((-3., 0., .1, 1.3), (-1., .1, 2.)):
            chk.run('beta=%g smooth, poles %g %g' % (beta, p, q), smooth, beta, p, q)
        chk.run('beta=%g Fermi factors' % beta, factors, beta)
        chk.run('beta=%g Bose factors' % beta, bose, beta)


main(body, 'C18', 'exploration', 'temperatures x potentials x pole positions', exhaustive=True)
