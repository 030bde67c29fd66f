"""C07: continued fractions and spectral sums against the resolvent of the tridiagonal matrix."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of tridiagonal matrices over a finite alphabet, compiled kernel compared with the resolvent'
NOTE = 'All matrices up to size 4 (thorough 5) over 3 diagonal and 3 off-diagonal values incl. zero couplings, on a grid of complex frequencies; double precision, relative tolerance 1e-9.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from edpyt import gf_lanczos, gf_exact
from edpyt._continued_fraction import continued_fraction

A = (-1.1, 0., .6)
B = (0., .35, 1.3)
ZS = np.array([.3 + .5j, -2. + .01j, .6 + 1e-4j, 4. + 2.j, 0.j + .2j, 50.j, -.7 - .4j, 1.9 + 1.j])


def resolvent(a, b, z):
    n = len(a)
    T = np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)
    e1 = np.zeros(n)
    e1[0] = b[0]
    return np.array([e1.dot(np.linalg.solve(w * np.eye(n) - T, e1)) for w in z])


def tridiag(n, a0, zs):
    k = 0
    for rest in itertools.product(A, repeat=n - 1):
        for off in itertools.product(B, repeat=n - 1):
            for b0 in (1., .8):
                a = np.array((a0,) + rest)
                b = np.array((b0,) + off)
                want = resolvent(a, b, zs)
                aa, bb = a.copy(), b ** 2
                got = np.atleast_1d(continued_fraction(zs.copy(), aa, bb))
                close(got, want, 'continued fraction a=%s b=%s' % (a, b), 1e-9)
                require(np.array_equal(aa, a) and np.array_equal(bb, b ** 2), 'coefficients altered')
                e, eta = zs.real.copy(), zs.imag.copy()
                close(np.atleast_1d(gf_lanczos.continued_fraction(aa, bb)(e, eta)), want, 'function form', 1e-9)
                w, U = np.linalg.eigh(np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1))
                q = (U[0] * b[0]) ** 2
                close(np.atleast_1d(gf_lanczos.spectral(w, q)(e, eta)), want, 'spectral sum', 1e-8)
                close(np.atleast_1d(gf_exact.Gf(q * 3., w, 3.)(e, eta)), want, 'Lehmann sum', 1e-8)
                k += 1
    return '%d matrices' % k


def coefficients(n, a0):
    """Thermal weights and hole representation built from Krylov coefficients."""
    for rest in itertools.product(A, repeat=n - 1):
        for off in itertools.product(B, repeat=n - 1):
            a = np.array((a0,) + rest)
            b = np.array((.7,) + off)
            n_ = len(a)
            T = np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)
            for E, w, sign in itertools.product((0., -.9), (1., .4), (1, -1)):
                M = sign * (T - E * np.eye(n_))
                e1 = np.zeros(n_)
                e1[0] = b[0]
                want = w * np.array([e1.dot(np.linalg.solve(z * np.eye(n_) - M, e1)) for z in ZS])
                for coeff, kern in ((gf_lanczos.build_gf_coeff_cf, gf_lanczos.continued_fraction),
                                    (gf_lanczos.build_gf_coeff_sp, gf_lanczos.spectral)):
                    g = gf_lanczos.Gf()
                    g.add(kern, *coeff(a.copy(), b.copy(), E, w, sign))
                    g.Z = 2.
                    close(np.atleast_1d(g(ZS.real, ZS.imag)), want / 2., '%s a=%s b=%s E=%g sign=%d' % (
                        coeff.__name__, a, b, E, sign), 1e-8)


def lengths(n, m):
    a = np.linspace(-1, 1, n)
    b = np.linspace(.3, 1.1, n)
    z = np.linspace(-2, 2, m) + .3j
    got = continued_fraction(z, a, b ** 2)
    require(np.shape(got) in ((m,), ()) and np.size(got) == m, 'shape %s for %d frequencies', np.shape(got), m)
    close(np.atleast_1d(got), resolvent(a, b, z), 'length %d' % m, 1e-9)
    # a single frequency given as a number
    close(complex(continued_fraction(complex(z[0]), a, b ** 2)), complex(resolvent(a, b, z[:1])[0]), 'scalar', 1e-9)
    f = gf_lanczos.continued_fraction(a, b ** 2)
    close(np.atleast_1d(f(z.real, .3)), resolvent(a, b, z), 'scalar eta', 1e-9)
    close(np.atleast_1d(f(.5, np.full(m, .4))), resolvent(a, b, np.full(m, .5 + .4j)), 'scalar e', 1e-9)


def body(chk):
    for n in range(1, 6 if THOROUGH else 5):
        for a0 in A:
            zsets = [ZS] if n < 4 or THOROUGH else [ZS[:4], ZS[4:]]
            for i, zs in enumerate(zsets):
                chk.run('tridiag n=%d a0=%g z%d' % (n, a0, i), tridiag, n, a0, zs)
            if n < 4 or THOROUGH:
                chk.run('coefficients n=%d a0=%g' % (n, a0), coefficients, n, a0)
    for n in (1, 2, 3, 7, 40):
        for m in (1, 2, 3, 4, 9, 64, 257):
            chk.run('lengths n=%d m=%d' % (n, m), lengths, n, m)


main(body, 'C07', 'exploration',
     'all tridiagonal matrices over the alphabets %s (diagonal) and %s (off-diagonal), frequencies %s; all cases are '
     'non-trivial' % (A, B, ZS.tolist()), exhaustive=True)
