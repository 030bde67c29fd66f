"""C03: sector Hamiltonians (n_up, n_down) against second quantisation on bit strings."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of sectors x coupling alphabet, every matrix element compared with an explicit-state second-quantised model'
NOTE = 'All sectors up to 3 levels (thorough 4) for every single coupling, every pair of coupling kinds and all options, on the real assembly and compiled product kernels; couplings come from a finite alphabet and are symmetric.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from vlib import models, ref
from edpyt import espace, shared
from edpyt.build_mb_ham import build_mb_ham
from edpyt.matvec_product import matvec_operator, todense


def one(n, H, V, opts, nup, ndw, sct=None):
    """Build one sector through the public interface and compare everything observable."""
    shared.params.update(hfmode=False, mu=0., z=None)
    shared.params.update(opts)
    try:
        H0 = H.copy()
        V0 = {k: None if v is None else v.copy() for k, v in V.items()} if isinstance(V, dict) else V.copy()
        sct = espace.build_empty_sector(n, nup, ndw)
        ops = build_mb_ham(H, V, sct)
        d = sct.d
        D = np.asarray(todense(*ops))
        mv = matvec_operator(*ops)
        M = np.empty((d, d))
        for k in range(d):
            e = np.zeros(d)
            e[k] = 1.
            M[:, k] = np.asarray(mv(e))
        require(np.array_equal(H, H0) and H.flags.writeable, 'one-body Hamiltonian altered or left read-only')
        if isinstance(V, dict):
            require(all(np.array_equal(V[k], V0[k]) for k in V if V[k] is not None), 'interaction altered')
        else:
            require(np.array_equal(V, V0), 'interaction altered')
    finally:
        shared.params.update(hfmode=False, mu=0., z=None)
    Vd = V if isinstance(V, dict) else {'U': V}
    m = ref.Model(H0, Vd.get('U'), Vd.get('Jx'), Vd.get('Jp'), opts.get('mu', 0.), opts.get('z'), opts.get('hfmode', False))
    W = m.sz(nup, ndw)
    close(D, W, 'dense matrix of sector (%d,%d)' % (nup, ndw), 1e-12)
    close(M, W, 'products with unit vectors in sector (%d,%d)' % (nup, ndw), 1e-11)
    close(D, D.T, 'symmetry', 1e-12)
    return d


def every_sector(n, H, V, opts):
    tot = 0
    for nup, ndw in itertools.product(range(n + 1), repeat=2):
        tot += one(n, H.copy(), {k: v.copy() for k, v in V.items()} if isinstance(V, dict) else V.copy(), opts, nup, ndw)
    return '%d states' % tot


def singles(n):
    """One coupling at a time (the assembly is linear in each of them)."""
    Z = np.zeros((n, n))
    for v in (.7, -1.6):
        for s in (0, 1):
            for i in range(n):
                H = np.zeros((2, n, n))
                H[s, i, i] = v
                yield 'e%d%d=%g' % (s, i, v), H, Z
            for i, j in itertools.combinations(range(n), 2):
                H = np.zeros((2, n, n))
                H[s, i, j] = H[s, j, i] = v
                yield 't%d%d%d=%g' % (s, i, j, v), H, Z
        for i in range(n):
            V = np.zeros((n, n))
            V[i, i] = v
            yield 'U%d=%g' % (i, v), np.zeros((n, n)), V
        for i, j in itertools.combinations(range(n), 2):
            A = np.zeros((n, n))
            A[i, j] = A[j, i] = v
            yield 'W%d%d=%g' % (i, j, v), np.zeros((n, n)), A
            yield 'x%d%d=%g' % (i, j, v), np.zeros((n, n)), {'U': Z, 'Jx': A}
            yield 'p%d%d=%g' % (i, j, v), np.zeros((n, n)), {'U': Z, 'Jp': A}


def kinds(n):
    """All subsets of coupling kinds, generic values."""
    Z = np.zeros((n, n))
    for hop, spin, u, w, x, p in itertools.product((0, 1), repeat=6):
        H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
        U = (models.umat(n, w) if u else (models.umat(n, True) - models.umat(n, False) if w else Z))
        V = {'U': U}
        if x:
            V['Jx'] = models.jx(n)
        if p:
            V['Jp'] = models.jp(n)
        if not (x or p):
            V = U
        yield 'hop%d spin%d U%d W%d x%d p%d' % (hop, spin, u, w, x, p), H, V


def options(n):
    H = models.hspin(n)
    for hf, mu, z in itertools.product((False, True), (0., -.65, .4), (None, 'ones', 'zeros', 'ramp')):
        o = {'hfmode': hf, 'mu': mu}
        if z is not None:
            o['z'] = {'ones': np.ones(n), 'zeros': np.zeros(n), 'ramp': np.arange(n) * .3 + .2}[z]
        yield 'hf%d mu%g z=%s' % (hf, mu, z), H, models.umat(n), o
        yield 'hf%d mu%g z=%s J' % (hf, mu, z), H, {'U': models.umat(n), 'Jx': models.jx(n), 'Jp': models.jp(n)}, o


def small(n):
    """Couplings just above the documented cut-off must be kept."""
    for v in (2e-7, 1e-6, -3e-6):
        A = np.zeros((n, n))
        A[0, n - 1] = A[n - 1, 0] = v
        Z = np.zeros((n, n))
        yield 'small t %g' % v, A, Z
        yield 'small W %g' % v, Z, A
        yield 'small x %g' % v, Z, {'U': Z, 'Jx': A}
        yield 'small p %g' % v, Z, {'U': Z, 'Jp': A}


def forms(n):
    """The interaction may name any of its parts; None and absence mean zero."""
    U, X, P = models.umat(n), models.jx(n), models.jp(n)
    for a, b, c in itertools.product((0, 1, 2), repeat=3):
        V = {}
        for k, m, sel in (('U', U, a), ('Jx', X, b), ('Jp', P, c)):
            if sel == 1:
                V[k] = m
            elif sel == 2:
                V[k] = None
        yield 'form U%d x%d p%d' % (a, b, c), V


def optional(n, V):
    H = models.hspin(n)
    for nup, ndw in itertools.product(range(n + 1), repeat=2):
        W = {k: None if v is None else v.copy() for k, v in V.items()}
        one(n, H.copy(), W, {}, nup, ndw)


def layouts(n):
    """Read-only, Fortran-ordered and strided one-body matrices give the same operator."""
    H = models.hspin(n)
    big = np.zeros((2, 2 * n, 2 * n))
    big[:, ::2, ::2] = H
    f = np.asfortranarray(H)
    for h in (f, big[:, ::2, ::2], np.asfortranarray(H[0]), np.swapaxes(H, 1, 2)):
        for nup, ndw in itertools.product(range(n + 1), repeat=2):
            one(n, h, models.umat(n), {}, nup, ndw)
    for nup, ndw in itertools.product(range(n + 1), repeat=2):
        one(n, np.zeros((n, n)), models.umat(n), {}, nup, ndw)


def body(chk):
    top = 4 if THOROUGH else 3
    for n in range(1, top + 1):
        for name, H, V in singles(n):
            chk.run('n=%d single %s' % (n, name), every_sector, n, H, V, {})
    for n in range(2, top + 1):
        for name, H, V in kinds(n):
            chk.run('n=%d kinds %s' % (n, name), every_sector, n, H, V, {})
        for name, H, V, o in options(n):
            chk.run('n=%d opts %s' % (n, name), every_sector, n, H, V, o)
        for name, H, V in small(n):
            chk.run('n=%d %s' % (n, name), every_sector, n, H, V, {})
        for name, V in forms(n):
            chk.run('n=%d %s' % (n, name), optional, n, V)
        chk.run('n=%d layouts' % n, layouts, n)
    for name, H, V, o in options(1):
        if not isinstance(V, dict):
            chk.run('n=1 opts %s' % name, every_sector, 1, H, V, o)
    # one larger system, its extreme and middle sectors
    n = 5 if THOROUGH else 4
    for nup, ndw in [(0, 0), (1, 0), (0, 1), (1, 1), (n, n), (n, n - 1), (n - 1, n), (2, 1), (1, 2)]:
        chk.run('n=%d sector (%d,%d)' % (n, nup, ndw), one, n, models.hspin(n) if n <= 4 else np.array(
            [models.chain(n, -.7, .2), models.chain(n, .4, -.3)]), {'U': models.umat(4) if n == 4 else np.eye(n),
            'Jx': models.jx(4) if n == 4 else models.chain(n, .3), 'Jp': models.jp(4) if n == 4 else models.chain(n, .2)}, {}, nup, ndw)


main(body, 'C03', 'exploration',
     'single couplings, all subsets of coupling kinds, all option combinations, every optional form of the interaction; '
     'each case visits all sectors; all cases are non-trivial', exhaustive=True)
