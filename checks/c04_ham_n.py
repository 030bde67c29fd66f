"""C04: sector Hamiltonians with total-number symmetry against second quantisation."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of particle numbers x coupling alphabet, every matrix element compared with an explicit-state second-quantised model'
NOTE = 'All particle numbers up to 3 levels (thorough 4), every single coupling, every subset of coupling kinds and all options; inter-level hopping is documented as not supported there and only checked to be discarded with a warning.'
import itertools
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from vlib import models, ref
from edpyt import espace, shared
from edpyt.build_mb_ham import build_mb_ham
from edpyt.matvec_product import matvec_operator, todense


def setp(opts):
    shared.params.update(hfmode=False, mu=0., z=None)
    shared.params.update(opts)


def model(H, V, opts, hopping=False):
    Vd = V if isinstance(V, dict) else {'U': V}
    return ref.Model(H, Vd.get('U'), Vd.get('Jx'), Vd.get('Jp'), opts.get('mu', 0.), opts.get('z'),
                     opts.get('hfmode', False), hopping=hopping)


def every_number(n, H, V, opts):
    m = model(H, V, opts)
    setp(opts)
    try:
        for N in range(2 * n + 1):
            sct = espace.build_empty_sector(n, N)
            H0 = H.copy()
            ops = build_mb_ham(H, V, sct)
            D = np.asarray(todense(*ops))
            W = m.matrix(ref.basis(2 * n, N))
            close(D, W, 'dense matrix for N=%d' % N, 1e-12)
            mv = matvec_operator(*ops)
            M = np.array([np.asarray(mv(e)) for e in np.eye(sct.d)]).T
            close(M, W, 'products with unit vectors for N=%d' % N, 1e-11)
            require(np.array_equal(H, H0), 'one-body Hamiltonian altered')
    finally:
        setp({})


def spectra(n, H, V, opts):
    """Without hopping: spectrum per total number = union of the (up,down) spectra = the reference."""
    m = model(H, V, opts)
    setp(opts)
    try:
        a, ea = espace.build_espace(H.copy(), V, symmetry='N')
        b, eb = espace.build_espace(H.copy(), V)
    finally:
        setp({})
    require(sorted(a) == [(N,) for N in range(2 * n + 1)], 'sectors %s', sorted(a))
    for N in range(2 * n + 1):
        want = np.linalg.eigvalsh(m.matrix(ref.basis(2 * n, N)))
        close(a[(N,)].eigvals, want, 'spectrum N=%d' % N, 1e-10)
        u = np.sort(np.concatenate([b[q].eigvals for q in b if sum(q) == N]))
        close(u, want, 'union of (up,down) spectra N=%d' % N, 1e-10)
    close(ea, eb, 'ground-state energy', 1e-10)


def hopping_discarded(n, V):
    H = models.hspin(n)
    for N in range(2 * n + 1):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            ops = build_mb_ham(H, V, espace.build_empty_sector(n, N))
        require(any('opping' in str(x.message) for x in w), 'no warning about discarded hoppings')
        close(np.asarray(todense(*ops)), model(H, V, {}).matrix(ref.basis(2 * n, N)), 'N=%d' % N, 1e-12)


def singles(n):
    Z = np.zeros((n, n))
    for v in (.7, -1.6):
        for i in range(n):
            for s in (0, 1):
                H = np.zeros((2, n, n))
                H[s, i, i] = v
                yield 'e%d%d=%g' % (s, i, v), H, Z
            V = np.zeros((n, n))
            V[i, i] = v
            yield 'U%d=%g' % (i, v), Z.copy(), V
        for i, j in itertools.combinations(range(n), 2):
            A = np.zeros((n, n))
            A[i, j] = A[j, i] = v
            yield 'W%d%d=%g' % (i, j, v), Z.copy(), A
            yield 'x%d%d=%g' % (i, j, v), Z.copy(), {'U': Z, 'Jx': A}
            yield 'p%d%d=%g' % (i, j, v), Z.copy(), {'U': Z, 'Jp': A}


def kinds(n):
    Z = np.zeros((n, n))
    for spin, u, w, x, p in itertools.product((0, 1), repeat=5):
        H = models.hspin(n, False) if spin else models.hmat(n, 0, False)
        U = (models.umat(n, w) if u else (models.umat(n, True) - models.umat(n, False) if w else Z))
        V = {'U': U}
        if x:
            V['Jx'] = models.jx(n)
        if p:
            V['Jp'] = models.jp(n)
        yield 'spin%d U%d W%d x%d p%d' % (spin, u, w, x, p), H, (V if x or p else U)


def options(n):
    H = models.hspin(n, False)
    for hf, mu, z in itertools.product((False, True), (0., -.65, .4), (None, 'ones', 'ramp')):
        o = {'hfmode': hf, 'mu': mu}
        if z is not None:
            o['z'] = {'ones': np.ones(n), 'ramp': np.arange(n) * .3 + .2}[z]
        yield 'hf%d mu%g z=%s' % (hf, mu, z), H, models.umat(n), o
        if n > 1:
            yield 'hf%d mu%g z=%s J' % (hf, mu, z), H, {'U': models.umat(n), 'Jx': models.jx(n), 'Jp': models.jp(n)}, o


def body(chk):
    top = 4 if THOROUGH else 3
    for n in range(1, top + 1):
        for name, H, V in singles(n):
            chk.run('n=%d single %s' % (n, name), every_number, n, H, V, {})
        for name, H, V, o in options(n):
            chk.run('n=%d opts %s' % (n, name), every_number, n, H, V, o)
            chk.run('n=%d spectra opts %s' % (n, name), spectra, n, H, V, o)
        if n > 1:
            for name, H, V in kinds(n):
                chk.run('n=%d kinds %s' % (n, name), every_number, n, H, V, {})
                chk.run('n=%d spectra %s' % (n, name), spectra, n, H, V, {})
            for name, V in (('U', models.umat(n)), ('J', {'U': models.umat(n), 'Jx': models.jx(n)})):
                chk.run('n=%d hopping discarded %s' % (n, name), hopping_discarded, n, V)


main(body, 'C04', 'exploration',
     'single couplings, all subsets of coupling kinds, all option combinations; each case visits all particle numbers; '
     'all cases are non-trivial', exhaustive=True)
