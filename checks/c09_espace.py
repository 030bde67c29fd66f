"""C09: solved sectors against dense diagonalisation of the second-quantised model."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of models, truncations and sector lists; every returned eigenpair checked against an explicit-state second-quantised model'
NOTE = 'All coupling kinds up to 3 levels (thorough 4) and every truncation size; sector lists exhaustively for 1-2 levels; iterative solver on all sectors of 6-7 levels above its size threshold and on all patterns of small matrices. ARPACK is not required to return degenerate copies.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from vlib import models, ref
from edpyt import eigh_arpack, shared
from edpyt.espace import build_espace, build_non_interacting_espace, get_espace_dim


def kinds(n):
    """Every subset of coupling kinds with generic (pairwise different) values, and some degenerate models."""
    Z = np.zeros((n, n))
    for hop, spin, u, w, x, p in itertools.product((0, 1), repeat=6):
        if n == 1 and (hop or w or x or p):
            continue
        H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
        U = models.umat(n, w) if u else (models.umat(n, True) - models.umat(n, False) if w else Z)
        V = {'U': U, 'Jx': models.jx(n) if x else None, 'Jp': models.jp(n) if p else None} if x or p else U
        yield 'n=%d hop%d spin%d u%d w%d x%d p%d' % (n, hop, spin, u, w, x, p), H, V
    yield 'n=%d zero' % n, Z.copy(), Z.copy()
    yield 'n=%d chain' % n, models.chain(n), Z.copy()
    yield 'n=%d half-filled chain' % n, models.chain(n, -1., -1.), 2. * np.eye(n)


def refmodel(H, V, opts, hopping=True):
    Vd = V if isinstance(V, dict) else {'U': V}
    return ref.Model(H, Vd.get('U'), Vd.get('Jx'), Vd.get('Jp'), opts.get('mu', 0.), opts.get('z'),
                     opts.get('hfmode', False), hopping)


def solve(H, V, neig, symmetry, opts):
    shared.params.update(hfmode=False, mu=0., z=None)
    shared.params.update(opts)
    try:
        return build_espace(H, V, neig, symmetry)
    finally:
        shared.params.update(hfmode=False, mu=0., z=None)


def pairs(sct, M, k, tag, degenerate=True, tol=1e-8):
    """Eigenpairs of one sector: count, order, values, vectors."""
    d = len(M)
    w = np.linalg.eigvalsh(M)
    require(sct.d == d, '%s: dimension %s, expected %s', tag, sct.d, d)
    e, X = np.asarray(sct.eigvals), np.asarray(sct.eigvecs)
    require(e.shape == (k,) and X.shape == (d, k), '%s: %s values and %s vectors, %d asked for', tag, e.shape, X.shape, k)
    require(np.all(np.diff(e) >= -tol), '%s: not ascending', tag)
    if degenerate:
        close(e, w[:k], 'energies, ' + tag, tol)
    else:
        close(e[0], w[0], 'lowest energy, ' + tag, tol)
        for x in e:
            require(np.min(np.abs(w - x)) < tol * 10, '%s: %g is not an eigenvalue', tag, x)
    close(M.dot(X), X * e, 'eigenvectors, ' + tag, tol * 10)
    close(X.T.dot(X), np.eye(k), 'orthonormality, ' + tag, tol)


def states_of(n, q, symmetry):
    return ref.sz_basis(n, *q) if symmetry == 'sz' else ref.basis(2 * n, q[0])


def labels(n, symmetry):
    if symmetry == 'sz':
        return [(a, b) for a in range(n + 1) for b in range(n + 1)]
    return [(k,) for k in range(2 * n + 1)]


def check(H, V, neig, symmetry, opts, mats=None):
    n = H.shape[-1]
    H0 = H.copy()
    given = None if neig is None else np.array(neig)
    espace, egs = solve(H, V, neig, symmetry, opts)
    require(np.array_equal(H, H0), 'Hamiltonian altered')
    if neig is not None:
        require(np.array_equal(given, neig), 'list of sector sizes altered')
    if mats is None:
        m = refmodel(H0, V, opts, symmetry == 'sz')
        mats = {q: m.matrix(states_of(n, q, symmetry)) for q in labels(n, symmetry)}
    low = []
    for k, q in enumerate(labels(n, symmetry)):
        d = len(mats[q])
        want = d if neig is None else min(int(neig[k]), d)
        if want == 0:
            require(q not in espace, 'sector %s solved though not asked for', q)
            continue
        require(q in espace, 'sector %s missing', q)
        sct = espace[q]
        if symmetry == 'sz':
            require(sct.states.up.tolist() == ref.basis(n, q[0]) and sct.states.dw.tolist() == ref.basis(n, q[1]),
                    'basis of %s', q)
        else:
            require(sct.states.tolist() == ref.basis(2 * n, q[0]), 'basis of %s', q)
        pairs(sct, mats[q], want, 'sector %s' % (q,))
        low.append(np.linalg.eigvalsh(mats[q])[0])
    require(list(espace) == sorted(espace) and len(espace) == len(low), 'sectors %s', list(espace))
    if low:
        close(egs, min(low), 'ground-state energy', 1e-9)
    return mats


def model(H, V, opts):
    n = H.shape[-1]
    k = 0
    nohop = H * np.eye(n)
    for symmetry, h in (('sz', H), ('N', nohop)):
        mats = check(h.copy(), V, None, symmetry, opts)
        dmax = max(map(len, mats.values()))
        for neig_max in range(1, dmax + 1):
            lim = get_espace_dim(n, neig_max, symmetry)
            require(lim.tolist() == [min(len(mats[q]), neig_max) for q in labels(n, symmetry)], 'sizes %s', lim)
            check(h.copy(), V, lim, symmetry, opts, mats)
            k += 1
    # without hopping both symmetries give the same spectrum for every particle number
    a, _ = solve(nohop.copy(), V, None, 'sz', opts)
    b, _ = solve(nohop.copy(), V, None, 'N', opts)
    for tot in range(2 * n + 1):
        w = np.sort(np.concatenate([s.eigvals for q, s in a.items() if sum(q) == tot]))
        close(b[(tot,)].eigvals, w, 'spectrum of %d particles' % tot, 1e-8)
    return '%d truncations' % k


def lists(n, alphabet, first, symmetry):
    H, V = models.hspin(n, symmetry == 'sz'), {'U': models.umat(n), 'Jx': models.jx(n), 'Jp': models.jp(n)}
    m = refmodel(H, V, {}, symmetry == 'sz')
    qs = labels(n, symmetry)
    mats = {q: m.matrix(states_of(n, q, symmetry)) for q in qs}
    k = 0
    for rest in itertools.product(alphabet, repeat=len(qs) - len(first)):
        neig = np.array([min(x, len(mats[q])) for x, q in zip(tuple(first) + rest, qs)])
        if neig.any():
            check(H.copy(), V, neig, symmetry, {}, mats)
            k += 1
    return '%d lists' % k


def some_lists(H, V, n, choices, first):
    """Every list of sector sizes drawn from the choices per sector dimension, for one model."""
    m = refmodel(H, V, {})
    qs = labels(n, 'sz')
    mats = {q: m.matrix(states_of(n, q, 'sz')) for q in qs}
    k = 0
    for rest in itertools.product(*[choices[len(mats[q])] for q in qs[len(first):]]):
        neig = np.array(tuple(first) + rest)
        if neig.any():
            check(H.copy(), V, neig, 'sz', {}, mats)
            k += 1
    return '%d lists' % k


def sector_pairs(H, V, n, a):
    """Two sectors solved with every combination of sizes, the others not at all or in full."""
    m = refmodel(H, V, {})
    qs = labels(n, 'sz')
    mats = {q: m.matrix(states_of(n, q, 'sz')) for q in qs}
    k = 0
    for b in range(a + 1, len(qs)):
        da, db = len(mats[qs[a]]), len(mats[qs[b]])
        mirror = qs[a] == qs[b][::-1]
        for x in range(1, da + 1) if mirror else sorted({1, 2, da}):
            for y in range(1, db + 1) if mirror else sorted({1, 2, db}):
                neig = np.zeros(len(qs), int)
                neig[a], neig[b] = min(x, da), min(y, db)
                check(H.copy(), V, neig, 'sz', {}, mats)
                k += 1
    return '%d lists' % k


_MAT = {}


def large(n, q, k, symmetry, kind):
    """Sector above the threshold of the iterative solver."""
    if kind == 'generic':
        H, V = _big(n, symmetry)
    else:
        H, V = (models.chain(n) if symmetry == 'sz' else np.zeros((n, n))), 2. * np.eye(n)
    key = n, q, symmetry, kind
    if key not in _MAT:
        _MAT.clear()
        _MAT[key] = refmodel(H, V, {}, symmetry == 'sz').matrix(states_of(n, q, symmetry))
    M = _MAT[key]
    neig = np.zeros_like(get_espace_dim(n, None, symmetry))
    neig[labels(n, symmetry).index(q)] = k
    espace, egs = solve(H, V, neig, symmetry, {})
    require(list(espace) == [q], 'sectors %s', list(espace))
    pairs(espace[q], M, k, 'sector %s' % (q,), degenerate=kind == 'generic')
    close(egs, np.linalg.eigvalsh(M)[0], 'ground-state energy', 1e-8)


def _big(n, symmetry):
    H = np.zeros((2, n, n))
    for s in (0, 1):
        H[s].flat[::n + 1] = np.cos(1.7 * np.arange(n) + s) * .5
        if symmetry == 'sz':
            for i in range(n - 1):
                H[s, i, i + 1] = H[s, i + 1, i] = .6 + .1 * i - .15 * s
            H[s, 0, n - 1] = H[s, n - 1, 0] = .27
    W = np.diag(1. + .1 * np.arange(n))
    W[0, 1] = W[1, 0] = .3
    if symmetry == 'sz':
        return H, W
    J = np.zeros((n, n))
    for i in range(n - 1):
        J[i, i + 1] = J[i + 1, i] = .4 + .05 * i
    return H, {'U': W, 'Jx': J, 'Jp': .5 * J}


def arpack(d, nev, bits):
    """All coupling patterns (incl. decoupled ones) of a matrix with distinct levels."""
    pos = list(itertools.combinations(range(d), 2))
    for m in bits:
        A = np.diag(np.array([.3, -.7, 1.1, .05, -.2, .8])[:d])
        for b, (i, j) in enumerate(pos):
            if (m >> b) & 1:
                A[i, j] = A[j, i] = .4 + .05 * b
        w, z = eigh_arpack.eigsh(d, nev, A.dot)
        e = np.linalg.eigvalsh(A)
        close(w, e[:nev], 'pattern %d' % m, 1e-9)
        close(A.dot(z), z * w, 'vectors, pattern %d' % m, 1e-8)
        close(z.T.dot(z), np.eye(nev), 'orthonormality, pattern %d' % m, 1e-9)
        w2, z2 = eigh_arpack.eigsh(d, nev, A.dot, v0=np.arange(1., d + 1))
        close(w2[0], e[0], 'given start, pattern %d' % m, 1e-9) if m == (1 << len(pos)) - 1 else None


def free(n):
    """Spectrum of non-interacting particles = all subset sums."""
    for ek in itertools.product((-.5, .25, 1.), repeat=n):
        ek = np.array(ek) + .01 * np.arange(n)
        given = ek.copy()
        espace, egs = build_non_interacting_espace(ek)
        require(np.array_equal(ek, given), 'levels altered')
        require(sorted(espace) == labels(n, 'sz'), 'sectors')
        low = np.inf
        for (a, b), sct in espace.items():
            want = sorted(sum(ek[i] for i in u) + sum(ek[i] for i in v)
                          for u in itertools.combinations(range(n), a) for v in itertools.combinations(range(n), b))
            close(sct.eigvals, np.array(want, float), 'levels %s sector %s' % (ek, (a, b)), 1e-10)
            low = min(low, want[0])
        close(egs, low, 'ground state', 1e-10)


def body(chk):
    opts = [('', {}), (' mu', {'mu': -.4}), (' hf', {'hfmode': True, 'mu': .3})]
    for n in (1, 2, 3) + ((4,) if THOROUGH else ()):
        for name, H, V in kinds(n):
            for oname, o in opts:
                if n >= 3 and not THOROUGH and oname:
                    continue
                if n == 4 and oname:
                    continue
                chk.run('model %s%s' % (name, oname), model, H, V, o)
    for symmetry, n, al in [('sz', 1, (0, 1)), ('N', 1, (0, 1, 2)), ('N', 2, (0, 1, 3, 9))]:
        for f in al:
            chk.run('lists %s n=%d first %d' % (symmetry, n, f), lists, n, al, (f,), symmetry)
    al = (0, 1, 9) if THOROUGH else (0, 9)
    for f in itertools.product(al, repeat=4):
        chk.run('lists sz n=2 first %s' % (f,), lists, 2, al, f, 'sz')
    Z2 = np.zeros((2, 2))
    three = {1: (0, 1), 2: (0, 1, 2), 4: (0, 1, 2, 3, 4) if THOROUGH else (0, 2, 4)}
    for name, H, V in [('spinless', models.hmat(2, 0, 1), models.umat(2)),
                       ('spinless exchange', models.hmat(2, 0, 1), {'U': models.umat(2), 'Jx': models.jx(2), 'Jp': models.jp(2)}),
                       ('free spin', models.hspin(2, True), Z2)][:3 if THOROUGH else 1]:
        for f in itertools.product((0, 1), (0, 1, 2)):
            chk.run('sizes %s n=2 first %s' % (name, f), some_lists, H, V, 2, three, f)
    for name, H, V in [('spinless', models.hmat(3, 0, 1), models.umat(3)), ('spin', models.hspin(3, True), models.umat(3))]:
        for a in range(15):
            chk.run('sector pairs %s n=3 sector %d' % (name, a), sector_pairs, H, V, 3, a)
    cases = [(7, q, 'sz') for q in ((3, 3), (3, 2), (4, 2), (3, 4))] + [(6, (6,), 'N'), (6, (5,), 'N')]
    if THOROUGH:
        cases += [(7, q, 'sz') for q in ((2, 4), (4, 3), (4, 4), (5, 3), (2, 3))] + [(6, (7,), 'N')]
    for n, q, sy in cases:
        for k in (1, 2, 3, 5) + ((8, 20) if THOROUGH else ()):
            chk.run('iterative %s n=%d sector %s k=%d' % (sy, n, q, k), large, n, q, k, sy, 'generic')
        for k in (1, 4):
            chk.run('iterative degenerate %s n=%d sector %s k=%d' % (sy, n, q, k), large, n, q, k, sy, 'degenerate')
    for d in (3, 4) + ((5,) if THOROUGH else ()):
        for nev in range(1, d):
            tot = 1 << (d * (d - 1) // 2)
            for lo in range(0, tot, 64):
                chk.run('arpack d=%d nev=%d patterns from %d' % (d, nev, lo), arpack, d, nev, range(lo, min(tot, lo + 64)))
    for n in (1, 2, 3, 4):
        chk.run('free levels n=%d' % n, free, n)


main(body, 'C09', 'exploration',
     'models x truncations x sector lists x solvers; a case is trivial never: each compares eigenpairs with the reference',
     exhaustive=True)
