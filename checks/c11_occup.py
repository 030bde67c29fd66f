"""C11: occupations as thermal averages."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of models, retained-state subsets, temperatures, memory layouts and call sequences, compared with an explicit-state thermal average'
NOTE = 'All coupling kinds up to 3 levels (thorough 4); all subsets of sectors for 1 level and a family for more; every array layout; the eigenvectors come from the real solver, the energies and averages from an independent diagonalisation where the state is non-degenerate.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from vlib import models, ref
from edpyt.espace import build_empty_sector, build_espace, get_espace_dim, screen_espace
from edpyt.observs import get_evecs_occupation, get_occupation


def layouts(X):
    """The same matrix in different memory layouts."""
    d, k = X.shape
    yield 'C', np.ascontiguousarray(X)
    yield 'F', np.asfortranarray(X)
    b = np.zeros((d, k + 2))
    b[:, :k] = X
    yield 'leading columns', b[:, :k]
    b = np.zeros((d, 2 * k))
    b[:, ::2] = X
    yield 'every second column', b[:, ::2]
    b = np.zeros((2 * d, k), order='F')
    b[::2] = X
    yield 'every second row of F', b[::2]
    b = np.zeros((d, k + 1), order='F')
    b[:, 1:] = X
    yield 'trailing columns of F', b[:, 1:]
    yield 'reversed view', np.ascontiguousarray(X[:, ::-1])[:, ::-1]
    yield 'transposed', np.ascontiguousarray(X.T).T


def numbers(n, q):
    """n_i of every basis state, up then down."""
    st = ref.sz_basis(n, *q)
    return np.array([[(s >> i) & 1 for s in st] for i in range(2 * n)], float).reshape(2 * n, len(st))


def expect(espace, egs, beta, n):
    """Average over exactly the retained eigenvectors."""
    acc, Z = np.zeros(2 * n), 0.
    for q, s in espace.items():
        w = np.exp(-beta * (s.eigvals - egs))
        acc += numbers(n, q).dot((np.array(s.eigvecs) ** 2).dot(w))
        Z += w.sum()
    return acc[:n] / Z, acc[n:] / Z


def snapshot(espace):
    return {q: (s.d, s.eigvals.copy(), s.eigvecs.copy(), s.eigvecs.shape, s.eigvecs.strides) for q, s in espace.items()}


def unchanged(espace, snap):
    require(list(espace) == list(snap), 'sectors changed')
    for q, s in espace.items():
        d, e, x, shape, strides = snap[q]
        require(s.d == d and np.array_equal(s.eigvals, e), 'eigenvalues of %s changed', q)
        require(s.eigvecs.shape == shape, 'shape of the eigenvectors of %s became %s', q, s.eigvecs.shape)
        require(np.array_equal(s.eigvecs, x), 'eigenvectors of %s changed', q)


def ask(espace, egs, beta, n, tag):
    snap = snapshot(espace)
    want = expect(espace, egs, beta, n)
    first = None
    for rep in (1, 2):
        up, dw = get_occupation(espace, egs, beta, n)
        close(up, want[0], '%s, up, call %d' % (tag, rep), 1e-9)
        close(dw, want[1], '%s, down, call %d' % (tag, rep), 1e-9)
        unchanged(espace, snap)
        if first is not None:
            require(np.array_equal(first, (up, dw)), 'second call differs')
        first = np.array((up, dw))
    return up, dw


def model(n, H, V):
    full, egs = build_espace(H, V)
    sp = ref.Spectrum(ref.Model(H, V['U'] if isinstance(V, dict) else V, *(
        (V.get('Jx'), V.get('Jp')) if isinstance(V, dict) else ())))
    k = 0
    for beta in (.3, 2., 20.):
        up, dw = ask(full, egs, beta, n, 'complete, beta=%g' % beta)
        wu, wd = sp.occupation(beta)
        close(up, wu, 'thermal average, up', 1e-8)
        close(dw, wd, 'thermal average, down', 1e-8)
        Z = sum(np.exp(-beta * (e - sp.egs)).sum() for e in sp.E.values())
        N = sum(sum(q) * np.exp(-beta * (e - sp.egs)).sum() for q, e in sp.E.items()) / Z
        close(up.sum() + dw.sum(), N, 'particle number', 1e-8)
        # offsets of the reference energy cancel
        a = get_occupation(full, egs - 1., beta, n)
        close(np.array(a), np.array((up, dw)), 'shifted reference energy', 1e-9)
    # truncated solutions
    for neig in range(1, max(s.d for s in full.values()) + 1):
        es, e0 = build_espace(H, V, get_espace_dim(n, neig))
        ask(es, e0, 2., n, '%d states per sector' % neig)
        k += 1
    # screened ones
    for beta, cut in itertools.product((.3, 2., 20.), (.5, 1e-3)):
        es, e0 = build_espace(H, V)
        screen_espace(es, e0, beta, cut)
        ask(es, e0, beta, n, 'screened at %g, %g' % (beta, cut))
        ask(es, e0, 2 * beta, n, 'screened at %g, %g then cooled' % (beta, cut))
        k += 1
    return '%d solutions' % k


def subsets(n, bits):
    """All subsets of retained sectors."""
    H, V = models.hspin(n), models.umat(n)
    full, egs = build_espace(H, V)
    qs = list(full)
    for m in bits:
        es = {q: full[q] for b, q in enumerate(qs) if (m >> b) & 1}
        if es:
            ask(es, egs, 1.3, n, 'sectors %s' % list(es))


def vectors(n, q):
    """Every layout, weights and none; unit vectors and combinations of pairs."""
    sct = build_empty_sector(n, *q)
    d = sct.d
    N = numbers(n, q)
    cand = [np.eye(d)]
    X = np.cos(np.arange(d * d).reshape(d, d) ** 1.3)
    cand += [X, X[:, :1], X[:, : max(1, d - 1)], np.eye(d)[:, :1] + np.eye(d)[:, -1:]]
    for X in cand:
        for name, Y in layouts(X):
            for c in (None, np.arange(1., X.shape[1] + 1) * .7, np.zeros(X.shape[1])):
                keep, shape = Y.copy(), Y.shape
                up, dw = get_evecs_occupation(Y, sct.states.up, sct.states.dw, n, c)
                w = N.dot(X ** 2) * (1. if c is None else c)
                close(up, w[:n], '%s, %s, up' % (q, name), 1e-10)
                close(dw, w[n:], '%s, %s, down' % (q, name), 1e-10)
                require(Y.shape == shape and np.array_equal(keep, Y), '%s, %s: vectors altered', q, name)


def body(chk):
    for n in (1, 2, 3) + ((4,) if THOROUGH else ()):
        for hop, spin, u, w, x, p in itertools.product((0, 1), repeat=6):
            if n == 1 and (hop or w or x or p) or n == 4 and (w or p) or n == 3 and not THOROUGH and w != p:
                continue
            H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
            U = models.umat(n, w) if u else models.umat(n, w) * (1 - np.eye(n))
            V = {'U': U, 'Jx': models.jx(n) if x else None, 'Jp': models.jp(n) if p else None} if x or p else U
            chk.run('model n=%d hop%d spin%d u%d w%d x%d p%d' % (n, hop, spin, u, w, x, p), model, n, H, V)
        chk.run('model n=%d chain' % n, model, n, models.chain(n), np.zeros((n, n)))
        chk.run('model n=%d zero' % n, model, n, np.zeros((n, n)), np.zeros((n, n)))
    chk.run('subsets n=1', subsets, 1, range(16))
    for lo in range(0, 512, 64):
        chk.run('subsets n=2 from %d' % lo, subsets, 2, range(lo, lo + 64))
    for n in (1, 2, 3, 4) + ((5,) if THOROUGH else ()):
        for q in itertools.product(range(n + 1), repeat=2):
            chk.run('vectors n=%d sector %s' % (n, q), vectors, n, q)


main(body, 'C11', 'exploration', 'models x retained subsets x temperatures x layouts x repeated calls', exhaustive=True)
