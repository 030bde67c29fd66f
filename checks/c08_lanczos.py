"""C08: Krylov tridiagonalisation and its solvers against exact rational arithmetic."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of integer matrices and start vectors, compared with the recursion in exact rational arithmetic'
NOTE = 'All symmetric matrices with entries -1,0,1 up to dimension 3 and 0,1 at dimension 4 (thorough: more), a set of integer start vectors covering every breakdown step; beyond the exact breakdown only decoupling is required.'
import itertools
import os
import sys
from fractions import Fraction as F

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from edpyt import lanczos
from edpyt.tridiag import egs_tridiag, eigh_tridiagonal, gs_tridiag


def exact(M, v):
    """Unnormalised Lanczos in rationals: alphas and squared betas up to the exact breakdown."""
    d = len(M)
    dot = lambda x, y: sum((a * b for a, b in zip(x, y)), F(0))
    v = [F(x) for x in v]
    l = [F(0)] * d
    al, b2 = [], []
    prev = F(1)
    nv = dot(v, v)
    b2.append(nv)
    while nv:
        w = [dot(r, v) for r in M]
        a = dot(v, w) / nv
        al.append(a)
        # w/|v| - a v/|v| - beta l_normalised, kept unnormalised
        new = [x - a * y - (nv / prev if len(al) > 1 else 0) * z for x, y, z in zip(w, v, l)]
        l, v, prev = v, new, nv
        n2 = dot(v, v)
        b2.append(n2 / prev)
        nv = n2
    return al, b2


def starts(d):
    for i in range(d):
        yield tuple(int(i == j) for j in range(d))
    yield (1,) * d
    if d > 1:
        yield tuple((-1) ** k * (k + 1) for k in range(d))
        yield (1, -1) + (0,) * (d - 2)


def tri(a, b):
    return np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)


def one(M, v0):
    d = len(M)
    al, b2 = exact(M, v0)
    m = len(al)
    H = np.array(M, float)
    phi = np.array(v0, float)
    a, b = lanczos.build_sl_tridiag(H.dot, phi)
    tag = 'matrix %s start %s' % (M, v0)
    require(len(a) == len(b), 'lengths differ: %s', tag)
    require(len(a) >= m, '%s: stopped after %d of %d steps', tag, len(a), m)
    A = np.array([float(x) for x in al])
    Bx = np.sqrt([float(x) for x in b2[:m]])
    close(a[:m], A, 'diagonal, ' + tag, 1e-7)
    close(np.abs(b[:m]), Bx, 'off-diagonal, ' + tag, 1e-7)
    if len(a) > m:
        require(abs(b[m]) < 1e-6, '%s: recursion continued through the breakdown with %g', tag, b[m])
    # Ritz pairs of the Krylov space
    w, X = lanczos.sl_solve(H.dot, A.copy(), Bx.copy(), np.array(v0, float))
    want = np.linalg.eigvalsh(tri(A, Bx))
    close(w, want, 'Ritz values, ' + tag, 1e-7)
    require(X.shape == (d, m))
    close(H.dot(X), X * w[None, :], 'eigenpairs, ' + tag, 1e-6)
    close(X.T.dot(X), np.eye(m), 'orthonormality, ' + tag, 1e-6)
    close(lanczos.sl_solve(H.dot, A.copy(), Bx.copy(), eigvals_only=True), want, 'values only, ' + tag, 1e-7)
    for k in range(m):
        w2, X2 = lanczos.sl_solve(H.dot, A.copy(), Bx.copy(), np.array(v0, float), select=2, select_range=(0, k))
        close(w2, want[:k + 1], 'lowest %d, %s' % (k + 1, tag), 1e-7)
        close(H.dot(X2), X2 * w2[None, :], 'lowest pairs, ' + tag, 1e-6)
        close(X2.T.dot(X2), np.eye(k + 1), 'orthonormality of lowest, ' + tag, 1e-6)


def matrices(d, alphabet, first):
    pos = [(i, j) for i in range(d) for j in range(i, d)]
    for vals in itertools.product(alphabet, repeat=len(pos) - len(first)):
        M = [[0] * d for _ in range(d)]
        for (i, j), v in zip(pos, tuple(first) + vals):
            M[i][j] = M[j][i] = v
        yield M


def block(d, alphabet, first):
    k = 0
    for M in matrices(d, alphabet, first):
        for v in starts(d):
            one(M, v)
            k += 1
    return '%d runs' % k


def limits(maxn):
    """The step limit truncates the recursion and changes nothing before it."""
    d = 6
    H = np.diag(np.linspace(-1, 2, d)) + np.diag(np.ones(d - 1) * .5, 1) + np.diag(np.ones(d - 1) * .5, -1)
    v0 = np.arange(1., d + 1)
    a0, b0 = lanczos.build_sl_tridiag(H.dot, v0.copy())
    a, b = lanczos.build_sl_tridiag(H.dot, v0.copy(), maxn=maxn)
    require(1 <= len(a) <= maxn and len(a) == len(b), 'limit %d gives %d steps', maxn, len(a))
    require(len(a) >= min(maxn - 1, len(a0)), 'limit %d stops after %d steps', maxn, len(a))
    k = min(len(a), d)
    close(a[:k], a0[:k], 'diagonal', 1e-12)
    close(b[:k], b0[:k], 'off-diagonal', 1e-12)


def zero(d):
    for f in (lambda: lanczos.build_sl_tridiag(np.eye(d).dot, np.zeros(d)),):
        try:
            f()
        except lanczos.ZeroNormInitialVector:
            continue
        raise AssertionError('zero start vector accepted')


def ground(d, seed):
    """Larger matrices: the converged lowest Ritz value is the lowest eigenvalue."""
    x = np.cos(np.arange(d * d).reshape(d, d) ** 1.5 * (1.1 + .37 * seed))
    H = (x + x.T) / 2
    v0 = np.sin(np.arange(1., d + 1) * (seed + 1.3))
    a, b = lanczos.build_sl_tridiag(H.dot, v0.copy())
    w = np.linalg.eigvalsh(H)
    close(egs_tridiag(a, b[1:]), w[0], 'ground-state energy', 1e-7)
    e, X = lanczos.sl_solve(H.dot, a, b, v0.copy(), select=2)
    close(e[0], w[0], 'ground-state energy', 1e-7)
    # the recursion may run past its breakdown here, so only the direction is asserted
    x = X[:, 0] / np.linalg.norm(X[:, 0])
    close(H.dot(x), w[0] * x, 'ground state', 1e-4)


def tridiagonals(n, a0):
    for rest in itertools.product((-1., 0., .5), repeat=n - 1):
        for off in itertools.product((0., .3, -1.), repeat=n - 1):
            a, b = np.array((a0,) + rest), np.array(off)
            T = np.diag(a) + np.diag(b, 1) + np.diag(b, -1)
            w = np.linalg.eigvalsh(T)
            tag = 'a=%s b=%s' % (a, b)
            aa, bb = a.copy(), b.copy()
            e, U = eigh_tridiagonal(aa, bb)
            close(e, w, 'full, ' + tag, 1e-10)
            close(T.dot(U), U * e, 'full vectors, ' + tag, 1e-10)
            close(U.T.dot(U), np.eye(n), 'full orthonormality, ' + tag, 1e-10)
            close(eigh_tridiagonal(aa, bb, eigvals_only=True), w, 'full values, ' + tag, 1e-10)
            for lo in range(n):
                for hi in range(lo, n):
                    close(eigh_tridiagonal(aa, bb, 2, (lo, hi), True), w[lo:hi + 1], 'range values, ' + tag, 1e-10)
                    e, U = eigh_tridiagonal(aa, bb, 2, (lo, hi))
                    close(e, w[lo:hi + 1], 'range, ' + tag, 1e-10)
                    close(T.dot(U), U * e, 'range vectors, ' + tag, 1e-9)
                    close(U.T.dot(U), np.eye(hi - lo + 1), 'range orthonormality, ' + tag, 1e-9)
            if n > 1:
                close(egs_tridiag(aa, bb), w[0], 'ground, ' + tag, 1e-10)
                close(gs_tridiag(aa, bb)[0][0], w[0], 'ground pair, ' + tag, 1e-10)
            require(np.array_equal(aa, a) and np.array_equal(bb, b), 'input altered')


def band(d, L, seed):
    """Band variant: the leading block is that of the matrix; run to exhaustion it has the same spectrum."""
    x = np.cos(np.arange(d * d).reshape(d, d) ** 1.5 * (1.1 + .37 * seed))
    H = (x + x.T) / 2
    w = np.linalg.eigvalsh(H)
    unit = lambda i: np.eye(d)[i].copy()
    full = lanczos.build_bd_tridiag(H.dot, [unit(i) for i in range(L)], delta=1e-9, tol=0.)
    require(full.shape == (d, d), 'Krylov space of dimension %s', full.shape)
    close(np.linalg.eigvalsh(full), w, 'spectrum', 1e-6)
    close(full[:L, :L], H[:L, :L], 'leading block', 1e-10)
    for maxn in range(L + 1, d + L + 2):
        T = lanczos.build_bd_tridiag(H.dot, [unit(i) for i in range(L)], maxn=maxn, delta=1e-9, tol=0.)
        m = T.shape[0]
        require(m == min(d, maxn - L) or m == min(d, maxn - 1), 'limit %d: %d steps', maxn, m)
        m = min(m, d - L)      # later steps see the deflation
        close(T[:m, :m], full[:m, :m], 'truncated at %d' % maxn, 1e-9)
        close(T, T.T, 'symmetry at limit %d' % maxn, 1e-9)
        for i in range(T.shape[0]):
            for j in range(i + L + 1, T.shape[0]):
                require(abs(T[i, j]) < 1e-7, 'limit %d: element (%d,%d) outside the band: %g', maxn, i, j, T[i, j])
    # linearly dependent start vectors are deflated
    for rep in itertools.product(range(L), repeat=L):
        uniq = sorted(set(rep))
        if list(dict.fromkeys(rep)) != uniq:
            continue
        ref = lanczos.build_bd_tridiag(H.dot, [unit(i) for i in uniq], delta=1e-9, tol=0.)
        for maxn in (L + 2, d, d + 1, 300):
            T = lanczos.build_bd_tridiag(H.dot, [unit(i) for i in rep], maxn=maxn, delta=1e-9, tol=0.)
            k = min(T.shape[0], d - L)
            close(T[:k, :k], ref[:k, :k], 'starts %s limit %d' % (rep, maxn), 1e-8)
            close(T, T.T, 'symmetry, starts %s limit %d' % (rep, maxn), 1e-8)


def band_block(d, alphabet, first):
    """Several orthonormal start vectors in small matrices with invariant subspaces: the moments are kept, the
    result is symmetric, banded and lives in the Krylov space."""
    k = 0
    for M in matrices(d, alphabet, first):
        H = np.array(M, float)
        P = [np.eye(d)]
        for _ in range(2 * d):
            P.append(H.dot(P[-1]))
        for L in range(1, min(d, 3) + 1):
            for idx in itertools.permutations(range(d), L) if d < 4 else itertools.combinations(range(d), L):
                tag = 'matrix %s starts %s' % (M, idx)
                X = np.eye(d)[:, list(idx)]
                T = lanczos.build_bd_tridiag(H.dot, [X[:, i].copy() for i in range(L)], delta=1e-9, tol=0.)
                m = T.shape[0]
                dim = np.linalg.matrix_rank(np.hstack([p.dot(X) for p in P[:d]]), tol=1e-7)
                require(m == dim, '%s: %d steps in a Krylov space of dimension %d', tag, m, dim)
                close(T, T.T, '%s: symmetry' % tag, 1e-9)
                Q = np.eye(m)
                for e in range(2 * d):
                    close(Q[:L, :L], X.T.dot(P[e]).dot(X), '%s: moment %d' % (tag, e), 1e-7, 1e-7)
                    Q = T.dot(Q)
                k += 1
    return '%d runs' % k


def body(chk):
    for d in (1, 2):
        chk.run('band matrices d=%d' % d, band_block, d, (-1, 0, 1), ())
    for first in itertools.product((-1, 0, 1), repeat=2):
        chk.run('band matrices d=3 first %s' % (first,), band_block, 3, (-1, 0, 1), first)
    for first in itertools.product((0, 1), repeat=5):
        chk.run('band matrices d=4 first %s' % (first,), band_block, 4, (0, 1), first)
    for first in itertools.product((0, 1), repeat=5):
        chk.run('band matrices d=5 first %s' % (first,), band_block, 5, (0, 1), (0, 1, 0, 0, 1) + first)
    for d in (1, 2):
        chk.run('matrices d=%d' % d, block, d, (-1, 0, 1), ())
    for first in itertools.product((-1, 0, 1), repeat=2):
        chk.run('matrices d=3 first %s' % (first,), block, 3, (-1, 0, 1), first)
    for first in itertools.product((0, 1), repeat=5):
        if THOROUGH or first[0] == 0 or first[1] + first[2] == 2:
            chk.run('matrices d=4 first %s' % (first,), block, 4, (0, 1), first)
    if THOROUGH:
        for first in itertools.product((-1, 0, 1), repeat=4):
            chk.run('matrices d=4 signed first %s' % (first,), block, 4, (-1, 0, 1) if first[0] == 1 else (0, 1), first)
        for first in itertools.product((0, 1), repeat=5):
            chk.run('matrices d=5 first %s' % (first,), block, 5, (0, 1), first + (0, 1))
    for maxn in range(2, 12):
        chk.run('limit %d' % maxn, limits, maxn)
    for d in (1, 2, 5):
        chk.run('zero vector d=%d' % d, zero, d)
    for d in (2, 3, 5, 8, 12, 25, 60):
        for s in range(4):
            chk.run('ground d=%d matrix %d' % (d, s), ground, d, s)
    for n in (1, 2, 3, 4):
        for a0 in (-1., 0., .5):
            chk.run('tridiagonal n=%d a0=%g' % (n, a0), tridiagonals, n, a0)
    for d in (2, 3, 4, 5, 6, 8):
        for L in range(1, min(d, 3) + 1):
            for s in range(3):
                chk.run('band d=%d L=%d matrix %d' % (d, L, s), band, d, L, s)


main(body, 'C08', 'exploration',
     'all integer symmetric matrices of the stated alphabets with all listed start vectors; all cases are non-trivial',
     exhaustive=True)
