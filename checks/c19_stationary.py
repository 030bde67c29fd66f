"""C19: stationary distributions of all small rate generators against the exact rational null vector."""
SHARDS = 4
TECHNIQUE = 'exhaustive enumeration of the rate graphs on up to 4 states (thorough: 5) over small alphabets of rates, all numberings and time units, compared with the rational stationary vector from the matrix-tree theorem'
NOTE = 'Graphs with several recurrent classes have no unique stationary vector and are skipped. Generators whose slowest mode is below 5e-12 of the fastest one are skipped: double precision does not separate their null space.'
import itertools
import os
import sys
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from edpyt.rates import stationary_solution


def recurrent_roots(n, R):
    """States reachable from every state."""
    reach = [[i == j or R[i][j] != 0 for i in range(n)] for j in range(n)]   # reach[from][to]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                reach[i][j] = reach[i][j] or reach[i][k] and reach[k][j]
    return [r for r in range(n) if all(reach[j][r] for j in range(n))]


def det(M):
    M = [r[:] for r in M]
    d = Fraction(1)
    for c in range(len(M)):
        p = next((r for r in range(c, len(M)) if M[r][c] != 0), None)
        if p is None:
            return Fraction(0)
        if p != c:
            M[c], M[p], d = M[p], M[c], -d
        d *= M[c][c]
        for r in range(c + 1, len(M)):
            f = M[r][c] / M[c][c]
            if f:
                M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return d


def exact(n, R):
    """p_i ~ principal minor of -W without row and column i."""
    W = [[Fraction(R[i][j]) for j in range(n)] for i in range(n)]
    for j in range(n):
        W[j][j] = -sum(W[i][j] for i in range(n) if i != j)
    p = [det([[-W[a][b] for b in range(n) if b != i] for a in range(n) if a != i]) for i in range(n)]
    return [float(x / sum(p)) for x in p]


def graph(n, rates, deep):
    R = [[0] * n for _ in range(n)]
    it = iter(rates)
    for i in range(n):
        for j in range(n):
            if i != j:
                R[i][j] = next(it)
    if not recurrent_roots(n, R):
        return 0
    want = np.array(exact(n, R))
    R = np.array(R, float)
    W = R - np.diag(R.sum(0))
    units = (1., 1e-13, 1e-5, 1e9) if deep else (1., 1e-13)
    perms = list(itertools.permutations(range(n))) if deep else [tuple(range(n)), tuple(range(n))[::-1]]
    for s in units:
        for p in perms:
            G = (W * s)[np.ix_(p, p)]
            keep = G.copy()
            x = stationary_solution(G)
            tag = 'rates %s unit %g order %s' % (R.tolist(), s, p)
            require(np.array_equal(G, keep), '%s: generator altered', tag)
            require(np.isrealobj(x), '%s: complex result', tag)
            close(x, want[list(p)], tag, 1e-9)
            close(x.sum(), 1., tag + ' sum', 1e-12)
            require(np.all(x > -1e-10), '%s: negative probability %s', tag, x.tolist())
            close(G.dot(x) / s, np.zeros(n), tag + ' residual', 1e-9)
    return 1


def stiff(n, todo, d):
    """Slow rates d beside fast ones; what double precision leaves of the null vector is set by the slowest mode."""
    k = 0
    for rates in todo:
        R = [[0] * n for _ in range(n)]
        for (i, j), r in zip(((i, j) for i in range(n) for j in range(n) if i != j), rates):
            R[i][j] = r
        if not recurrent_roots(n, R):
            continue
        want = np.array(exact(n, R))
        W = np.array(R, float)
        W -= np.diag(W.sum(0))
        w = np.sort(np.abs(np.linalg.eigvals(W)))
        tol = max(1e-9, 1e-13 * w[-1] / w[1])
        if tol > .02:
            continue
        x = stationary_solution(W.copy())
        close(x, want, 'rates %s' % np.array(R, float).tolist(), tol)
        require(np.all(x > -tol), 'negative probability %s', x.tolist())
        k += 1
    return '%d stiff generators' % k


def block(n, todo, deep):
    return '%d ergodic generators' % sum(graph(n, r, deep) for r in todo)


def split(it, k):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, k))
        if not b:
            return
        yield b


def body(chk):
    F = Fraction
    jobs = [(1, [()], True, 1), (2, itertools.product((0, 1, 2, F(1, 1000), 7), repeat=2), True, 1),
            (3, itertools.product((0, 1, 3, F(1, 100)), repeat=6), False, 1),
            (3, itertools.product((0, 2), repeat=6), True, 1),
            (4, itertools.product((0, 1), repeat=12), False, 1)]
    W4 = (1, 3, 2, 5, 7, F(1, 3), 11, 4, F(1, 20), 6, 9, 8)
    jobs.append((4, ([w * b for w, b in zip(W4, m)] for m in itertools.product((0, 1), repeat=12)), False, 1))
    jobs.append((4, ([w * b for w, b in zip(W4, m)] for m in itertools.product((0, 1), repeat=12) if sum(m) in (4, 5)), THOROUGH, 1))
    for d in (F(1, 10 ** 4), F(1, 10 ** 6), F(1, 10 ** 8), F(1, 10 ** 10), F(1, 10 ** 11)):
        for b, part in enumerate(split(itertools.product((0, 1, d), repeat=6), 128)):
            chk.run('stiff %g block %d' % (d, b), stiff, 3, part, d)
        part = [(m[0], 3 * m[0], 2, m[1], 0, m[2] * 5, m[3], 7 * m[4], 1, m[5], 0, 4) for m in itertools.product((1, d), repeat=6)]
        chk.run('stiff %g n=4' % d, stiff, 4, part, d)
    if THOROUGH:
        jobs.append((3, itertools.product((0, 1, 3, F(1, 100), 40), repeat=6), False, 1))
        # two choices for the target of every state plus a ring in either direction
        for ring in (1, -1):
            jobs.append((5, (tuple((3 if (j + ring) % 5 == i else 0) + (k if (j, i) in zip(range(5), t) else 0)
                                   for i in range(5) for j in range(5) if i != j)
                             for t in itertools.product(range(5), repeat=5) for k in (1, 50)), False, 1))
            jobs.append((5, (tuple((1 if t[j] == i else 0) for i in range(5) for j in range(5) if i != j)
                             for t in itertools.product(range(5), repeat=5)), False, 1))
    for a, (n, todo, deep, _) in enumerate(jobs):
        for b, part in enumerate(split(todo, 64)):
            chk.run('family %d n=%d block %d' % (a, n, b), block, n, part, deep)


main(body, 'C19', 'exploration', 'rate graphs x rates x numberings x units', exhaustive=True)
