"""C05: sparse kernels and the assembled Hamiltonian product against dense linear algebra."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of sparsity patterns and operator combinations on the compiled kernels, compared with dense products'
NOTE = 'All 0/1 patterns up to 3x3 with distinct values and every number of identity copies up to 3, explicit zeros, unsorted and repeated entries; linearity in the vector is used (unit vectors plus one full vector).'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from scipy.sparse import csr_matrix
from vlib import models
from edpyt import _psparse, espace
from edpyt.build_mb_ham import build_mb_ham
from edpyt.matvec_product import matvec_operator, todense


def csr(A, mode='plain'):
    """A dense list of rows as CSR; `mode` varies the representation, not the matrix."""
    m, n = A.shape
    data, ind, ptr = [], [], [0]
    for i in range(m):
        row = [(j, A[i, j]) for j in range(n) if A[i, j]]
        if mode == 'reversed':
            row = row[::-1]
        elif mode == 'zeros':
            row = [(j, A[i, j]) for j in range(n)]
        elif mode == 'repeated':
            row = [(j, v * f) for j, v in row for f in (.25, .75)]
        ind += [j for j, v in row]
        data += [v for j, v in row]
        ptr.append(len(ind))
    return csr_matrix((np.array(data, float), np.array(ind, np.int32), np.array(ptr, np.int32)), shape=(m, n))


def values(m, n, pat):
    A = np.zeros((m, n))
    for k in range(m * n):
        if (pat >> k) & 1:
            A.flat[k] = (k + 1.5) * (-1) ** k / 4.
    return A


def vectors(d):
    for k in range(d):
        e = np.zeros(d)
        e[k] = 1.
        yield e
    yield np.arange(1., d + 1) ** 2 / 7.


def kernel(fn, A, S, copies, dense, insize, outsize):
    for x in vectors(insize):
        y0 = np.linspace(-1., 2., outsize)
        y, x0 = y0.copy(), x.copy()
        keep = [S.data.copy(), S.indices.copy(), S.indptr.copy()]
        fn(S, x, y)
        close(y, y0 + dense.dot(x), '%s with %d copies of\n%s' % (fn.__name__, copies, A), 1e-12)
        require(np.array_equal(x, x0), 'input vector altered')
        require(all(np.array_equal(a, b) for a, b in zip(keep, (S.data, S.indices, S.indptr))), 'matrix altered')


def square(m, lo, hi, modes):
    for pat in range(lo, hi):
        A = values(m, m, pat)
        for mode in modes:
            S = csr(A, mode)
            for k in (1, 2, 3):
                kernel(_psparse.UPmultiply, A, S, k, np.kron(np.eye(k), A), m * k, m * k)
                kernel(_psparse.DWmultiply, A, S, k, np.kron(A, np.eye(k)), m * k, m * k)
            kernel(_psparse.Multiply, A, S, 1, A, m, m)
    return '%d patterns' % (hi - lo)


def rectangular(m, n, lo, hi):
    for pat in range(lo, hi):
        A = values(m, n, pat)
        kernel(_psparse.Multiply, A, csr(A), 1, A, n, m)


def csc(m):
    """The kernels read CSR only: anything else is refused, not misread."""
    A = values(m, m, (1 << (m * m)) - 2)
    for fn in (_psparse.UPmultiply, _psparse.DWmultiply, _psparse.Multiply):
        y = np.zeros(m)
        try:
            fn(csr(A).tocsc(), np.ones(m), y)
        except NotImplementedError:
            require(not y.any())
        else:
            raise AssertionError('%s accepted csc' % fn.__name__)


def large(m, k, seedpat):
    """Bigger blocks so that each thread gets several rows."""
    A = np.zeros((m, m))
    x = seedpat
    for i in range(m):
        for j in range(m):
            x = (x * 1103515245 + 12345) & 0x7fffffff
            if x % 5 == 0:
                A[i, j] = (x >> 8) % 97 / 13. - 3
    S = csr(A)
    v = np.cos(np.arange(m * k) * 1.7)
    for fn, D in ((_psparse.UPmultiply, lambda x: x.reshape(k, m).dot(A.T).ravel()),
                  (_psparse.DWmultiply, lambda x: A.dot(x.reshape(m, k)).ravel())):
        y = np.ones(m * k)
        fn(S, v, y)
        close(y, 1. + D(v), fn.__name__, 1e-10)
    y = np.ones(m)
    _psparse.Multiply(S, v[:m].copy(), y)
    close(y, 1. + A.dot(v[:m]), 'Multiply', 1e-10)


def product(n, q, flags):
    hop, spin, x, p = flags
    H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
    V = {'U': models.umat(n)}
    if x:
        V['Jx'] = models.jx(n)
    if p:
        V['Jp'] = models.jp(n)
    sct = espace.build_empty_sector(n, *q)
    ops = build_mb_ham(H, V, sct)
    D = np.asarray(todense(*ops))
    D2 = np.asarray(todense(*ops))
    require(np.array_equal(D, D2), 'dense form differs when asked for twice')
    mv = matvec_operator(*ops)
    for v in vectors(sct.d):
        v0 = v.copy()
        r = np.asarray(mv(v))
        require(np.array_equal(v, v0), 'input vector altered')
        require(r is not v and not np.shares_memory(r, v), 'result shares memory with the input')
        close(r, D.dot(v), 'product', 1e-11)
        out = np.full(sct.d, 7.5)
        got = mv(v, out)
        close(out, D.dot(v), 'product into a supplied vector', 1e-11)
        close(np.asarray(got), out, 'returned vector', 0)
        out = np.zeros(sct.d)
        mv(v, res=out)
        close(out, D.dot(v), 'product into a supplied zero vector', 1e-11)
        close(np.asarray(mv(v)), r, 'second call', 0, 0)


def body(chk):
    for m in (1, 2, 3):
        tot = 1 << (m * m)
        modes = ('plain', 'reversed', 'zeros', 'repeated') if THOROUGH or m < 3 else ('plain', 'reversed')
        for lo in range(0, tot, 32):
            chk.run('square m=%d patterns %d..%d' % (m, lo, min(lo + 32, tot) - 1), square, m, lo, min(lo + 32, tot), modes)
        chk.run('csc m=%d' % m, csc, m)
    if THOROUGH:
        for lo in range(0, 1 << 16, 256):
            chk.run('square m=4 patterns %d..%d' % (lo, lo + 255), square, 4, lo, lo + 256, ('plain',))
    for m, n in itertools.product(range(1, 5), range(1, 4)):
        if m != n and m * n <= (12 if THOROUGH else 8):
            tot = 1 << (m * n)
            for lo in range(0, tot, 128):
                chk.run('rectangular %dx%d patterns %d..' % (m, n, lo), rectangular, m, n, lo, min(lo + 128, tot))
    for m, k in itertools.product((5, 16, 40), (1, 3, 33)):
        for s in range(4):
            chk.run('large m=%d copies=%d pattern %d' % (m, k, s), large, m, k, s * 7919 + 1)
    for n in (1, 2, 3):
        qs = [(N,) for N in range(2 * n + 1)] + list(itertools.product(range(n + 1), repeat=2))
        for q in qs:
            for flags in itertools.product((0, 1), repeat=4):
                if n == 1 and (flags[2] or flags[3]):
                    continue
                chk.run('product n=%d sector %s hop%d spin%d x%d p%d' % ((n, q) + flags), product, n, q, flags)


main(body, 'C05', 'exploration',
     'all sparsity patterns of square matrices up to 3x3 (thorough 4x4) and rectangular ones up to 8 (12) entries, in several '
     'representations of the same matrix; all sectors and coupling combinations up to 3 levels; all cases are non-trivial',
     exhaustive=True)
