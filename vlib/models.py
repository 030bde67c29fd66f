"""Finite alphabets of models shared by the checks (plain numpy, nothing from edpyt)."""
import itertools

import numpy as np

# distinct, incommensurate numbers so that any permutation of couplings shows
_E = [[-.31, .17, .53, -.72], [-.47, .29, .11, .61]]
_T = [[.37, -.23, .19, .41, -.13, .29], [.31, .43, -.17, .59, .23, -.37]]
_U = [1.3, .9, 2.1, .7]
_W = [.21, -.15, .33, .27, .12, -.19]
_X = [.25, -.35, .15, .45, -.05, .55]
_P = [.18, .28, -.38, .08, .48, -.58]


def sym(n, vals):
    A = np.zeros((n, n))
    for (i, j), v in zip(itertools.combinations(range(n), 2), vals):
        A[i, j] = A[j, i] = v
    return A


def hmat(n, spin=0, hop=True):
    return np.diag(_E[spin][:n]) + (sym(n, _T[spin]) if hop else 0.)


def hspin(n, hop=True):
    return np.array([hmat(n, 0, hop), hmat(n, 1, hop)])


def umat(n, inter=True):
    return np.diag(_U[:n]) + (sym(n, _W) if inter else 0.)


def jx(n):
    return sym(n, _X)


def jp(n):
    return sym(n, _P)


def chain(n, t=-1., e=0.):
    H = np.zeros((n, n))
    for i in range(n - 1):
        H[i, i + 1] = H[i + 1, i] = t
    H.flat[::n + 1] = e
    return H
