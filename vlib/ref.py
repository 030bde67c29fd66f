"""Reference models in plain Python: second quantisation on bit strings, resolvents, rates.

Nothing here imports edpyt.  Mode numbering: spin-up site i is mode i, spin-down
site i is mode n+i; |s> = prod_{k in s, ascending} c+_k |0>.
"""
import itertools
import math

import numpy as np


def bits(s, n):
    return [(s >> i) & 1 for i in range(n)]


def popcount(s):
    return bin(s).count('1')


def destroy(s, k):
    """c_k|s> -> (sign, state) or None."""
    if not (s >> k) & 1:
        return None
    return (-1 if popcount(s & ((1 << k) - 1)) & 1 else 1), s ^ (1 << k)


def create(s, k):
    if (s >> k) & 1:
        return None
    return (-1 if popcount(s & ((1 << k) - 1)) & 1 else 1), s | (1 << k)


def word(s, ops):
    """Apply ops (rightmost first), each ('+',k) or ('-',k)."""
    sg = 1
    for kind, k in reversed(ops):
        r = (create if kind == '+' else destroy)(s, k)
        if r is None:
            return None
        sg *= r[0]
        s = r[1]
    return sg, s


def basis(n, p):
    """All n-bit numbers with p bits, ascending."""
    return [s for s in range(1 << n) if popcount(s) == p]


def sz_basis(n, nup, ndw):
    """Full-Fock labels in the documented order i = iup + dup*idw."""
    return [u | (d << n) for d in basis(n, ndw) for u in basis(n, nup)]


class Model:
    """H, V, Jx, Jp, mu, z, hfmode -> matrix elements of the second-quantised Hamiltonian."""

    def __init__(self, H, V, Jx=None, Jp=None, mu=0., z=None, hfmode=False, hopping=True):
        H = np.asarray(H, float)
        self.n = n = H.shape[-1]
        self.H = (H if H.ndim == 3 else np.array([H, H])).tolist()
        self.V = np.zeros((n, n)).tolist() if V is None else np.asarray(V, float).tolist()
        self.Jx = None if Jx is None else np.asarray(Jx, float).tolist()
        self.Jp = None if Jp is None else np.asarray(Jp, float).tolist()
        self.mu = mu
        self.z = ([1.] * n if hfmode else [0.] * n) if z is None else [float(x) for x in z]
        self.hf = hfmode
        self.hopping = hopping
        terms = []          # (coefficient, word)
        for i, j in itertools.permutations(range(n), 2):
            if hopping:
                for s in (0, 1):
                    if self.H[s][i][j]:
                        terms.append((self.H[s][i][j], [('+', i + s * n), ('-', j + s * n)]))
            if self.Jx is not None and self.Jx[i][j]:
                for s in (0, 1):
                    for t in (0, 1):
                        terms.append((.5 * self.Jx[i][j], [('+', i + s * n), ('+', j + t * n),
                                                           ('-', i + t * n), ('-', j + s * n)]))
            if self.Jp is not None and self.Jp[i][j]:
                for s in (0, 1):
                    terms.append((.5 * self.Jp[i][j], [('+', i + s * n), ('+', i + (1 - s) * n),
                                                       ('-', j + (1 - s) * n), ('-', j + s * n)]))
        self.terms = terms

    def diag(self, s):
        n = self.n
        nu = [(s >> i) & 1 for i in range(n)]
        nd = [(s >> (i + n)) & 1 for i in range(n)]
        e = 0.
        for i in range(n):
            e += (self.H[0][i][i] + self.mu) * nu[i] + (self.H[1][i][i] + self.mu) * nd[i]
            if self.hf:
                e += self.V[i][i] * (nu[i] - .5) * (nd[i] - .5)
            else:
                e += self.V[i][i] * nu[i] * nd[i]
            for j in range(n):
                if i != j:
                    e += .5 * self.V[i][j] * (nu[i] + nd[i] - self.z[i]) * (nu[j] + nd[j] - self.z[j])
        return e

    def matrix(self, states):
        ix = {s: k for k, s in enumerate(states)}
        M = [[0.] * len(states) for _ in states]
        for k, s in enumerate(states):
            M[k][k] += self.diag(s)
            for c, w in self.terms:
                r = word(s, w)
                if r is not None:
                    M[ix[r[1]]][k] += c * r[0]
        return np.array(M, float).reshape(len(states), len(states))

    def sz(self, nup, ndw):
        return self.matrix(sz_basis(self.n, nup, ndw))


def ladder(states_to, states_from, k, kind):
    """<to| c(+)_k |from> in the reference mode order."""
    ix = {s: i for i, s in enumerate(states_to)}
    M = np.zeros((len(states_to), len(states_from)))
    for j, s in enumerate(states_from):
        r = (create if kind == '+' else destroy)(s, k)
        if r is not None and r[1] in ix:
            M[ix[r[1]], j] = r[0]
    return M


class Spectrum:
    """All sectors of a Model diagonalised by the reference."""

    def __init__(self, model, sectors=None):
        self.m = model
        n = self.n = model.n
        self.states, self.E, self.U = {}, {}, {}
        for q in (sectors or itertools.product(range(n + 1), repeat=2)):
            self.states[q] = sz_basis(n, *q)
            self.E[q], self.U[q] = np.linalg.eigh(model.sz(*q))
        self.egs = min(e[0] for e in self.E.values())

    def boltzmann(self, beta, keep=None):
        return {q: np.exp(-beta * (e - self.egs)) for q, e in self.E.items()}

    def gf(self, beta, i, j, spin, z, initial=None):
        """G_ij(z) = 1/Z sum_a,b e^{-beta Ea} [<a|c_i|b><b|c+_j|a>/(z-(Eb-Ea)) + <a|c+_j|b><b|c_i|a>/(z-(Ea-Eb))]

        initial: {sector: indices} restricts the thermal sum (and Z) to those eigenstates.
        Returns (electron part, hole part).
        """
        n = self.n
        z = np.asarray(z)
        Z = 0.
        e_part = np.zeros(z.shape, complex)
        h_part = np.zeros(z.shape, complex)
        for q, E in self.E.items():
            sel = range(len(E)) if initial is None else initial.get(q, ())
            sel = list(sel)
            if not sel:
                continue
            w = np.exp(-beta * (E[sel] - self.egs))
            Z += w.sum()
            Ua = self.U[q][:, sel]
            up = (q[0] + 1, q[1]) if spin == 0 else (q[0], q[1] + 1)
            dn = (q[0] - 1, q[1]) if spin == 0 else (q[0], q[1] - 1)
            if up in self.E:
                Ci = self.U[up].T.dot(ladder(self.states[up], self.states[q], i + spin * n, '+')).dot(Ua)
                Cj = self.U[up].T.dot(ladder(self.states[up], self.states[q], j + spin * n, '+')).dot(Ua)
                X = (Ci * Cj) * w[None, :]
                D = self.E[up][:, None] - E[sel][None, :]
                e_part += (X[None] / (z.reshape(-1, 1, 1) - D[None])).sum((1, 2)).reshape(z.shape)
            if dn in self.E:
                Ci = self.U[dn].T.dot(ladder(self.states[dn], self.states[q], i + spin * n, '-')).dot(Ua)
                Cj = self.U[dn].T.dot(ladder(self.states[dn], self.states[q], j + spin * n, '-')).dot(Ua)
                X = (Ci * Cj) * w[None, :]
                D = E[sel][None, :] - self.E[dn][:, None]
                h_part += (X[None] / (z.reshape(-1, 1, 1) - D[None])).sum((1, 2)).reshape(z.shape)
        return e_part / Z, h_part / Z

    def occupation(self, beta, initial=None):
        n = self.n
        Z = 0.
        nu, nd = np.zeros(n), np.zeros(n)
        for q, E in self.E.items():
            sel = list(range(len(E)) if initial is None else initial.get(q, ()))
            if not sel:
                continue
            w = np.exp(-beta * (E[sel] - self.egs))
            Z += w.sum()
            p = (self.U[q][:, sel] ** 2).dot(w)
            for k, s in enumerate(self.states[q]):
                for i in range(n):
                    nu[i] += p[k] * ((s >> i) & 1)
                    nd[i] += p[k] * ((s >> (i + n)) & 1)
        return nu / Z, nd / Z


def fermi(x):
    if x > 700:
        return 0.
    return 1. / (1. + math.exp(x))
