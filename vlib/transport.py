"""Rate models of a dot between two leads, from the eigenstates of a solved system and nothing else of edpyt.

States are named as edpyt names them: (n_up, n_dw, k) or (N, k).
"""
import itertools

import numpy as np

from . import ref


def fermi(x):
    return np.where(x > 0, np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))), 1 / (1 + np.exp(-np.abs(x))))


def basis(n, q):
    return ref.sz_basis(n, *q) if len(q) == 2 else ref.basis(2 * n, q[0])


def shift(q, spin, d):
    if len(q) == 1:
        return (q[0] + d,)
    return (q[0] + d, q[1]) if spin == 0 else (q[0], q[1] + d)


def valid(n, q):
    return all(0 <= a <= n for a in q) if len(q) == 2 else 0 <= q[0] <= 2 * n


class Dot:
    def __init__(self, n, espace):
        self.n, self.es = n, espace
        self.cache = {}
        self.st = {}

    def E(self, q):
        return np.array(self.es[q].eigvals)

    def elements(self, qf, qi, spin, kind):
        """<f| c(+)_{j,spin} |i> as an array [f, i, j]."""
        key = qf, qi, spin, kind
        if key not in self.cache:
            n = self.n
            for q in (qf, qi):
                if q not in self.st:
                    self.st[q] = basis(n, q)
            X, Y = np.array(self.es[qi].eigvecs), np.array(self.es[qf].eigvecs)
            self.cache[key] = np.array([Y.T.dot(ref.ladder(self.st[qf], self.st[qi], j + spin * n, kind).dot(X))
                                        for j in range(n)]).transpose(1, 2, 0)
        return self.cache[key]

    def number(self, q):
        return sum(q)

    # -- one particle ------------------------------------------------------
    def sequential(self, pairs, ids, beta, mu, A):
        """pairs: (sector to, sector from).  -> rates [lead, to, from] over the sorted states ids."""
        off, q0 = {}, None
        for k, x in enumerate(ids):
            off.setdefault(x[:-1], k)
        R = np.zeros((2, len(ids), len(ids)))
        for qf, qi in pairs:
            d = self.number(qf) - self.number(qi)
            if abs(d) != 1:
                continue
            dE = d * (self.E(qf)[:, None] - self.E(qi)[None, :])
            g = np.zeros((2,) + dE.shape)
            for spin in (0, 1):
                if len(qf) == 2 and shift(qi, spin, d) != qf:
                    continue
                v = self.elements(qf, qi, spin, '+' if d > 0 else '-')
                for lead in (0, 1):
                    g[lead] += v.dot(np.asarray(A[lead], float)) ** 2 * fermi(d * beta * (dE - mu[lead]))
            f, i = off[qf], off[qi]
            R[:, f:f + dE.shape[0], i:i + dE.shape[1]] = g
        return R

    # -- two particles -----------------------------------------------------
    def paths(self, qf, f, qi, i, sf, si):
        """Transfer of one particle: enters with spin si, leaves with spin sf.

        -> list of (order, v_leave[j], v_enter[j], pole) ; amplitude sum_k v.v/(z - pole), z the energy
        of the particle in the lead it ends in.
        """
        n = self.n
        Ef, Ei = self.E(qf)[f], self.E(qi)[i]
        res = []
        m = shift(qi, si, 1)                       # enters first
        if valid(n, m) and shift(m, sf, -1) == qf:
            a, b = self.elements(qf, m, sf, '-')[f], self.elements(m, qi, si, '+')[:, i]
            res += [('e', a[k], b[k], e - Ef) for k, e in enumerate(self.E(m))]
        m = shift(qi, sf, -1)                      # leaves first
        if valid(n, m) and shift(m, si, 1) == qf:
            a, b = self.elements(m, qi, sf, '-')[:, i], self.elements(qf, m, si, '+')[f]
            res += [('h', a[k], b[k], Ei - e) for k, e in enumerate(self.E(m))]
        return res


def generator(R):
    """Rates [to, from] -> matrix with columns summing to zero."""
    R = R - np.diag(np.diag(R))
    return R - np.diag(R.sum(0))


class Transfer:
    """Amplitude sum_k Y_k/(z - P_k) of one spin channel, for given lead couplings."""

    def __init__(self, paths, dE):
        self.dE = dE
        self.poles = np.array([p[3] for p in paths])
        # keep at least one path so that the channel itself is listed
        paths = [p for p in paths if np.abs(p[1]).max() * np.abs(p[2]).max() > 1e-13] or paths[:1]
        self.P = np.array([p for _, _, _, p in paths])
        self.leave = np.array([a for _, a, _, _ in paths])
        self.enter = np.array([b for _, _, b, _ in paths])

    def Y(self, A, extract, inject):
        # the particle comes out of lead `extract`, enters the dot, leaves it for lead `inject`
        return self.leave.dot(A[inject]) * self.enter.dot(A[extract])

    def amplitude(self, z, A, extract, inject):
        return (self.Y(A, extract, inject)[None] / (np.asarray(z)[:, None] - self.P[None])).sum(1)

    def rate(self, A, extract, inject, beta, mu):
        """Re int amp(z)^2 f(z + dE - mu_extract) (1 - f(z - mu_inject)) dz along Im z = pi/(2 beta).

        Fermi functions have no pole in that strip, so this is the principal value (and its derivative at
        double poles).  Returns (value, scale of the cancelling terms).
        """
        if not np.any(self.Y(A, extract, inject)):
            return 0., 0.
        a, b = mu[extract] - self.dE, mu[inject]
        eta = np.pi / (2 * beta)
        h = eta / 5
        x = np.arange(min(a, b) - 42 / beta, max(a, b) + 42 / beta, h)
        z = x + 1j * eta
        g = 1 / (1 + np.exp(beta * (z - a))) / (1 + np.exp(-beta * (z - b)))
        Y = self.Y(A, extract, inject)
        t = Y[None] / (z[:, None] - self.P[None])
        return (g * t.sum(1) ** 2).sum().real * h, (np.abs(g) * np.abs(t).sum(1) ** 2).sum() * h

    def centre(self, A, extract, inject, beta, mu):
        """Amplitude in the middle of the bias window times the thermal factor; (value, scale, distance to a pole)."""
        x = self.dE - mu[extract] + mu[inject]
        y = beta * x
        G = 1 / beta if y == 0 else 0. if y > 700 else x / np.expm1(y)
        z = .5 * (mu[extract] + mu[inject] - self.dE)
        d = np.abs(z - self.P)
        near = np.abs(z - self.poles).min()
        v = G * self.amplitude(np.array([z]), A, extract, inject)[0] ** 2
        return v, G * (np.abs(self.Y(A, extract, inject)) / d).sum() ** 2 * (1 + 1e-3 / d.min()), near
