"""Green functions of retained eigenstates from resolvents of independently built sector matrices."""
import numpy as np

from . import ref


class Resolvents:
    """<k|c 1/(z -+ (H - E)) c+|k> with independently built sector matrices."""

    def __init__(self, H, V):
        Vd = V if isinstance(V, dict) else {'U': V}
        self.m = ref.Model(H, Vd.get('U'), Vd.get('Jx'), Vd.get('Jp'))
        self.n = self.m.n
        self.st, self.w = {}, {}

    def sector(self, q):
        if q not in self.w:
            self.st[q] = ref.sz_basis(self.n, *q)
            self.w[q] = np.linalg.eigh(self.m.matrix(self.st[q]))
        return self.st[q], self.w[q]

    def gf(self, espace, egs, beta, i, j, spin, z):
        n = self.n
        e, h, Z = np.zeros(z.shape, complex), np.zeros(z.shape, complex), 0.
        for q, s in espace.items():
            X, E = np.array(s.eigvecs), np.array(s.eigvals)
            w = np.exp(-beta * (E - egs))
            Z += w.sum()
            st, _ = self.sector(q)
            for kind, sgn, acc in (('+', 1, e), ('-', -1, h)):
                t = (q[0] + sgn, q[1]) if spin == 0 else (q[0], q[1] + sgn)
                if not all(0 <= a <= n for a in t):
                    continue
                st2, (ev, U) = self.sector(t)
                A = U.T.dot(ref.ladder(st2, st, i + spin * n, kind).dot(X))
                B = U.T.dot(ref.ladder(st2, st, j + spin * n, kind).dot(X))
                q2 = (A * B * w).ravel()
                D = sgn * (ev[:, None] - E[None, :]).ravel()
                acc += (q2[None] / (z[:, None] - D[None])).sum(1)
        return e / Z, h / Z
