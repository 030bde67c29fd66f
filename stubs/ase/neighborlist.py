import numpy as np


class _List:
    def __init__(self, bonds, n):
        self.bonds, self.n = bonds, n

    def get_neighbors(self, a):
        """Like ase for a molecule: each pair once, at its lower index, and every atom at itself."""
        nn = [a] + [max(p) for p in sorted(map(sorted, self.bonds)) if min(p) == a]
        return np.array(nn, int), np.zeros((len(nn), 3))


def build_neighbor_list(atoms, *a, **k):
    return _List(atoms.bonds, len(atoms))
