"""Programs one rank runs: in the simulated communicator and under a real mpirun (conformance).

edpyt is imported inside the functions: every simulated rank has its own copy.
"""
import os
import pickle
import sys

import numpy as np


def transpose(comm, m, dtype, batches=1):
    from edpyt.vector_transpose import collect_dw, collect_up
    p, r = comm.Get_size(), comm.Get_rank()
    n = m * p
    A = np.arange(n * n).reshape(n, n)
    A = (A * (1 + 2j) if np.dtype(dtype).kind == 'c' else A).astype(dtype)
    out = []
    for k in range(batches):
        a = (A + k)[r * m:(r + 1) * m].copy()
        d = collect_dw(a, comm)
        out.append(np.array(d))
        u = collect_up(d, comm)
        out.append(np.array(u))
        d2 = collect_dw(u, comm)
        out.append(np.array(d2))
        c = (A + k)[:, r * m:(r + 1) * m].copy()
        out.append(np.array(collect_up(c, comm)))
    return out


_CACHE = {}


def _ops(H, V, q):
    """The operators are inputs here: built once and read by all ranks."""
    key = (H.tobytes(), H.shape, V.tobytes(), q)
    if key not in _CACHE:
        _CACHE.clear()
        _CACHE[key] = _build(H, V, q)
    return _CACHE[key]


def _build(H, V, q):
    from edpyt.build_mb_ham import build_mb_ham
    from edpyt.espace import build_empty_sector
    sct = build_empty_sector(H.shape[-1], *q)
    return build_mb_ham(H, V, sct), sct


def _local(v, comm):
    k = len(v) // comm.Get_size()
    return np.array(v[comm.Get_rank() * k:(comm.Get_rank() + 1) * k])


def distributed(comm, H, V, q):
    from edpyt.matvec_product import matvec_operator
    (dd, up, dw), sct = _ops(H, V, q)
    return matvec_operator(_local(np.asarray(dd), comm), up, dw, comm=comm)


def matvec(comm, H, V, q, vecs):
    mv = distributed(comm, H, V, q)
    out = []
    for v in vecs:
        x = _local(v, comm)
        keep = x.copy()
        y = mv(x)
        out.append((np.array(y), bool(x.shape == keep.shape and np.array_equal(x, keep))))
    return out


def lanczos(comm, H, V, q, v0, kw):
    from edpyt.lanczos import build_sl_tridiag
    mv = distributed(comm, H, V, q)
    a, b = build_sl_tridiag(mv, _local(v0, comm), comm=comm, **kw)
    return np.array(a), np.array(b)


def ritz(comm, H, V, q, v0, a, b, kw):
    from edpyt.lanczos import sl_solve
    mv = distributed(comm, H, V, q)
    r = sl_solve(mv, a.copy(), b.copy(), _local(v0, comm), comm=comm, **kw)
    return tuple(np.array(x) for x in r) if isinstance(r, tuple) else np.array(r)


def step(comm, H, V, q, v, l):
    from edpyt.lanczos import sl_step
    a, b, v1, w = sl_step(distributed(comm, H, V, q), comm=comm)(_local(v, comm), _local(l, comm))
    return float(a), float(b), np.array(v1), np.array(w)


def occupation(comm, n, q, X, coeffs, order):
    from edpyt.espace import build_empty_sector
    from edpyt.observs import get_evecs_occupation
    s = build_empty_sector(n, *q)
    k = len(X) // comm.Get_size()
    x = np.array(X[comm.Get_rank() * k:(comm.Get_rank() + 1) * k], order=order)
    nu, nd = get_evecs_occupation(x, s.states.up, s.states.dw, n, coeffs, comm=comm)
    return np.array(nu), np.array(nd)


def sigma_of(pars):
    """Self-energy of a list of sites (and spins) from (constant, residue, pole) triples."""
    p = np.asarray(pars, float)

    def S(z):
        z = np.atleast_1d(z)
        return p[..., 0, None] + p[..., 1, None] / (z - p[..., 2, None])
    return S


def hybrid_of(pars, n):
    """Matrix hybridisation sum_k v_k v_k^T / (z - e_k)."""
    def D(z):
        out = np.zeros((n, n), complex)
        for e, v in pars:
            out += np.outer(v, v) / (z - e)
        return out
    return D


def nano(comm, H, S, hyb, idx_neq, idx_inv, pars, mu, zs, occ):
    """Everything a rank can ask its local Green function; pars covers all representatives."""
    from edpyt.nano_dmft import Gfloc
    L = Gfloc(H, S, hybrid_of(hyb, H.shape[-1]), idx_neq, idx_inv, comm)
    p, r = (1, 0) if comm is None else (comm.Get_size(), comm.Get_rank())
    k = len(idx_neq) // p
    L.set_local(sigma_of(np.asarray(pars)[r * k:(r + 1) * k]))
    L.update(mu)
    out = [np.array(L.ed), np.array(L(zs)), np.array(L.Weiss(zs)), np.array(L.Delta(zs)), np.array(L(zs[0]))]
    out += [np.array(L.free(z)) for z in zs] + [np.array(L.free(z, inverse=True)) for z in zs]
    if occ:
        out.append(np.array(L.integrate(mu + .2)))
        assert L.mu == mu
    return out


def main():
    """mpirun -n p python -m vlib.mpiprogs in out."""
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vlib import env
    env.setup()
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    with open(sys.argv[1], 'rb') as f:
        jobs = pickle.load(f)
    out = []
    for name, args in jobs:
        out.append(globals()[name](comm, *args))
    with open('%s.%d' % (sys.argv[2], comm.rank), 'wb') as f:
        pickle.dump(out, f)


if __name__ == '__main__':
    main()
