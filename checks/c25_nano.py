"""C25: every site of the nanostructure is treated in its own place, however it is divided over processes."""
SHARDS = 8
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of partitions, representative choices, spin layouts and rank counts on the real code, all arrival orders of the simulated ranks; compared with explicit matrix inversion and an extended one-particle Hamiltonian'
NOTE = 'All ordered set partitions of up to 4 sites (all choices of representatives up to 3), with and without spin and overlap, 1-3 ranks with all arrival orders of two collectives; the self-consistency loop on 2-3 sites.'
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup(optimize=True)
from vlib import simmpi
simmpi.ensure()
import numpy as np
np.seterr(all='ignore')
from vlib import models, mpiprogs, ref
from edpyt import dmft, nano_dmft
MODULES = simmpi.Modules(['edpyt.nano_dmft', 'edpyt.integrate_gf', 'edpyt.observs'])

ZS = np.array([-1.1 + .2j, .15 + .4j, 1.9j])


def labelings(n):
    """All ordered partitions of n sites: every site gets the number of its group."""
    for k in range(1, n + 1):
        for lab in itertools.product(range(k), repeat=n):
            if set(lab) == set(range(k)):
                yield lab


def representatives(lab, every):
    groups = [[i for i, l in enumerate(lab) if l == g] for g in range(max(lab) + 1)]
    if every:
        yield from itertools.product(*groups)
    else:
        yield tuple(g[0] for g in groups)
        if any(len(g) > 1 for g in groups):
            yield tuple(g[-1] for g in groups)


def pars(k, spin):
    """One self-energy for every representative (and spin), all different."""
    one = lambda i, s: (.31 - .17 * i + .23 * s, .2 + .13 * i + .05 * s, -.4 + .37 * i - .21 * s)
    return [[one(i, s) for s in (0, 1)] if spin else one(i, 0) for i in range(k)]


def hyb(n, kind):
    if kind == 'none':
        return []
    if kind == 'ends':
        return [(.2, [.5] + [0.] * (n - 1)), (-.3, [0.] * (n - 1) + [.4])]
    return [(.45, [.3 + .1 * i for i in range(n)]), (-.6, [.2 * (-1) ** i for i in range(n)])]


def overlap(n, on):
    S = np.eye(n)
    if on:
        for i in range(n - 1):
            S[i, i + 1] = S[i + 1, i] = .1 + .03 * i
    return S


def expected(H, S, hy, neq, inv, P, mu, zs):
    """Explicit inversion, one frequency and spin at a time."""
    n = H.shape[0]
    P = np.array(P)
    spins = [None] if P.ndim == 2 else [0, 1]
    D = mpiprogs.hybrid_of(hy, n)
    G = np.zeros((len(neq), len(spins), len(zs)), complex)
    for s in range(len(spins)):
        for k, z in enumerate(zs):
            sig = []
            for i in range(n):
                c, r, e = P[inv[i]] if P.ndim == 2 else P[inv[i], s]
                sig.append(c + r / (z - e))
            g = np.linalg.inv((z + mu) * S - H - D(z) - np.diag(sig))
            G[:, s, k] = [g[i, i] for i in neq]
    sg = np.array([[[p[0] + p[1] / (z - p[2]) for z in zs] for p in ([q] if P.ndim == 2 else q)] for q in P])
    ed = np.array([H[i, i] for i in neq])
    W = 1 / G + sg
    Dl = zs + mu - ed[:, None, None] - W
    if P.ndim == 2:
        return G[:, 0], W[:, 0], Dl[:, 0]
    return G, W, Dl


def occupations(H, hy, inv, P, mu, beta):
    """Occupation of the site orbitals of the extended Hamiltonian whose extra levels carry self-energy and hybridisation."""
    n = H.shape[0]
    P = np.array(P)
    out = np.zeros(n)
    for s in (0, 1):
        levels = [(e, np.array(v, float)) for e, v in hy]
        X = H.copy()
        for i in range(n):
            c, r, e = P[inv[i]] if P.ndim == 2 else P[inv[i], s]
            X[i, i] += c
            v = np.zeros(n)
            v[i] = np.sqrt(r)
            levels.append((e, v))
        m = n + len(levels)
        M = np.zeros((m, m))
        M[:n, :n] = X - mu * np.eye(n)
        for k, (e, v) in enumerate(levels):
            # the self-energy depends on z, not on z+mu: extra levels are not shifted
            M[n + k, n + k] = e
            M[:n, n + k] = M[n + k, :n] = v
        w, U = np.linalg.eigh(M)
        f = np.array([ref.fermi(beta * x) for x in w])
        out += (U[:n] ** 2).dot(f)
    return out


def place(chk, H, S, hy, neq, inv, P, mu, ranks, occ):
    neq, inv = np.array(neq), np.array(inv)
    args = (H, S, hy, neq, inv, P, mu, ZS, occ)
    G, W, D = expected(H, S, hy, neq, inv, P, mu, ZS)
    n = H.shape[0]
    hy_ = mpiprogs.hybrid_of(hy, n)

    def one(res, sel):
        ed, g, w, d, g1 = res[:5]
        close(ed, H.diagonal()[neq][sel], 'levels', 0)
        close(g, G[sel], "local Green's function", 1e-9)
        close(w, W[sel], 'Weiss field', 1e-8)
        close(d, D[sel], 'hybridisation', 1e-8)
        close(np.reshape(g1, G[sel][..., 0].shape), G[sel][..., 0], "local Green's function at one frequency", 1e-9)
        for k, z in enumerate(ZS):
            gi = (z + mu) * S - H - hy_(z)
            close(res[5 + k], np.linalg.inv(gi), 'free function', 1e-9)
            close(res[5 + len(ZS) + k], gi, 'inverse free function', 1e-12)
        require(np.all(g.imag < 0) and np.all(d.imag < 1e-9), 'not causal')
        if occ:
            close(res[-1], occupations(H, hy, inv, P, mu + .2, 70.)[neq][inv], 'occupation of every site', 2e-3)
    if ranks == 0:
        one(mpiprogs.nano(None, *args), slice(None))
        return
    k = len(neq) // ranks
    n_, logs = 0, set()
    for res, log, trace in simmpi.explore(ranks, lambda comm: mpiprogs.nano(comm, *args), MODULES, 0 if occ else None if ranks < 3 else 2):
        n_ += 1
        logs.add(tuple(log))
        for r in range(ranks):
            require(res[r][0] == 'value', 'rank %d: %s', r, res[r])
            one(res[r][1], slice(r * k, (r + 1) * k))
        chk.count('transitions', len(trace))
        chk.count('states', len(log) + 1)
    require(len(logs) == 1, 'the sequence of collectives depends on the schedule')
    chk.count('traces', n_)
    return '%d schedules' % n_


# -- container ----------------------------------------------------------------
BATHS = [([-.8], [.5]), ([.3], [.4]), ([.1], [.6])]


def discrete(ek, vk, z):
    return sum(v * v / (z - e) for e, v in zip(ek, vk))


def impurity_gf(H, U, spin, z):
    V = np.zeros_like(H[..., :, :] if H.ndim == 2 else H[0])
    V[0, 0] = U
    sp = ref.Spectrum(ref.Model(H, V))
    sel = {q: [i for i, e in enumerate(E) if e - sp.egs < 1e-8] for q, E in sp.E.items()}
    sel = {q: v for q, v in sel.items() if v}
    e, h = sp.gf(0., 0, 0, spin, z, initial=sel)
    return e + h, sp, sel


def container(order, Us, mus, spin, symmetrize):
    """A list of impurities: every one gets its own bath, level and self-energy."""
    nm, beta = 10, 8.
    z = 1j * (2 * np.arange(nm) + 1) * np.pi / beta
    make = dmft.SpinGfimp if spin else dmft.Gfimp
    C = nano_dmft.Gfimp([make(2, nmats=nm, U=U, beta=beta) for U in Us])
    require(len(C) == len(Us) and [g for g in C] == [C[i] for i in range(len(C))], 'container protocol')
    C.reset_bath()
    if spin:
        delta = np.array([[discrete(*BATHS[o], z), discrete(*BATHS[(o + 1) % 3], z)] for o in order])
    else:
        delta = np.array([discrete(*BATHS[o], z) for o in order])
    C.fit(delta.copy())
    C.update(mus)
    if symmetrize:
        C.spin_symmetrize()
    m = np.broadcast_to(mus, len(Us))
    single = [make(2, nmats=nm, U=U, beta=beta) for U in Us]
    for g, d, u in zip(single, delta, m):
        g.reset_bath()
        g.fit(d.copy())
        g.update(u)
        if symmetrize:
            g.spin_symmetrize()
    for i, (g, h) in enumerate(zip(C, single)):
        close(g.H, h.H, 'Hamiltonian of impurity %d' % i, 1e-12)
        require(g.mu == m[i], 'level of impurity %d', i)
    C.solve()
    S = C.Sigma(ZS)
    require(S.shape == ((len(Us), 2, len(ZS)) if spin else (len(Us), len(ZS))), 'self-energy has shape %s', S.shape)
    mom = []
    for i, g in enumerate(C):
        tot = []
        for s in ((0, 1) if spin else (0,)):
            G, sp, sel = impurity_gf(g.H, Us[i], s, ZS)
            H = g.H[s] if spin else g.H
            want = ZS - H[0, 0] - H[0, 1] ** 2 / (ZS - H[1, 1]) - 1 / G
            close(S[i, s] if spin else S[i], want, 'self-energy of impurity %d spin %d' % (i, s), 1e-6)
        nu, nd = sp.occupation(0., initial=sel)
        mom.append(nu[0] - nd[0])
    close(C.get_local_moments(), mom, 'moments', 1e-7)
    if spin:
        for part, s in ((C.up, 0), (C.dw, 1)):
            require(len(part) == len(C), 'length of a spin part')
            close(part.Sigma(ZS), S[:, s], 'self-energy of spin %d' % s, 1e-9)
    return 'moments %s' % np.round(mom, 4)


# -- loop ---------------------------------------------------------------------
def loop(n, lab, spin, adj, iters):
    nm, beta = 6, 8.
    neq, inv = [lab.index(g) for g in range(max(lab) + 1)], list(lab)
    H, S, hy = models.hmat(n), np.eye(n), hyb(n, 'ends')
    L = nano_dmft.Gfloc(H, S, mpiprogs.hybrid_of(hy, n), np.array(neq), np.array(inv))
    make = dmft.SpinGfimp if spin else dmft.Gfimp
    Us = [1.3, 2.2, .7][:len(neq)]
    C = nano_dmft.Gfimp([make(2, nmats=nm, U=U, beta=beta) for U in Us])
    d = dmft.DMFT(C, L, occupancy_goal=np.full(n, .9), max_iter=iters, tol=1e-12, adjust_mu=adj)
    shape = (len(neq), 2) if spin else (len(neq),)
    zero = lambda z: np.zeros(shape + np.shape(np.atleast_1d(z)), complex)
    with contextlib.redirect_stdout(io.StringIO()):
        delta = d.initialize(1.3, zero, mu=.4)
    z = d.z
    for it in range(iters):
        mu0 = L.mu
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                new = d(delta.copy())
            except dmft.Converged:
                return 'converged'
        for i, g in enumerate(C):
            for s in ((0, 1) if spin else (0,)):
                Hs = g.H[s] if spin else g.H
                close(Hs[0, 0], -(mu0 - H[neq[i], neq[i]]), 'level of impurity %d' % i, 1e-12)
                part = g[s] if spin else g
                close([Hs[1, 1], Hs[0, 1]], part.Delta.x, 'bath of impurity %d' % i, 0)
        sg = np.array(C.Sigma(z))
        sg = sg if spin else sg[:, None]
        for s in range(sg.shape[1]):
            for k, zk in enumerate(z):
                M = np.linalg.inv((zk + L.mu) * S - H - mpiprogs.hybrid_of(hy, n)(zk) - np.diag([sg[inv[i], s, k] for i in range(n)]))
                for j, i in enumerate(neq):
                    want = zk + L.mu - H[i, i] - sg[j, s, k] - 1 / M[i, i]
                    got = new[j, s, k] if spin else new[j, k]
                    close(got, want, 'new hybridisation of site %d' % i, 1e-8)
        if adj:
            close(np.sum(L.integrate(L.mu)), .9 * n, 'total occupation', 1e-6)
        else:
            require(L.mu == mu0, 'chemical potential moved')
        delta = new


def body(chk):
    top = 4
    for n in range(1, top + 1):
        for lab in labelings(n):
            neqs = sorted(set(representatives(lab, n <= 3 or THOROUGH)))
            for neq in neqs:
                for spin in (False, True):
                    P = pars(len(neq), spin)
                    for kind, ov in (('none', False), ('full', True)) if n == 4 else itertools.product(('none', 'ends', 'full'), (False, True)):
                        for ranks in (0, 1, 2, 3):
                            if ranks and len(neq) % ranks:
                                continue
                            if ranks and n == 4 and not THOROUGH and (kind == 'none' or neq != neqs[0]):
                                continue
                            chk.run('sites %s representatives %s spin=%s hybridisation=%s overlap=%s ranks=%d' % (lab, neq, spin, kind, ov, ranks),
                                    place, chk, models.hmat(n), overlap(n, ov), hyb(n, kind), neq, lab, P, .35, ranks, False)
                    if neq == neqs[-1]:
                        for ranks in (0, 2):
                            if ranks and (len(neq) % ranks or n == 4):
                                continue
                            if n == 4 and (spin or not THOROUGH):
                                continue
                            chk.run('occupation of sites %s representatives %s spin=%s ranks=%d' % (lab, neq, spin, ranks),
                                    place, chk, models.hmat(n), np.eye(n), hyb(n, 'ends'), neq, lab, P, .35, ranks, True)
    for k in (1, 2, 3):
        for order in itertools.product(range(3), repeat=k):
            for mus in (.4, np.array([.2, .6, 1.1][:k])):
                for spin in (False, True):
                    for sym in ((False, True) if spin else (False,)):
                        if k == 3 and (len(set(order)) < 3 and not THOROUGH):
                            continue
                        chk.run('impurities %s mu=%s spin=%s %s' % (order, mus, spin, sym), container, order, [1.3, .8, 2.4][:k], mus, spin, sym)
    for n in (2, 3):
        for lab in labelings(n):
            for spin in (False, True):
                chk.run('loop %s spin=%s' % (lab, spin), loop, n, lab, spin, False, 2)
                if n == 2 and (THOROUGH or not spin and lab == (1, 0)):
                    chk.run('loop %s spin=%s adjusted' % (lab, spin), loop, n, lab, spin, True, 1)


main(body, 'C25', LEVEL, 'partitions x representatives x spin x hybridisation x overlap x ranks x arrival orders', exhaustive=True,
     assumptions=['ranks share no memory'])
