"""C16: golden-rule rates between many-body states, both sector schemes."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of models x ground-state sectors x lead couplings x potentials x temperatures; every transition between states compared with a rate model built from second quantisation'
NOTE = 'All coupling kinds up to 2 levels and selected ones at 3 (thorough: all at 3). A level shift moves the ground state through every sector, so that every set of active sectors occurs.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
np.seterr(all='ignore')
from vlib import models
from vlib.transport import Dot, generator, valid
from edpyt import sqtunneling, sqtnl
from edpyt.espace import build_espace
from edpyt.rates import stationary_solution

COUPL = {1: [[[1.], [1.]], [[.7], [-.4]], [[0.], [.5]]],
         2: [[[1., 1.], [1., 1.]], [[.7, -.4], [.3, .9]], [[0., .8], [-.5, 0.]]],
         3: [[[1., 1., 1.]] * 2, [[.7, -.4, .2], [.3, .9, -.6]], [[0., 0., .8], [-.5, 0., 0.]]],
         4: [[[1.] * 4] * 2, [[.7, -.4, .2, .5], [.3, .9, -.6, .1]]]}
BIAS = [(0., 0.), (.3, -.2), (-1.5, 2.5), (.4, .4)]
BETAS = [.5, 7., 150.]


def check_matrix(W, want, ids, dot, beta, mu, A, tag):
    close(W, generator(want.sum(0)), tag + ' rates', 1e-12, 1e-8)
    require(np.all(W - np.diag(np.diag(W)) >= 0), '%s: negative rate', tag)
    close(W.sum(0), np.zeros(len(ids)), tag + ' column sums', 1e-9)
    if mu[0] == mu[1] and beta < 100:
        E = np.array([dot.E(k[:-1])[k[-1]] - mu[0] * sum(k[:-1]) for k in ids])
        p = np.exp(-beta * (E - E.min()))
        F = W * p[None, :]
        close(F, F.T, tag + ' detailed balance', 1e-12, 1e-7)


def snapshot(d):
    return sorted((repr(k), repr(vars(g)) if not isinstance(g, list) else repr([vars(x) for x in g])) for k, g in d.items())


def sz(n, H, V):
    es, egs = build_espace(H, V)
    dot = Dot(n, es)
    gs = [q for q in es if es[q].eigvals.min() - egs < 1e-9]
    near = [(q[0] + a, q[1] + b) for q in gs for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1))]
    active = sorted({q for q in near + gs if valid(n, q)})
    pairs = [(f, i) for f in active for i in active if abs(f[0] - i[0]) + abs(f[1] - i[1]) == 1]
    el = sqtunneling.build_transition_elements(n, egs, es)
    keys = {(f + (a,), i + (b,)) for f, i in pairs for a in range(len(es[f].eigvals)) for b in range(len(es[i].eigvals))}
    require(set(el) == keys, 'transitions listed: %s, expected %s', sorted(el), sorted(keys))
    for (f, i), g in el.items():
        d = sum(f[:2]) - sum(i[:2])
        spin = 0 if f[0] != i[0] else 1
        v = dot.elements(f[:2], i[:2], spin, '+' if d > 0 else '-')[f[2], i[2]]
        close(np.outer(g.v, g.v), np.outer(v, v), 'elements of %s' % ((f, i),), 1e-9)
        close(g.E, d * (dot.E(f[:2])[f[2]] - dot.E(i[:2])[i[2]]), 'energy of %s' % ((f, i),), 1e-10)
        require(g.idF == f and g.idI == i, 'names %s %s of transition %s', g.idF, g.idI, (f, i))
    ids = sorted({k for p in keys for k in p})
    N = np.array([sum(k[:2]) for k in ids])
    before = snapshot(el)
    for A, mu, beta in itertools.product(COUPL[n], BIAS, BETAS):
        A = np.array(A)
        tag = 'beta=%g mu=%s A=%s' % (beta, mu, A.tolist())
        want = dot.sequential(pairs, ids, beta, mu, A)
        W = sqtunneling.build_rate_matrix(el, beta, mu, A)
        check_matrix(W, want, ids, dot, beta, mu, A, tag)
        flow = 0.
        for lead in (0, 1):
            T = sqtunneling.build_transition_matrix(el, beta, mu[lead], A[lead])
            close(T, (N[:, None] - N[None, :]) * want[lead], tag + ' current matrix of lead %d' % lead, 1e-12, 1e-8)
            flow = flow + T.sum(0)
        close(flow, ((N[:, None] - N[None, :]) * W).sum(0), tag + ' charge balance', 1e-9)
    require(snapshot(el) == before, 'transition elements altered')
    # energies to keep, and solving only what is needed
    for cutoff in (.2, .9, 2.5, 100.):
        cut = sqtunneling.build_transition_elements(n, egs, es, cutoff)
        keep = {k for k in keys if all(dot.E(s[:2])[s[2]] - egs < cutoff for s in k) and
                abs(dot.E(k[0][:2])[k[0][2]] - dot.E(k[1][:2])[k[1][2]]) < cutoff}
        near = {k for k in keys if any(abs(abs(x) - cutoff) < 1e-6 for x in
                (dot.E(k[0][:2])[k[0][2]] - egs, dot.E(k[1][:2])[k[1][2]] - egs,
                 dot.E(k[0][:2])[k[0][2]] - dot.E(k[1][:2])[k[1][2]]))}
        require(set(cut) - near == keep - near, 'cutoff %g keeps %s, expected %s', cutoff, sorted(cut), sorted(keep))
    neig = sqtunneling.get_active_neig(n, gs, 100)
    require(len(neig) == (n + 1) ** 2 and {q for q in itertools.product(range(n + 1), repeat=2)
            if neig[q[0] * (n + 1) + q[1]]} == set(active), 'sectors to solve: %s', neig)
    return '%d transitions' % len(el)


def total(n, H, V):
    es, egs = build_espace(H, V, symmetry='N')
    dot = Dot(n, es)
    Ngs = min(es, key=lambda q: es[q].eigvals.min())[0]
    k = 0
    for N0 in list(range(2 * n + 1)) + [None]:
        el = sqtnl.build_transition_elements(n, es, N0) if N0 is not None else sqtnl.build_transition_elements(n, es, egs=egs)
        c = Ngs if N0 is None else N0
        pairs = [p for m in (c - 1, c + 1) if 0 <= m <= 2 * n for p in (((c,), (m,)), ((m,), (c,)))]
        keys = {(f + (a,), i + (b,)) for f, i in pairs for a in range(len(es[f].eigvals)) for b in range(len(es[i].eigvals))}
        require(set(el) == keys, 'transitions listed: %s, expected %s', sorted(el), sorted(keys))
        for (f, i), gl in el.items():
            d = f[0] - i[0]
            require(sorted(g.spin for g in gl) == [0, 1], 'spins of transition %s: %s', (f, i), [g.spin for g in gl])
            for g in gl:
                v = dot.elements(f[:1], i[:1], g.spin, '+' if d > 0 else '-')[f[1], i[1]]
                close(np.outer(g.v, g.v), np.outer(v, v), 'elements of %s spin %d' % ((f, i), g.spin), 1e-9)
                close(g.E, d * (dot.E(f[:1])[f[1]] - dot.E(i[:1])[i[1]]), 'energy of %s' % ((f, i),), 1e-10)
        ids = sorted({x for p in keys for x in p})
        ix = {x: k for k, x in enumerate(ids)}
        Nn = np.array([x[0] for x in ids])
        before = snapshot(el)
        for A, mu, beta in itertools.product(COUPL[n], BIAS, BETAS):
            if N0 is not None and not THOROUGH and n > 1 and (beta > 100 or N0 != 2 and (beta != 7. or A is not COUPL[n][1])):
                continue
            A = np.array(A)
            tag = 'N=%s beta=%g mu=%s A=%s' % (N0, beta, mu, A.tolist())
            want = dot.sequential(pairs, ids, beta, mu, A)
            for extract, inject in ((0, 1), (1, 0)):
                W, T = sqtnl.build_rate_and_transition_matrices(el, beta, mu, A, extract, inject)
                if extract == 0:
                    check_matrix(W, want, ids, dot, beta, mu, A, tag)
                else:
                    close(W, W0, tag + ' rates after exchanging the roles of the leads', 0., 0.)
                W0 = W
                close(T, (Nn[None, :] - Nn[:, None]) * want[inject], tag + ' current matrix of lead %d' % inject, 1e-12, 1e-8)
            Wd, Td = sqtnl.build_rate_and_transition_matrices(el, beta, mu, A, 1, 0, build_matrices=False)
            for D, M, what in ((Td, T, 'currents'), (Wd, W, 'rates')):
                require(all(D[f, i] == M[ix[f], ix[i]] for f, i in D), '%s: table of %s differs from the matrix', tag, what)
            p = stationary_solution(W)
            if mu[0] == mu[1] and beta < 1. and np.all(np.abs(A).sum(0) > 0) and n == 1:
                E = np.array([dot.E(x[:-1])[x[-1]] - mu[0] * x[0] for x in ids])
                g = np.exp(-beta * (E - E.min()))
                close(p, g / g.sum(), tag + ' equilibrium distribution', 1e-9)
            k += 1
        require(snapshot(el) == before, 'transition elements altered')
    return '%d tables' % k


def family(n, every):
    for hop, spin, u, w, x, p in itertools.product((0, 1), repeat=6):
        if n == 1 and (hop or w or x or p) or not every and (hop + w + x + p not in (0, 2, 4)) and n > 2:
            continue
        H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
        U = models.umat(n, w) if u else models.umat(n, w) * (1 - np.eye(n))
        V = {'U': U, 'Jx': models.jx(n) if x else None, 'Jp': models.jp(n) if p else None} if x or p else U
        yield 'n=%d hop%d spin%d u%d w%d x%d p%d' % (n, hop, spin, u, w, x, p), hop, H, V
    yield 'n=%d degenerate' % n, 0, np.zeros((n, n)), np.eye(n)
    yield 'n=%d degenerate chain' % n, 1, models.chain(n, -1., -.5), np.eye(n)


def body(chk):
    for n in (1, 2, 3):
        for name, hop, H, V in family(n, n < 3 or THOROUGH):
            shifts = (-3., -1., -.4, 0., .6, 2.) if n < 2 or THOROUGH else (-3., -1., -.4, .6) if n < 3 else (-1., .3)
            for e in shifts:
                G = H + e * np.eye(n)
                if n < 3 or THOROUGH or 'spin1 u1' in name and e < 0 or 'degen' in name and e > 0:
                    chk.run('sz %s shift %g' % (name, e), sz, n, G, V)
                if not hop and (n < 3 or THOROUGH and e in (-1., .6)):
                    chk.run('N %s shift %g' % (name, e), total, n, G, V)


main(body, 'C16', 'exploration', 'models x level shifts x couplings x potentials x temperatures x transitions', exhaustive=True)
