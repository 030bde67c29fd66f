"""C17: second-order amplitudes and rates, both sector schemes."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of models x initial charge states x spin channels x lead pairs x potentials x temperatures; every amplitude and rate compared with an explicit-path model of second-order perturbation theory, whose rates are contour quadratures'
NOTE = 'All coupling kinds up to 2 levels, selected ones at 3 (thorough: all at 3 for the approximate rates). The tolerance of the closed-form rates is 1e-5 of the size of their cancelling terms; the windowed quadrature of cotnl is an approximation and is compared at 6% in Coulomb blockade only.'
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
np.seterr(all='ignore')
from vlib import models
from vlib.transport import Dot, Transfer, generator, valid
from edpyt import cotunneling, cotnl
from edpyt.espace import build_espace

COUPL = {1: [[[1.], [1.]], [[.7], [-.4]]],
         2: [[[.7, -.4], [.3, .9]], [[1., 1.], [1., 1.]], [[0., .8], [-.5, 0.]]],
         3: [[[.7, -.4, .2], [.3, .9, -.6]]]}
BIAS = [(0., 0.), (.3, -.2), (-1.5, 2.5), (.4, .4), (.3 + 3e-5, .3), (1e-8, 0.)]
Z = np.array([-1.3713, -.21837, .01137, .83719, 2.61371])
LEADS = list(itertools.product((0, 1), repeat=2))


def settings(n):
    for A, mu, beta in itertools.product(COUPL[n], BIAS, (.5, 9., 150.)):
        if THOROUGH or n == 1 or (A is COUPL[n][0]) == (beta < 150.) and A is not COUPL[n][-1]:
            yield A, mu, beta


def pairing(n, dot, f, i):
    """Channels (spin that leaves, spin that enters) leading from state i to state f."""
    out = []
    dE = dot.E(f[:-1])[f[-1]] - dot.E(i[:-1])[i[-1]]
    for sf, si in LEADS:
        p = dot.paths(f[:-1], f[-1], i[:-1], i[-1], sf, si)
        if p:
            out.append(Transfer(p, dE))
    return out


def match(got, want, tag, tol):
    """Same numbers in any order of channels."""
    require(len(got) == len(want), '%s: %d channels, expected %d', tag, len(got), len(want))
    best = min(max(np.max(np.abs(a - b)) for a, b in zip(got, p)) if got else 0. for p in itertools.permutations(want))
    scale = 1 + max(np.max(np.abs(x)) for x in want)
    require(best <= tol * scale, '%s: channels %s, expected %s', tag, got, want)


def amplitudes(el, ref, A, keep_zero, tag):
    for k, chans in ref.items():
        sig = el[k]
        for e, i in LEADS:
            want = [c.amplitude(Z, A, e, i) ** 2 for c in chans]
            got = [np.asarray(s(Z, A, e, i)) for s in sig]
            t = '%s %s leads %d->%d' % (tag, k, e, i)
            require(all(g.shape == Z.shape for g in got), '%s: shapes %s', t, [g.shape for g in got])
            match(got, want, t, 1e-8)
            one = [np.asarray(s(Z[2], A, e, i)).ravel()[0] for s in sig]
            require(all(abs(o - g[2]) <= 1e-12 * (1 + abs(o)) for o, g in zip(one, got)), '%s: one energy %s, several %s', t, one, got)
        require(all(abs(s.dE - chans[0].dE) < 1e-10 for s in sig), '%s %s: energy difference %s', tag, k, [s.dE for s in sig])


def tables(ref, ids, beta, mu, A, how):
    """gamma[extract, inject, f, i], scale; None if the approximation sits on a resonance"""
    ix = {k: j for j, k in enumerate(ids)}
    g, sc = np.zeros((2, 2, len(ids), len(ids))), np.zeros((2, 2, len(ids), len(ids)))
    for (f, i), chans in ref.items():
        for e, j in LEADS:
            for c in chans:
                if how == 'exact':
                    v, s = c.rate(A, e, j, beta, mu)
                else:
                    v, s, d = c.centre(A, e, j, beta, mu)
                    if d < 1e-3:
                        return None, None
                g[e, j, ix[f], ix[i]] += v
                sc[e, j, ix[f], ix[i]] += s
    return g, sc


def balanced(W, scale, ids, dot, beta, tag, tol):
    E = np.array([dot.E(k[:-1])[k[-1]] for k in ids])
    p = np.exp(-beta * (E - E.min()))
    F = W * p[None, :]
    F = F - np.diag(np.diag(F))
    require(np.max(np.abs(F - F.T)) <= tol * np.max(scale * p[None, :]), '%s: detailed balance violated by %g of %g', tag, np.max(np.abs(F - F.T)), np.max(np.abs(F)))


def within(got, want, scale, tag, rel):
    bad = ~(np.abs(got - want) <= rel * scale + 1e-11 * (1 + np.max(scale)))
    if np.any(bad):
        a = tuple(np.argwhere(bad)[0])
        require(False, '%s: at %s got %r, expected %r', tag, a, got[a], want[a])


def sums(scale):
    s = scale.sum((0, 1))
    s = s - np.diag(np.diag(s))
    return s + np.diag(s.sum(0))


def sz(n, H, V, exact):
    es, egs = build_espace(H, V)
    dot = Dot(n, es)
    gs = [q for q in es if es[q].eigvals.min() - egs < 1e-9]
    S = sorted({(q[0] + a, q[1] - a) for q in gs for a in (-1, 0, 1) if valid(n, (q[0] + a, q[1] - a))})
    el = cotunneling.build_transition_elements(n, egs, es)
    keys = [(f + (a,), i + (b,)) for i in S for f in S if f[0] - i[0] in (-1, 0, 1) and sum(f) == sum(i)
            for a in range(len(dot.E(f))) for b in range(len(dot.E(i)))]
    require(set(el) == set(keys), 'transitions listed: %s, expected %s', sorted(el), sorted(keys))
    ref = {k: pairing(n, dot, *k) for k in keys}
    ids = sorted({x for p in keys for x in p})
    for A in COUPL[n]:
        amplitudes(el, ref, np.array(A), True, 'A=%s' % A)
    for A, mu, beta in settings(n):
        A = np.array(A)
        for how in ('approx', 'exact'):
            if how == 'exact' and (not exact or n > 1 and not THOROUGH and (A[0, 0] != COUPL[n][0][0][0] or beta == 150. or
                                                                   (beta == .5) != (mu == BIAS[1]))):
                continue
            tag = '%s beta=%g mu=%s A=%s' % (how, beta, mu, A.tolist())
            g, sc = tables(ref, ids, beta, mu, A, how)
            if g is None:
                continue
            rel = 1e-5 if how == 'exact' else 1e-9
            W = cotunneling.build_rate_matrix(el, beta, mu, A, how == 'approx')
            within(W, generator(g.sum((0, 1))), sums(sc), tag + ' rates', rel)
            require(np.all(np.abs(W.sum(0)) <= 1e-9 * (1e-3 + np.abs(W).sum(0))), '%s: column sums %s', tag, W.sum(0))
            for e, j in ((0, 1), (1, 0)):
                if how == 'exact' and e:
                    continue
                T = cotunneling.build_transition_matrix(el, beta, mu, A, e, j, how == 'approx')
                within(T, g[e, j] - g[j, e], sc[e, j] + sc[j, e], tag + ' current %d->%d' % (e, j), rel)
            if how == 'approx':
                require(np.all(W - np.diag(np.diag(W)) >= 0), '%s: negative rate', tag)
            if mu[0] == mu[1] and beta < 100:
                balanced(W, sums(sc), ids, dot, beta, tag, 1e-4 if how == 'exact' else 1e-7)
    require(set(el) == set(keys) and all(len(el[k]) == len(ref[k]) for k in keys), 'the table of transitions was altered')
    for cutoff in (.3, 1.1, 100.):
        cut = cotunneling.build_transition_elements(n, egs, es, cutoff)
        val = {k: max(dot.E(k[0][:2])[k[0][2]] - egs, dot.E(k[1][:2])[k[1][2]] - egs,
                      abs(dot.E(k[0][:2])[k[0][2]] - dot.E(k[1][:2])[k[1][2]])) for k in keys}
        require({k for k in cut if abs(val[k] - cutoff) > 1e-6} == {k for k in keys if val[k] < cutoff and abs(val[k] - cutoff) > 1e-6},
                'cutoff %g keeps %s', cutoff, sorted(cut))
        for k in cut:
            match([np.asarray(s(Z, A, 0, 1)) for s in cut[k]], [c.amplitude(Z, A, 0, 1) ** 2 for c in ref[k]], 'cutoff %g %s' % (cutoff, k), 1e-8)
    neig = cotunneling.get_active_neig(n, gs, 100)
    need = {q for q in itertools.product(range(n + 1), repeat=2) if neig[q[0] * (n + 1) + q[1]]}
    part = {q: es[q] for q in need}
    again = cotunneling.build_transition_elements(n, egs, part)
    require(set(again) == set(keys), 'sectors to solve %s give other transitions', sorted(need))
    return '%d transitions' % len(el)


def spread(M, table, ids):
    have = sorted({x for k in table for x in k})
    ix = [ids.index(x) for x in have]
    out = np.zeros((len(ids),) * 2)
    out[np.ix_(ix, ix)] = M
    return out


def gap(ref, beta, mu):
    lo = min(min(mu), min(min(m - c.dE for m in mu) for cs in ref.values() for c in cs))
    hi = max(max(mu), max(max(m - c.dE for m in mu) for cs in ref.values() for c in cs))
    P = np.concatenate([c.P for cs in ref.values() for c in cs])
    d = np.maximum(lo - P, P - hi)
    return d.min() * beta


def total(n, H, V, exact, Ns):
    es, egs = build_espace(H, V, symmetry='N')
    dot = Dot(n, es)
    Ngs = min(es, key=lambda q: es[q].eigvals.min())[0]
    done = 0
    for N0 in Ns:
        el = cotnl.build_transition_elements(n, es, N0) if N0 is not None else cotnl.build_transition_elements(n, es, egs=egs)
        N = Ngs if N0 is None else N0
        m = len(dot.E((N,)))
        keys = [((N, a), (N, b)) for a in range(m) for b in range(m)]
        require(set(el) == set(keys), 'transitions listed: %s, expected %s', sorted(el), sorted(keys))
        ref = {k: pairing(n, dot, *k) for k in keys}
        ids = [(N, a) for a in range(m)]
        screened = cotnl.build_transition_elements(n, es, N, egs, 1e9)
        for A in COUPL[n]:
            amplitudes(el, ref, np.array(A), True, 'N=%d A=%s' % (N, A))
            if n > 2:
                break
        for A, mu, beta in settings(n):
            A = np.array(A)
            for how in ('approximate', 'exact', 'integrate'):
                if how == 'exact' and (not exact or n > 1 and not THOROUGH and (A[0, 0] != COUPL[n][0][0][0] or beta == 150. or
                                                                       (beta == .5) != (mu == BIAS[1]))):
                    continue
                if how == 'integrate' and (beta == .5 or gap(ref, beta, mu) < 12 or n > 2):
                    continue
                tag = 'N=%d %s beta=%g mu=%s A=%s' % (N, how, beta, mu, A.tolist())
                g, sc = tables(ref, ids, beta, mu, A, 'approx' if how == 'approximate' else 'exact')
                if g is None:
                    continue
                rel = {'exact': 1e-5, 'approximate': 1e-9, 'integrate': .06}[how]
                e, j = (0, 1) if beta > 1 else (1, 0)
                # leaving out vanishing terms does not change the rates and saves most of the closed forms
                src = screened if how == 'exact' and n > 1 else el
                W, T = cotnl.build_rate_and_transition_matrices(src, beta, mu, A, e, j, how)
                if src is el or len(src) == len(el):
                    within(W, generator(g.sum((0, 1))), sums(sc), tag + ' rates', rel)
                else:
                    W, T = spread(W, src, ids), spread(T, src, ids)
                    within(W, generator(g.sum((0, 1))), sums(sc), tag + ' rates', rel)
                within(T, g[e, j] - g[j, e], sc[e, j] + sc[j, e], tag + ' current %d->%d' % (e, j), rel)
                require(np.all(np.abs(W.sum(0)) <= 1e-9 * (1e-3 + np.abs(W).sum(0))), '%s: column sums %s', tag, W.sum(0))
                if how == 'approximate':
                    require(np.all(W - np.diag(np.diag(W)) >= 0), '%s: negative rate', tag)
                if mu[0] == mu[1] and beta < 100 and how != 'integrate':
                    balanced(W, sums(sc), ids, dot, beta, tag, 1e-4 if how == 'exact' else 1e-7)
                done += 1
                if how == 'integrate':
                    done += 1000
        e0 = dot.E((N,)).min()
        for cutoff in (.3, 1.1, 100.):
            E = dot.E((N,))
            if N0 is not None:
                cut = cotnl.build_transition_elements(n, es, N0, e0, cutoff)
            else:
                cut = cotnl.build_transition_elements(n, es, egs=egs, cutoff=cutoff)
            for k in keys:
                v = max(E[k[0][1]] - e0, E[k[1][1]] - e0, abs(E[k[0][1]] - E[k[1][1]]))
                if abs(v - cutoff) < 1e-6:
                    continue
                if v > cutoff:
                    require(k not in cut, 'cutoff %g keeps %s', cutoff, k)
                    continue
                for A in COUPL[n][:2]:
                    A = np.array(A)
                    for a, b in LEADS:
                        want = sum(c.amplitude(Z, A, a, b) ** 2 for c in ref[k])
                        got = sum(np.asarray(s(Z, A, a, b)) for s in cut.get(k, [])) + 0 * Z
                        close(got, want, 'N=%d cutoff %g %s leads %d->%d' % (N, cutoff, k, a, b), 1e-8)
    return '%d tables, %d by windowed quadrature' % (done % 1000, done // 1000)


def family(n, every):
    for hop, spin, u, w, x, p in itertools.product((0, 1), repeat=6):
        if n == 1 and (hop or w or x or p) or not every and (hop + w + x + p not in (0, 3, 4) or not spin or not u):
            continue
        H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
        U = models.umat(n, w) if u else models.umat(n, w) * (1 - np.eye(n))
        V = {'U': U, 'Jx': models.jx(n) if x else None, 'Jp': models.jp(n) if p else None} if x or p else U
        yield 'n=%d hop%d spin%d u%d w%d x%d p%d' % (n, hop, spin, u, w, x, p), hop, H, V
    yield 'n=%d degenerate' % n, 0, np.zeros((n, n)), np.eye(n)
    yield 'n=%d degenerate chain' % n, 1, models.chain(n, -1., -.5), np.eye(n)


def cases():
    for n in (1, 2, 3):
        for name, hop, H, V in family(n, n < 3 or THOROUGH):
            for e in (-3., -1., -.4, 0., .6, 2.) if THOROUGH else (-1., -.4, .6) if n < 2 else (-1., -.4) if n < 3 else (-1.,):
                G = H + e * np.eye(n)
                rich = 'spin1 u1' in name or 'degen' in name
                if n < 3 or THOROUGH:
                    yield ('sz %s shift %g' % (name, e), sz, n, G, V, n == 1 or n == 2 and (THOROUGH or rich and e == -.4 and (' w1 ' in name or 'degen' in name)))
                if not hop and (n < 3 or THOROUGH and rich):
                    Ns = [None] + list(range(2 * n + 1)) if n < 2 or THOROUGH else [None, 2] if e == -.4 else [0, 1, 3, 4]
                    yield ('N %s shift %g' % (name, e), total, n, G, V, n == 1 or n == 2 and (THOROUGH or rich and e == -.4 and ' w1 ' in name), Ns)
    # Coulomb blockade: all charge excitations far from the bias window
    for n in (1, 2):
        H, U = np.diag([-8., -8.3][:n]), np.diag([17., 16.4][:n]) + .7 * (1 - np.eye(n))
        for x, p in itertools.product((0, 1), repeat=2):
            if n == 1 and (x or p):
                continue
            V = {'U': U, 'Jx': .2 * models.jx(n) if x else None, 'Jp': .2 * models.jp(n) if p else None}
            yield ('blockade sz n=%d x%d p%d' % (n, x, p), sz, n, H, V, n == 1)
            yield ('blockade N n=%d x%d p%d' % (n, x, p), total, n, H, V, n == 1, [n])


def body(chk):
    todo = list(cases())
    random.Random(1).shuffle(todo)      # even shards
    for c in todo:
        chk.run(*c)



main(body, 'C17', 'exploration', 'models x level shifts x charges x spin channels x lead pairs x potentials x temperatures', exhaustive=True)
