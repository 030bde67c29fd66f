"""C13: Krylov Green function of retained states against resolvents of an explicit-state model."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of models x retained states x representations x options, compared with resolvents of independently built sector matrices'
NOTE = 'Dense branch: all coupling kinds up to 3 levels; recursion branch (sectors above 10 states): families with 4 levels (thorough 5). The tolerance in the recursion branch is 1.5e-6 at a broadening of 0.4 and on the Matsubara axis.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from vlib import models, ref
from vlib.resolvent import Resolvents
from edpyt.espace import build_espace, get_espace_dim, screen_espace
from edpyt.gf_lanczos import build_gf_lanczos
from edpyt.gf_exact import build_gf_exact

E_ = np.linspace(-4., 4., 9)
WN = np.array([.6, 1.9, 9.])


def spread(x, shape):
    return np.zeros(shape) + np.asarray(x)


GRID = ((E_, .4), (0., WN), (E_, np.zeros(E_.size) + .7))
ALL_Z = [np.asarray(e + 1j * eta) for e, eta in GRID]
STACK = np.concatenate(ALL_Z)
CUTS = np.cumsum([len(z) for z in ALL_Z])[:-1]


def compare(H, V, R, espace, egs, beta, tag, tol, exact=False):
    n = H.shape[-1]
    before = {q: (s.eigvals.copy(), s.eigvecs.copy()) for q, s in espace.items()}
    for spin, pos in itertools.product((0, 1), range(n)):
        we, wh = [np.split(x, CUTS) for x in R.gf(espace, egs, beta, pos, pos, spin, STACK)]
        for rep in ('cf', 'sp'):
            t = '%s, beta=%g spin=%d site=%d %s' % (tag, beta, spin, pos, rep)
            g = build_gf_lanczos(H, V, espace, beta, egs, pos, rep, spin)
            ge, gh = build_gf_lanczos(H, V, espace, beta, egs, pos, rep, spin, True)
            for q, s in espace.items():
                require(s.eigvals.shape == before[q][0].shape and np.array_equal(s.eigvals, before[q][0])
                        and np.array_equal(s.eigvecs, before[q][1]), '%s: solution altered', t)
            for (e, eta), z, a, b in zip(GRID, ALL_Z, we, wh):
                got = spread(g(e, eta), z.shape)
                close(got, a + b, t, tol)
                require(np.all(got.imag < tol), '%s: positive imaginary part', t)
                close(spread(ge(e, eta), z.shape), a, t + ' electron part', tol)
                close(spread(gh(e, eta), z.shape), b, t + ' hole part', tol)
            one = np.asarray(g(E_[3:4], .4)).ravel()
            close(one, (we[0] + wh[0])[3:4], t + ' one frequency', tol)
        if exact:
            gx = build_gf_exact(H, V, espace, beta, egs, pos, spin)
            close(g(E_, .4), gx(E_, .4), tag + ': Krylov against exact', tol)


def model(H, V, tol, few=False):
    n = H.shape[-1]
    R = Resolvents(H, V)
    if not few:
        for beta in (.7, 40.):
            full, egs = build_espace(H, V)
            compare(H, V, R, full, egs, beta, 'complete', tol, True)
    k = 0
    for beta, cutoff in itertools.product((2., 30.), (.1, 1e-9)):
        if few and cutoff < .1 and beta < 30. or n == 4 and not THOROUGH and (cutoff < .1 or beta < 30.):
            continue
        es, egs = build_espace(H, V)
        screen_espace(es, egs, beta, cutoff)
        compare(H, V, R, es, egs, beta, 'screened at %g' % cutoff, tol)
        k += sum(s.eigvals.size for s in es.values())
    for neig in (1, 2) if not few else (1,) if n < 4 or THOROUGH else ():
        es, egs = build_espace(H, V, get_espace_dim(n, neig))
        compare(H, V, R, es, egs, 2., '%d per sector' % neig, tol)
    return '%d states retained' % k


def subsets(n, bits, H, V):
    """Every subset of retained sectors and, per sector, lowest / highest / all states."""
    R = Resolvents(H, V)
    base, egs = build_espace(H, V)
    qs = list(base)
    for m in bits:
        for part in (slice(None), slice(0, 1), slice(-1, None)):
            es, _ = build_espace(H, V)
            for b, q in enumerate(qs):
                if not (m >> b) & 1:
                    es.pop(q)
                else:
                    es[q].eigvals, es[q].eigvecs = es[q].eigvals[part], es[q].eigvecs[:, part]
            if es:
                compare(H, V, R, es, egs, 1.1, 'sectors %s' % list(es), 1e-8)


def big(n, q, H, V, k):
    """Recursion branch, one initial sector at a time, k lowest states."""
    R = Resolvents(H, V)
    neig = np.zeros((n + 1) ** 2, int)
    neig[q[0] * (n + 1) + q[1]] = min(k, len(ref.sz_basis(n, *q)))
    es, egs = build_espace(H, V, neig)
    compare(H, V, R, es, egs, 1.5, 'sector %s' % (q,), 1.5e-6)
    ev = np.concatenate([s.eigvals for s in es.values()])
    if np.ptp(ev) > 1e-6:
        compare(H, V, R, es, egs, np.log(1.25e5) / np.ptp(ev), 'sector %s, a state with weight 8e-6' % (q,), 1.5e-6)


def family(n, full):
    for hop, spin, u, w, x, p in itertools.product((0, 1), repeat=6):
        if n == 1 and (hop or w or x or p):
            continue
        if not full and (w + x + p not in (0, 3)):
            continue
        H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
        U = models.umat(n, w) if u else models.umat(n, w) * (1 - np.eye(n))
        V = {'U': U, 'Jx': models.jx(n) if x else None, 'Jp': models.jp(n) if p else None} if x or p else U
        yield 'n=%d hop%d spin%d u%d w%d x%d p%d' % (n, hop, spin, u, w, x, p), H, V
    yield 'n=%d zero' % n, np.zeros((n, n)), np.zeros((n, n))
    yield 'n=%d half-filled chain' % n, models.chain(n, -1., -1.), 2. * np.eye(n)
    yield 'n=%d free chain' % n, models.chain(n, -1.), np.zeros((n, n))
    yield 'n=%d polarised' % n, np.array([models.chain(n, -.7, -.2 + .6 * s) for s in (1, -1)]), .5 * np.eye(n)


def body(chk):
    for n in (1, 2, 3):
        for name, H, V in family(n, n < 3 or THOROUGH):
            chk.run('model %s' % name, model, H, V, 1e-8, n == 3 and not THOROUGH)
    for name, H, V in family(4, THOROUGH):
        if THOROUGH or ' w1 ' in name or 'chain' in name or 'polar' in name:
            chk.run('model %s' % name, model, H, V, 1.5e-6, True)
        for q in itertools.product(range(5), repeat=2):
            if THOROUGH or ('spin1 u1' in name or 'half' in name) and (q[0] in (1, 2) or q[1] in (2, 3)):
                chk.run('sector %s of %s' % (q, name), big, 4, q, H, V, 2)
    if THOROUGH:
        for name, H, V in family(5, False):
            for q in ((2, 2), (2, 3), (1, 3), (3, 2)):
                chk.run('sector %s of %s' % (q, name), big, 5, q, H, V, 1) if 'n=5 hop' not in name else None
    chk.run('subsets n=1', subsets, 1, range(1, 16), models.hspin(1), models.umat(1))
    for lo in range(1, 512, 32):
        bits = [m for m in range(lo, min(512, lo + 32)) if THOROUGH or bin(m).count('1') in (1, 2)]
        chk.run('subsets n=2 from %d' % lo, subsets, 2, bits, models.hspin(2), models.umat(2))


main(body, 'C13', 'exploration', 'models x retained states x sites x spins x representations', exhaustive=True)
