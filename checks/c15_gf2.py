"""C15: matrix Green functions, element by element, both builders."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of models x retained states x matrix elements x representations, compared with off-diagonal Lehmann sums of independently built sector matrices'
NOTE = 'All coupling kinds up to 3 levels (quick: half of them at 3), the recursion branch with 4 levels. Tolerance 1e-8, in the recursion branch 1e-5.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from vlib import models
from vlib.resolvent import Resolvents
from edpyt.espace import build_espace, get_espace_dim, screen_espace
from edpyt.gf2_exact import build_gf2_exact
from edpyt.gf2_lanczos import build_gf2_lanczos
from edpyt.gf_exact import build_gf_exact
from edpyt.gf_lanczos import build_gf_lanczos

E_ = np.linspace(-3.1, 3.3, 8)
GRID = ((E_, .4), (np.zeros(3), np.array([.6, 1.9, 9.])), (E_[:1], .5))
Z_ = [e + 1j * eta for e, eta in GRID]
STACK = np.concatenate(Z_)
CUTS = np.cumsum([z.size for z in Z_])[:-1]


def wanted(R, espace, egs, beta, spin):
    n = R.n
    out = [(np.zeros((n, n, z.size), complex), np.zeros((n, n, z.size), complex)) for z in Z_]
    for i, j in itertools.product(range(n), repeat=2):
        e, h = R.gf(espace, egs, beta, i, j, spin, STACK)
        for (we, wh), a, b in zip(out, np.split(e, CUTS), np.split(h, CUTS)):
            we[i, j], wh[i, j] = a, b
    return out


def state(espace):
    return {q: (s.eigvals.copy(), s.eigvecs.copy()) for q, s in espace.items()}


def same(espace, before, tag):
    require(set(espace) == set(before), '%s: sectors changed', tag)
    for q, s in espace.items():
        require(np.array_equal(s.eigvals, before[q][0]) and np.array_equal(s.eigvecs, before[q][1]), '%s: solution altered', tag)


def lanczos(H, V, R, espace, egs, beta, tag, tol):
    n = R.n
    before = state(espace)
    for spin in (0, 1):
        want = wanted(R, espace, egs, beta, spin)
        for rep, sep in itertools.product(('cf', 'sp'), (False, True)):
            g = build_gf2_lanczos(H, V, espace, beta, egs, spin, rep, sep)
            t = '%s spin=%d %s separate=%s' % (tag, spin, rep, sep)
            for (e, eta), (we, wh) in zip(GRID, want):
                if sep:
                    ge, gh = g(e, eta)
                    close(ge, we, t + ' electron part', tol)
                    close(gh, wh, t + ' hole part', tol)
                    m = ge + gh
                else:
                    m = g(e, eta)
                    close(m, we + wh, t, tol)
                require(np.max(np.abs(m - m.transpose(1, 0, 2))) <= tol, '%s: not symmetric', t)
                for i, j in itertools.product(range(n), repeat=2):
                    one = np.zeros(e.size) + np.asarray(g[i, j](e, eta))
                    close(one, (we + wh)[i, j], '%s element [%d,%d]' % (t, i, j), tol)
        for i in range(n):
            d = build_gf_lanczos(H, V, espace, beta, egs, i, 'cf', spin)
            close(m[i, i], np.zeros(e.size) + np.asarray(d(e, eta)), '%s spin=%d diagonal %d' % (tag, spin, i), tol)
    same(espace, before, tag)


def exact(H, V, R, espace, egs, beta, tag):
    n = R.n
    before = state(espace)
    for spin in (0, 1):
        want = wanted(R, espace, egs, beta, spin)
        g = build_gf2_exact(H, V, espace, beta, egs, spin)
        t = '%s exact spin=%d' % (tag, spin)
        for (e, eta), (we, wh) in zip(GRID, want):
            m = g(e, eta)
            close(m, we + wh, t, 1e-8)
        for i in range(n):
            d = build_gf_exact(H, V, espace, beta, egs, i, spin)
            close(m[i, i], np.zeros(e.size) + np.asarray(d(e, eta)), '%s diagonal %d' % (t, i), 1e-8)
        # total spectral weight is the unit matrix
        big = np.array([0.])
        close(g(big, 1e7)[:, :, 0] * 1e7j, np.eye(n), t + ' spectral weight', 1e-5)
    same(espace, before, tag)


def model(H, V, tol, few):
    n = H.shape[-1]
    R = Resolvents(H, V)
    full, egs = build_espace(H, V)
    for beta in (.7, 40.) if not few else (1.3,):
        if n < 4:
            exact(H, V, R, full, egs, beta, 'complete beta=%g' % beta)
        if n < 3 or not few:
            lanczos(H, V, R, full, egs, beta, 'complete beta=%g' % beta, tol)
    for beta, cutoff in ((2., .1), (30., 1e-9)):
        if few and cutoff < .1:
            continue
        es, egs = build_espace(H, V)
        screen_espace(es, egs, beta, cutoff)
        lanczos(H, V, R, es, egs, beta, 'screened at %g beta=%g' % (cutoff, beta), tol)
    if not few or THOROUGH:
        es, egs = build_espace(H, V, get_espace_dim(n, 1))
        lanczos(H, V, R, es, egs, 2., 'one per sector', tol)


def sectors(n, H, V):
    """Each sector on its own, lowest and highest state: every zero-norm start vector occurs."""
    R = Resolvents(H, V)
    base, egs = build_espace(H, V)
    for q in list(base):
        for part in (slice(0, 1), slice(-1, None)):
            es, _ = build_espace(H, V)
            for k in list(es):
                if k != q:
                    es.pop(k)
            es[q].eigvals, es[q].eigvecs = es[q].eigvals[part], es[q].eigvecs[:, part]
            lanczos(H, V, R, es, egs, 1.1, 'sector %s %s' % (q, part), 1e-8)


def free(n, H, tol):
    """Without interaction G = 1/(z - H) at any temperature."""
    V = np.zeros((n, n))
    Hs = H if H.ndim == 3 else np.array([H, H])
    es, egs = build_espace(H, V)
    for beta in (.3, 5.):
        for spin in (0, 1):
            for b in (build_gf2_exact, build_gf2_lanczos):
                if n > 3 and b is build_gf2_lanczos:
                    continue
                g = b(H, V, es, beta, egs, spin)(E_, .4)
                for k, z in enumerate(E_ + .4j):
                    close(np.linalg.inv(g[:, :, k]), z * np.eye(n) - Hs[spin], '%s beta=%g spin=%d' % (b.__name__, beta, spin), tol)


def family(n, full):
    for hop, spin, u, w, x, p in itertools.product((0, 1), repeat=6):
        if n == 1 and (hop or w or x or p):
            continue
        if not full and (w + x + p not in (0, 3) or not hop or not u):
            continue
        H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
        U = models.umat(n, w) if u else models.umat(n, w) * (1 - np.eye(n))
        V = {'U': U, 'Jx': models.jx(n) if x else None, 'Jp': models.jp(n) if p else None} if x or p else U
        yield 'n=%d hop%d spin%d u%d w%d x%d p%d' % (n, hop, spin, u, w, x, p), H, V
    yield 'n=%d zero' % n, np.zeros((n, n)), np.zeros((n, n))
    yield 'n=%d half-filled chain' % n, models.chain(n, -1., -1.), 2. * np.eye(n)
    yield 'n=%d polarised' % n, np.array([models.chain(n, -.7, -.2 + .6 * s) for s in (1, -1)]), .5 * np.eye(n)


def body(chk):
    for n in (1, 2, 3, 4):
        for name, H, V in family(n, n < 3 or THOROUGH and n < 4):
            if n < 4 or THOROUGH or 'spin1 u1 w1' in name:
                chk.run('model %s' % name, model, H, V, 1e-8 if n < 4 else 1e-5, not THOROUGH and (n > 2 or n > 1 and 'hop1 spin1' not in name) or n > 3)
            if n < 3 or n < 4 and THOROUGH:
                chk.run('sectors %s' % name, sectors, n, H, V)
        for k, H in enumerate((models.hmat(n), models.hspin(n), models.chain(n, -1.), np.array([models.chain(n, 1., .3), models.chain(n, -.4)]))):
            if n < 4 or THOROUGH:
                chk.run('free n=%d %d' % (n, k), free, n, H, 1e-7 if n < 4 else 1e-4)


main(body, 'C15', 'exploration', 'models x retained states x spins x elements x representations', exhaustive=True)
