"""C12: Green function of a complete solution against the Lehmann sum of an independent diagonalisation."""
SHARDS = 8
TECHNIQUE = 'exhaustive enumeration of models x sites x spins x temperatures, compared at every frequency of a grid with an explicit-state Lehmann sum'
NOTE = 'All coupling kinds (spin-dependent included) up to 2 levels and a family of 3-level models (thorough: all, and 4 levels); sum rule, sign and pole positions on every one of them.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from vlib import models, ref
from edpyt import shared
from edpyt.espace import build_espace
from edpyt.gf_exact import build_gf_exact

E_ = np.linspace(-4., 4., 17)


def family(n, full=False):
    for hop, spin, u, w, x, p in itertools.product((0, 1), repeat=6):
        if n == 1 and (hop or w or x or p):
            continue
        if n >= 3 and not full and (w + x + p not in (0, 3)):
            continue
        H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
        U = models.umat(n, w) if u else models.umat(n, w) * (1 - np.eye(n))
        V = {'U': U, 'Jx': models.jx(n) if x else None, 'Jp': models.jp(n) if p else None} if x or p else U
        yield 'n=%d hop%d spin%d u%d w%d x%d p%d' % (n, hop, spin, u, w, x, p), H, V
    Z = np.zeros((n, n))
    yield 'n=%d zero' % n, Z.copy(), Z.copy()
    yield 'n=%d half-filled chain' % n, models.chain(n, -1., -1.), 2. * np.eye(n)
    B = np.array([models.chain(n, -.7, -.2 + .6 * s) for s in (1, -1)])
    yield 'n=%d polarised' % n, B, .5 * np.eye(n)


def refmodel(H, V, opts=()):
    opts = dict(opts)
    Vd = V if isinstance(V, dict) else {'U': V}
    return ref.Model(H, Vd.get('U'), Vd.get('Jx'), Vd.get('Jp'), opts.get('mu', 0.), opts.get('z'), opts.get('hfmode', False))


def model(H, V, opts):
    n = H.shape[-1]
    shared.params.update(opts)
    try:
        espace, egs = build_espace(H, V)
        sp = ref.Spectrum(refmodel(H, V, opts))
        for beta, spin, pos in itertools.product((.4, 3., 50.), (0, 1), range(n)):
            tag = 'beta=%g spin=%d site=%d' % (beta, spin, pos)
            gf = build_gf_exact(H, V, espace, beta, egs, pos, spin)
            for eta in (.05, .8):
                want = sum(sp.gf(beta, pos, pos, spin, E_ + 1j * eta))
                got = np.asarray(gf(E_, eta))
                close(got, want, '%s eta=%g' % (tag, eta), 1e-7)
                require(np.all(got.imag < 0), '%s: imaginary part %g', tag, got.imag.max())
            wn = np.array([.5, 1., 7.])
            close(np.asarray(gf(0., wn)), sum(sp.gf(beta, pos, pos, spin, 1j * wn)), tag + ' Matsubara', 1e-7)
            big = 1e7
            close(np.asarray(gf(np.array([0.]), big))[0] * 1j * big, 1., tag + ': total weight', 1e-5)
            close(np.asarray(gf(np.array([.3]), .2)), np.asarray(gf(E_ * 0 + .3, .2))[:1], tag + ': one frequency', 1e-12)
            # poles are differences of many-body energies
            if not (hasattr(gf, 'q') and hasattr(gf, 'l')):
                continue
            q, l = np.asarray(gf.q), np.asarray(gf.l)
            require(np.all(q > -1e-12), 'negative weight')
            if beta == 3.:
                D = np.concatenate([(sp.E[b][:, None] - e[None, :]).ravel() for a, e in sp.E.items()
                                    for b in [(a[0] + (spin == 0), a[1] + (spin == 1))] if b in sp.E])
                for x in l[q > 1e-8]:
                    require(np.min(np.abs(D - x)) < 1e-8, '%s: pole at %g is no excitation energy', tag, x)
    finally:
        shared.params.update(hfmode=False, mu=0., z=None)


def body(chk):
    for n in (1, 2, 3) + ((4,) if THOROUGH else ()):
        for k, (name, H, V) in enumerate(family(n, THOROUGH and n < 4)):
            chk.run('model %s' % name, model, H, V, {})
            if n < 3 or (THOROUGH and n == 3):
                chk.run('model %s mu' % name, model, H, V, {'mu': .35})
                chk.run('model %s hf' % name, model, H, V, {'hfmode': True, 'mu': -.2})


main(body, 'C12', 'exploration', 'models x options x temperatures x spins x sites', exhaustive=True)
