"""C10: thermal screening and the sector-size automaton."""
SHARDS = 8
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration: all spectra over an energy alphabet under all screen sequences, and the complete reachable state space of the sector-size automaton, each transition executed on the real code'
NOTE = 'Screens: all spectra of up to 3 sectors over 4 energies, sequences of up to 3 screens. Automaton: every state and every environment answer for 1 and 2 levels. Closed solve-screen-adjust loops on small models.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from vlib import models, ref
from edpyt.espace import adjust_neigsector, build_empty_sector, build_espace, get_espace_dim, screen_espace

ENERGIES = (0., 0., .3, 1.)          # an exact tie, a thermally accessible level and a remote one
SCREENS = [(b, c) for b in (.5, 3., 100., 1e6) for c in (0.9, 1e-2, 1e-9)] + [(2., 1.), (1., 0.)]
LABELS = [(0, 0), (0, 1), (1, 2)]


def fake(specs):
    """Sectors with given spectra; component (r,k) of the vectors names row, column and sector."""
    n = 2
    espace = {}
    for s, (q, e) in enumerate(zip(LABELS, specs)):
        if not e:
            continue
        sct = build_empty_sector(n, *q)
        sct.eigvals = np.array(e, float)
        k = np.arange(len(e))
        sct.eigvecs = 100. * s + 10. * np.arange(3)[:, None] + k[None, :]
        espace[q] = sct
    return espace


def digest(espace):
    return {q: (s.eigvals.tolist(), s.eigvecs.T.tolist()) for q, s in espace.items()}


def model_screen(d, egs, beta, cutoff):
    out = {}
    for q, (e, x) in d.items():
        keep = [k for k, v in enumerate(e) if np.exp(-beta * (v - egs)) > cutoff]
        if keep:
            out[q] = ([e[k] for k in keep], [x[k] for k in keep])
    return out


def spectra(sizes):
    def of(k):
        return list(dict.fromkeys(tuple(sorted(ENERGIES[i] for i in c)) for c in itertools.combinations(range(4), k)))
    for spec in itertools.product(*[of(k) for k in sizes]):
        yield spec


def screens(chk, sizes, depth):
    for spec in spectra(sizes):
        egs = min(x for e in spec for x in e)
        for seq in itertools.product(range(len(SCREENS)), repeat=depth):
            if any(SCREENS[a] == SCREENS[b] and a != b for a in seq for b in seq):
                continue
            es = fake(spec)
            m = digest(es)
            orig = dict(es)
            chk.count('traces')
            for i in seq:
                beta, cutoff = SCREENS[i]
                screen_espace(es, egs, beta, cutoff)
                m = model_screen(m, egs, beta, cutoff)
                require(digest(es) == m, 'spectra %s, screens %s: kept %s, expected %s', spec,
                        [SCREENS[j] for j in seq], digest(es), m)
                for q, s in es.items():
                    require(s is orig[q] and s.eigvecs.ndim == 2 and s.states is orig[q].states, 'sector replaced')
                chk.count('transitions')
            # idempotent
            before = digest(es)
            if es:
                screen_espace(es, egs, *SCREENS[seq[-1]])
            require(digest(es) == before, 'screening twice differs from once: %s', spec)
            chk.count('states')


def defaults():
    es = fake([(0., 1e-3), (.5,), (0.,)])
    m = model_screen(digest(es), 0., 1e6, 1e-9)
    screen_espace(es, 0.)
    require(digest(es) == m, 'defaults keep only the ground state')


def model_adjust(neig, kept, dims):
    return [min(d, k + 1) if g == k and g is not None else max(1, k - 1) if g is None or g < k else k
            for k, g, d in zip(neig, kept, dims)]


class _Sct:
    """What adjust_neigsector reads of a sector."""
    __slots__ = ('eigvals', 'eigvecs', 'states', 'd')

    def __init__(self, q, k):
        self.eigvals = np.zeros(k)
        self.eigvecs = np.zeros((1, k))
        self.d = 1
        self.states = None


def automaton(chk, n, first, zero):
    """All states (sizes) x all answers (kept numbers); sizes of the leading sectors fixed to `first`."""
    labels = [(a, b) for a in range(n + 1) for b in range(n + 1)]
    dims = [len(ref.basis(n, a)) * len(ref.basis(n, b)) for a, b in labels]
    ranges = [range(0 if zero else 1, d + 1) for d in dims]
    dom = [[(k, g) for k in r for g in [None] + list(range(1, k + 1))] for r in ranges]
    cache = {(q, k): _Sct(q, k) for q in labels for k in range(1, max(dims) + 1)}
    for combo in itertools.product(*dom[len(first):]):
        combo = first + combo
        neig = np.array([k for k, _ in combo])
        kept = [g for _, g in combo]
        es = {q: cache[q, g] for q, g in zip(labels, kept) if g is not None}
        want = model_adjust(neig.tolist(), kept, dims)
        before = neig.tolist()
        adjust_neigsector(es, neig, n)
        require(neig.tolist() == want, 'sizes %s, kept %s: became %s, expected %s', before, kept, neig.tolist(), want)
        chk.count('transitions')
    chk.count('states', int(np.prod([len(r) for r in ranges[len(first):]])))
    return dom


def loop(chk, name, H, V, neig, beta, cutoff, steps):
    """solve - screen - adjust, against the reference energies."""
    n = H.shape[-1]
    m = ref.Model(H, V)
    labels = [(a, b) for a in range(n + 1) for b in range(n + 1)]
    E = [np.linalg.eigvalsh(m.sz(*q)) for q in labels]
    dims = [len(e) for e in E]
    neig = np.array(neig)
    want = neig.tolist()
    chk.count('traces')
    for step in range(steps):
        espace, egs = build_espace(H, V, neig)
        screen_espace(espace, egs, beta, cutoff)
        e0 = min(e[0] for e, k in zip(E, want) if k)
        close(egs, e0, 'step %d: ground state' % step, 1e-9)
        kept = []
        for e, k in zip(E, want):
            g = int(np.sum(np.exp(-beta * (e[:k] - e0)) > cutoff))
            kept.append(g or None)
        require([q for q in labels if q in espace] == [q for q, g in zip(labels, kept) if g] and
                len(espace) == sum(g is not None for g in kept), 'step %d: sectors %s', step, list(espace))
        for q, g, e in zip(labels, kept, E):
            if g:
                close(espace[q].eigvals, e[:g], 'step %d: sector %s' % (step, q), 1e-9)
                require(espace[q].eigvecs.shape == (len(e), g), 'vectors of %s', q)
        want = model_adjust(want, kept, dims)
        adjust_neigsector(espace, neig, n)
        require(neig.tolist() == want, 'step %d: sizes %s, expected %s', step, neig.tolist(), want)
        chk.count('transitions')
    chk.count('states', steps)


def physical(name, H, V, symmetry):
    """Screening a solution keeps exactly the states above the cut-off, whatever came before."""
    for beta, cutoff in itertools.product((.7, 4., 60.), (.5, .03, 1e-6)):
        for pre in (None, (.7, 1e-6), (4., .03)):
            full, egs = build_espace(H, V, symmetry=symmetry)
            es = dict(full)
            E = {q: s.eigvals.copy() for q, s in full.items()}
            X = {q: s.eigvecs.copy() for q, s in full.items()}
            cuts = [(beta, cutoff)] if pre is None else [pre, (beta, cutoff)]
            for b, c in cuts:
                screen_espace(es, egs, b, c)
            for q in E:
                w = np.ones(len(E[q]), bool)
                for b, c in cuts:
                    w &= np.exp(-b * (E[q] - egs)) > c
                require((q in es) == bool(w.any()), 'sector %s: present %s', q, q in es)
                if q in es:
                    require(np.array_equal(es[q].eigvals, E[q][w]) and np.array_equal(es[q].eigvecs, X[q][:, w]),
                            'sector %s changed', q)
            # restriction is monotone: colder or stricter keeps a subset
            full2, egs2 = build_espace(H, V, symmetry=symmetry)
            screen_espace(full2, egs2, 2 * beta, cutoff)
            full3, egs3 = build_espace(H, V, symmetry=symmetry)
            screen_espace(full3, egs3, beta, cutoff)
            require(all(q in full3 and len(s.eigvals) <= len(full3[q].eigvals) for q, s in full2.items()), 'not monotone')


def body(chk):
    sizes = [s for s in itertools.product((0, 1, 2, 3), repeat=3) if sum(s) and sum(s) <= (6 if THOROUGH else 5)]
    for s in sizes:
        for depth in (1, 2) + ((3,) if THOROUGH and sum(s) <= 4 else ()):
            if depth == 2 and sum(s) > 4 and not THOROUGH:
                continue
            chk.run('screens sizes %s depth %d' % (s, depth), screens, chk, s, depth)
    chk.run('default arguments', defaults)
    chk.run('automaton n=1', automaton, chk, 1, (), False)
    chk.run('automaton n=1 from zero', automaton, chk, 1, (), True)
    dims = [1, 2, 1]
    for zero in (False, True):
        if zero and not THOROUGH:
            # sizes of zero only in the leading sectors
            for first in itertools.product(*[[(0, None)] + [(k, g) for k in range(1, d + 1) for g in [None] + list(range(1, k + 1))] for d in dims]):
                if any(k == 0 for k, _ in first) and sum(k for k, _ in first) <= 1:
                    chk.run('automaton n=2 first %s' % (first,), automaton, chk, 2, first, False)
            continue
        lo = 0 if zero else 1
        for first in itertools.product(*[[(k, g) for k in range(lo, d + 1) for g in [None] + list(range(1, k + 1))] for d in dims]):
            chk.run('automaton n=2 %d first %s' % (lo, first), automaton, chk, 2, first, zero)
    for n in (1, 2, 3) if THOROUGH else (1, 2):
        for hop in (0, 1):
            H, V = models.hspin(n, hop), models.umat(n)
            d = get_espace_dim(n)
            for beta, cutoff in itertools.product((.7, 4., 60.), (.3, 1e-3, 1e-9)):
                for k0 in (1, 2, None):
                    start = np.minimum(d, k0) if k0 else d
                    chk.run('loop n=%d hop%d beta=%g cutoff=%g start %s' % (n, hop, beta, cutoff, k0), loop, chk, '', H, V,
                            start, beta, cutoff, 6 if n < 3 else 4)
            for sy in ('sz', 'N'):
                chk.run('physical n=%d hop%d %s' % (n, hop, sy), physical, '', H, V, sy)


main(body, 'C10', 'model_checking',
     'spectra x screen sequences; states x answers of the size automaton; closed loops on solved models',
     exhaustive=True)
