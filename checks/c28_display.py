"""C28: representations of states and printed eigenstates."""
SHARDS = 4
TECHNIQUE = 'exhaustive enumeration of all states of up to 10 levels (thorough: 16) and of solved systems whose printed listing is parsed back and whose drawings are recorded'
NOTE = 'Printed amplitudes carry three decimals; the parsed listing is compared to half a unit of the last one.'
import contextlib
import io
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from vlib import models, ref
from edpyt import cotools
from edpyt.eshow import eprint, fock, pdisplay
from edpyt.espace import build_espace, get_espace_dim, screen_espace
from edpyt.lookup import binrep, intrep

UP, DW = '\u2191', '\u2193'


def reps(n, lo, hi):
    for s in range(lo, hi):
        b = [(s >> i) & 1 for i in range(n)]
        for arg in (s, np.uint32(s)):
            for fmt in ('array', 'arr'):
                a = binrep(arg, n, fmt)
                require(list(a) == b and len(a) == n, 'array of %d with %d levels: %s', s, n, list(a))
            for fmt in ('string', 'str'):
                t = binrep(arg, n, fmt)
                require(t == ''.join(map(str, b)), 'string of %d with %d levels: %s', s, n, t)
        require(list(binrep(s, n)) == b, 'default format of %d', s)
        require(int(intrep(a)) == s, 'intrep(binrep(%d, %d)) = %s', s, n, intrep(a))
        require(int(intrep(t)) == s, 'intrep of the string of %d with %d levels = %s', s, n, intrep(t))
        require(int(intrep(list(b))) == s, 'intrep of a list')


def refuse():
    for bad in ('arrays', 'binary', ''):
        try:
            binrep(3, 2, bad)
        except ValueError:
            continue
        require(False, 'format %r accepted', bad)


def kets(n):
    for u, d in itertools.product(range(1 << n), repeat=2):
        want = '|' + ','.join((UP if (u >> i) & 1 else '') + (DW if (d >> i) & 1 else '') or 'o' for i in range(n)) + '>'
        got = fock(u, d, n)
        require(got == want, 'ket of (%d,%d): %s, expected %s', u, d, got, want)
        require(fock(np.uint32(u), np.uint32(d), n) == want, 'ket of unsigned (%d,%d)', u, d)


def parse(text):
    out = []
    for block in text.strip().split('\n\n'):
        head, body = block.split('\n')
        m = re.fullmatch(r'\((.*?),?\): (\S+)', head)
        q = tuple(int(x) for x in m.group(1).split(','))
        comp = {}
        for t in body.split(' + '):
            a, k = t.split('|')
            require('|' + k not in comp, 'ket |%s twice in %s', k, head)
            comp['|' + k] = float(a)
        out.append((q, float(m.group(2)), comp))
    return out


def listing(H, V, symmetry, cut):
    n = H.shape[-1]
    es, egs = build_espace(H, V, symmetry=symmetry)
    if cut:
        screen_espace(es, egs, 3., .05)
    before = {q: (s.eigvals.copy(), s.eigvecs.copy()) for q, s in es.items()}
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        eprint(es, n)
    for q, s in es.items():
        require(np.array_equal(s.eigvals, before[q][0]) and np.array_equal(s.eigvecs, before[q][1]), 'printing altered sector %s', q)
    got = parse(buf.getvalue())
    require(len(got) == sum(s.eigvals.size for s in es.values()), '%d states printed', len(got))
    require(all(a[1] <= b[1] + 1e-9 for a, b in zip(got, got[1:])), 'energies not ascending')
    left = {q: list(range(s.eigvals.size)) for q, s in es.items()}
    for q, e, comp in got:
        require(q in left, 'unknown sector %s', q)
        st = ref.sz_basis(n, *q) if len(q) == 2 else ref.basis(2 * n, q[0])
        names = [fock(x & ((1 << n) - 1), x >> n, n) for x in st]
        require(sorted(comp) == sorted(names), 'sector %s lists %s, expected %s', q, sorted(comp), sorted(names))
        v = np.array([comp[k] for k in names])
        j = next((j for j in left[q] if abs(es[q].eigvals[j] - e) < 6e-4 * (1 + abs(e)) and
                  np.allclose(v, es[q].eigvecs[:, j], rtol=0, atol=6e-4)), None)
        require(j is not None, 'printed state %s %g %s is not an eigenstate', q, e, comp)
        left[q].remove(j)
    require(not any(left.values()), 'states not printed: %s', left)
    return '%d states' % len(got)


class Axes:
    """Keeps what is drawn on it."""

    def __init__(self):
        self.levels, self.bonds, self.discs = [], [], []

    def hlines(self, y, xmin, xmax, **k):
        y, lo, hi = np.atleast_1d(y), np.atleast_1d(xmin), np.atleast_1d(xmax)
        require(lo.size in (1, y.size) and hi.size in (1, y.size), 'levels and their extents differ in number')
        self.levels += list(zip(y.tolist(), np.broadcast_to(lo, y.shape).tolist(), np.broadcast_to(hi, y.shape).tolist()))

    def plot(self, x, y, *a, **k):
        self.bonds.append(tuple(sorted(zip(np.ravel(x).tolist(), np.ravel(y).tolist()))))

    def add_artist(self, c):
        self.discs.append((tuple(float(t) for t in c.xy), float(c.radius), c.color))

    add_patch = add_artist

    def axis(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Atoms:
    """What the drawing needs of a molecule."""

    def __init__(self, positions, bonds):
        self.positions, self.bonds = np.asarray(positions, float), [tuple(b) for b in bonds]

    def __len__(self):
        return len(self.positions)

    def __iter__(self):
        for i in range(len(self)):
            a = type('Atom', (), {})()
            a.index, a.position = i, self.positions[i]
            yield a

    def __getitem__(self, i):
        return Atoms(self.positions[i], [])


def chart(n, hop, spin, u, cut, symmetry):
    H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
    V = models.umat(n, 1) * (1. if u else 1 - np.eye(n))
    es, egs = build_espace(H, V, symmetry=symmetry)
    if cut:
        screen_espace(es, egs, 3., .05)
    before = {q: s.eigvals.copy() for q, s in es.items()}
    ax = Axes()
    pdisplay(es, ax)
    want = sorted((e, sum(q)) for q, s in es.items() for e in s.eigvals)
    require(len(ax.levels) == len(want), '%d levels drawn, %d states', len(ax.levels), len(want))
    for q, s in es.items():
        require(np.array_equal(s.eigvals, before[q]), 'drawing altered sector %s', q)
    # each line is centred on its charge and does not reach the next charge
    got = sorted((y, round((a + b) / 2, 6)) for y, a, b in ax.levels)
    require(all(0 < b - a < 1 for y, a, b in ax.levels), 'extent of a level')
    require(all(abs(g[0] - w[0]) < 1e-12 for g, w in zip(got, want)), 'energies drawn')
    for y, c in got:
        j = next((j for j, w in enumerate(want) if w[1] == c and abs(w[0] - y) < 1e-12), None)
        require(j is not None, 'no state of charge %g at %g', c, y)
        want.pop(j)
    return '%d levels' % len(got)


PLACES = [(0.3, -1.1, 2.2), (1.7, .4, -.6), (-.8, .9, .1), (2.4, -2.5, 1.3)]


def skeleton(n):
    """Every bond graph, every plane, every subset: all bonds and one disc per orbital component, in its place."""
    pairs = list(itertools.combinations(range(n), 2))
    k = 0
    for g in range(1 << len(pairs)):
        bonds = [b for i, b in enumerate(pairs) if g >> i & 1]
        for plane in ('xy', 'yz', 'xz', 'zx'):
            at = Atoms(PLACES[:n], bonds)
            ij = ['xyz'.index(c) for c in plane]
            want = sorted(tuple(sorted(tuple(at.positions[a][ij].tolist()) for a in b)) for b in bonds)
            ax = Axes()
            require(cotools.draw_skeleton(at, ax, plane) is ax, 'axes returned')
            require(sorted(ax.bonds) == want, 'bonds drawn %s, expected %s', ax.bonds, want)
            k += 1
            if g not in (0, 1, (1 << len(pairs)) - 1):
                continue
            for sub in [None] + [list(t) for r in range(1, n + 1) for t in itertools.permutations(range(n), r)]:
                idx = list(range(n)) if sub is None else sub
                v = np.array([.7, -.4, 0.2, -.1])[:len(idx)]
                ax = Axes()
                cotools.draw_feynman_dyson_orbital(at, v, sub, ax, plane, scale=2.)
                require(sorted(ax.bonds) == want, 'bonds drawn under an orbital')
                discs = {d[0]: d[1:] for d in ax.discs}
                require(len(ax.discs) == len(idx) == len(discs), '%d discs for %d components', len(ax.discs), len(idx))
                for i, x in zip(idx, v):
                    r, c = discs[tuple(at.positions[i][ij].tolist())]
                    require(abs(r - 2. * x * x) < 1e-12 and c == ('r' if x > 0 else 'b'), 'disc of site %d: %g %s', i, r, c)
                k += 1
    return '%d drawings' % k


def density(n, hop, spin):
    """Discs follow the occupations of every eigenvector of every sector."""
    H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
    es, egs = build_espace(H, models.umat(n, 1))
    at = Atoms(PLACES[::-1][:n + 1], [])
    k = 0
    for (p, q), s in es.items():
        st = ref.sz_basis(n, p, q)
        for j in range(s.eigvals.size):
            for v in (s.eigvecs[:, j], s.eigvecs[:, j:j + 1], np.ascontiguousarray(s.eigvecs[:, j])):
                for sub in (list(range(n)), list(range(n))[::-1], [n] + list(range(1, n))):
                    ax = Axes()
                    cotools.draw_spin_density(at, v, s.states, n, sub, ax, 'xz')
                    w = np.ravel(v) ** 2
                    for sp, colour in ((0, 'black'), (1, 'gray')):
                        occ = [sum(x for x, b in zip(w, st) if b >> (i + sp * n) & 1) for i in range(n)]
                        discs = {d[0]: d[1] for d in ax.discs if d[2] == colour}
                        require(len(discs) == n, '%d %s discs', len(discs), colour)
                        close([discs[tuple(at.positions[i][[0, 2]].tolist())] for i in sub], occ,
                              '%s discs of state %d of sector %s' % (colour, j, (p, q)), 1e-9)
                    k += 1
    return '%d drawings' % k


def body(chk):
    for n in range(1, 17 if THOROUGH else 11):
        for lo in range(0, 1 << n, 512):
            chk.run('representations n=%d from %d' % (n, lo), reps, n, lo, min(1 << n, lo + 512))
    for n in (20, 31, 32):
        chk.run('representations n=%d' % n, lambda n=n: [reps(n, s, s + 1) for k in range(n) for s in (1 << k, (1 << n) - 1 - (1 << k), (1 << k) - 1)])
    chk.run('unknown formats', refuse)
    for n in range(1, 6 if THOROUGH else 5):
        chk.run('kets n=%d' % n, kets, n)
    for n, hop, spin, u, x, p, cut in itertools.product((1, 2, 3), *[(0, 1)] * 6):
        if n == 1 and (hop or x or p) or n == 3 and x + p == 1:
            continue
        H = models.hspin(n, hop) if spin else models.hmat(n, 0, hop)
        U = models.umat(n, 1) * (1. if u else 1 - np.eye(n))
        V = {'U': U, 'Jx': models.jx(n) if x else None, 'Jp': models.jp(n) if p else None} if x or p else U
        for sym in ('sz', 'N') if not hop else ('sz',):
            chk.run('listing n=%d hop%d spin%d u%d x%d p%d cut%d %s' % (n, hop, spin, u, x, p, cut, sym), listing, H, V, sym, cut)
        if not x and not p:
            for sym in ('sz', 'N') if not hop else ('sz',):
                chk.run('chart n=%d hop%d spin%d u%d cut%d %s' % (n, hop, spin, u, cut, sym), chart, n, hop, spin, u, cut, sym)
    for n in range(1, 5):
        chk.run('skeleton n=%d' % n, skeleton, n)
    for n, hop, spin in itertools.product((1, 2, 3), (0, 1), (0, 1)):
        if n > 1 or not hop:
            chk.run('density n=%d hop%d spin%d' % (n, hop, spin), density, n, hop, spin)


main(body, 'C28', 'exploration', 'levels x states x formats x solved systems', exhaustive=True)
