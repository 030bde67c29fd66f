"""C01: Fock bases, index maps and sector arithmetic, against enumeration of all bit strings."""
SHARDS = 2
TECHNIQUE = 'exhaustive enumeration of all states, sectors and moves against bit-level reference (explicit-state)'
NOTE = 'Every state, lookup, sector and move up to the stated sizes on the real code; numba is replaced by a plain-Python stand-in, so native integer widths are those of numpy scalars.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
import numpy as np
from vlib import ref
from edpyt import lookup, sector, espace

NMAX = 14 if THOROUGH else 10


def basis(n, p):
    want = ref.basis(n, p)
    got = sector.generate_states(n, p)
    require(got.dtype == np.uint32, 'basis has dtype %s' % got.dtype)
    require(got.tolist() == want, 'basis(%d,%d) = %s, expected %s', n, p, got.tolist()[:20], want[:20])
    for k, s in enumerate(got):
        require(int(lookup.binsearch(got, s)) == k, 'state %d is not found at %d', int(s), k)
        require(int(lookup.count_bits(s, n)) == p, 'count_bits(%d)', int(s))
    return '%d states' % len(want)


def wide(n, p):
    """Bases too wide to enumerate all n-bit numbers: combinations give the same set."""
    want = sorted(sum(1 << k for k in c) for c in itertools.combinations(range(n), p))
    got = sector.generate_states(n, p)
    require(got.tolist() == want, 'basis(%d,%d) differs', n, p)
    for k in range(0, len(want), max(1, len(want) // 50)):
        require(int(lookup.binsearch(got, got[k])) == k)
        require(int(lookup.count_bits(got[k], n)) == p)


def absent(n, p):
    got = sector.generate_states(n, p)
    inside = set(ref.basis(n, p))
    for s in range(1 << n):
        k = int(lookup.binsearch(got, np.uint32(s)))
        require((k >= 0) == (s in inside), 'binsearch(%d) in basis(%d,%d) -> %d', s, n, p, k)
        if s in inside:
            require(int(got[k]) == s)
    for s in (1 << n, (1 << 31), (1 << 32) - 1):
        if s not in inside:
            require(int(lookup.binsearch(got, np.uint32(s))) == -1, 'found foreign state %d', s)


def arrays(vals):
    """Lookup in any sorted array of distinct states."""
    a = np.array(vals, np.uint32)
    for s in range(8):
        k = int(lookup.binsearch(a, np.uint32(s)))
        require(k == (vals.index(s) if s in vals else -1), 'binsearch(%s, %d) = %d', vals, s, k)


def counts(n):
    for s in range(1 << n):
        for m in range(n + 1):
            require(int(lookup.count_bits(np.uint32(s), m)) == ref.popcount(s & ((1 << m) - 1)),
                    'count_bits(%d,%d)', s, m)


def indices(dup, dwn):
    seen = set()
    for iup, idw in itertools.product(range(dup), range(dwn)):
        i = int(lookup.get_state_index(iup, idw, dup))
        require(i == iup + dup * idw, 'index of (%d,%d) is %d', iup, idw, i)
        seen.add(i)
        back = tuple(int(x) for x in lookup.get_spin_indices(i, dup, dwn))
        require(back == (iup, idw), 'spin indices of %d are %s', i, back)
    require(seen == set(range(dup * dwn)))


def sectors(n):
    seen = set()
    dims = []
    for nup, ndw in itertools.product(range(n + 1), repeat=2):
        k = int(lookup.get_sector_index(n, nup, ndw))
        require(0 <= k < (n + 1) ** 2)
        seen.add(k)
        require(tuple(int(x) for x in lookup.get_num_spins(k, n)) == (nup, ndw), 'sector %d', k)
        d = int(sector.get_sector_dim(n, nup, ndw))
        require(d == len(ref.basis(n, nup)) * len(ref.basis(n, ndw)), 'dim(%d;%d,%d)=%d', n, nup, ndw, d)
        dims.append(d)
        sct = espace.build_empty_sector(n, nup, ndw)
        require(sct.d == d)
        require(sct.states.up.tolist() == ref.basis(n, nup) and sct.states.dw.tolist() == ref.basis(n, ndw))
    require(len(seen) == (n + 1) ** 2, 'sector indices collide')
    require(sum(dims) == 4 ** n)
    for cap in (None, 1, 2, 3, 7, 1000):
        got = espace.get_espace_dim(n, cap)
        want = [min(d, cap) if cap else d for d in dims]
        require([int(x) for x in got] == want, 'espace dims (cap %s)', cap)
    if n <= 6:
        for p in range(2 * n + 1):
            sct = espace.build_empty_sector(n, p)
            require(sct.states.tolist() == ref.basis(2 * n, p) and sct.d == len(ref.basis(2 * n, p)))
        for cap in (None, 2):
            got = espace.get_espace_dim(n, cap, symmetry='N')
            want = [len(ref.basis(2 * n, p)) for p in range(2 * n + 1)]
            require([int(x) for x in got] == [min(d, cap) if cap else d for d in want])


def large(n):
    """Sizes and indices of sectors too large to hold: exact as long as a double is."""
    from math import comb
    dims = [comb(n, a) * comb(n, b) for a in range(n + 1) for b in range(n + 1)]
    got = espace.get_espace_dim(n)
    require([int(x) for x in got] == dims, 'dimensions of the sectors of %d levels: %s', n,
            [(k, int(g), w) for k, (g, w) in enumerate(zip(got, dims)) if int(g) != w][:3])
    for a, b in itertools.product(range(n + 1), repeat=2):
        d = sector.get_sector_dim(n, a, b)
        require(int(d) == comb(n, a) * comb(n, b), 'dimension of (%d;%d,%d) is %s', n, a, b, d)
        k = int(lookup.get_sector_index(n, a, b))
        require(tuple(int(x) for x in lookup.get_num_spins(k, n)) == (a, b), 'sector %d', k)
    got = espace.get_espace_dim(n // 2, symmetry='N')
    require([int(x) for x in got] == [comb(n // 2 * 2, p) for p in range(n // 2 * 2 + 1)], 'dimensions by particle number')
    for a in range(n + 1):
        dup, dwn = comb(n, a), comb(n, n // 2)
        for iup in {0, 1 % dup, dup // 2, dup - 1}:
            for idw in {0, 1 % dwn, dwn // 3, dwn - 1}:
                i = int(lookup.get_state_index(iup, idw, dup))
                require(i == iup + dup * idw, 'index of (%d,%d) in %d x %d is %d', iup, idw, dup, dwn, i)
                require(tuple(int(x) for x in lookup.get_spin_indices(i, dup, dwn)) == (iup, idw), 'spin indices of %d', i)


def neighbours(n):
    for nup, ndw, sp in itertools.product(range(n + 1), range(n + 1), range(2)):
        for f, step, args in ((sector.get_cdg_sector, 1, (n, nup, ndw, sp)), (sector.get_c_sector, -1, (nup, ndw, sp))):
            want = (nup + step * (sp == 0), ndw + step * (sp == 1))
            legal = all(0 <= x <= n for x in want)
            try:
                got = tuple(int(x) for x in f(*args))
            except sector.OutOfHilbertError:
                require(not legal, '%s%s refused a legal move', f.__name__, args)
            else:
                require(legal, '%s%s left the Hilbert space', f.__name__, args)
                require(got == want, '%s%s = %s', f.__name__, args, got)
    for bad in (-1, 2, 5):
        for f, args in ((sector.get_cdg_sector, (n, 0, 0, bad)), (sector.get_c_sector, (1, 1, bad))):
            try:
                f(*args)
            except sector.OutOfHilbertError:
                raise AssertionError('spin %d taken for an empty neighbour' % bad)
            except Exception:
                continue
            raise AssertionError('spin %d accepted' % bad)


def body(chk):
    for n in range(1, NMAX + 1):
        for p in range(n + 1):
            chk.run('basis n=%d p=%d' % (n, p), basis, n, p)
    for n, p in [(31, 1), (31, 2), (32, 1), (32, 2), (32, 3), (20, 3), (24, 22), (32, 31), (32, 32), (31, 31), (31, 30),
                 (32, 30), (30, 27)]:
        chk.run('wide n=%d p=%d' % (n, p), wide, n, p)
    for n in range(1, min(NMAX, 9) + 1):
        for p in range(n + 1):
            chk.run('absent n=%d p=%d' % (n, p), absent, n, p)
    for r in range(0, 9 if THOROUGH else 7):
        for c in itertools.combinations(range(8), r):
            chk.run('array %s' % (c,), arrays, list(c), nontrivial=r > 0)
    for n in range(1, 11):
        chk.run('counts n=%d' % n, counts, n)
    for a, b in itertools.product(range(1, 13), repeat=2):
        chk.run('indices %d x %d' % (a, b), indices, a, b)
    for n in range(1, 29):
        chk.run('large n=%d' % n, large, n)
    for n in range(1, 9):
        chk.run('sectors n=%d' % n, sectors, n)
        chk.run('neighbours n=%d' % n, neighbours, n)


main(body, 'C01', 'exploration',
     'every (n,p) basis up to n=%d by comparison with all n-bit numbers, wide bases up to n=32 by combinations, every '
     'lookup of a present or absent state, every sector and neighbour up to n=8; a case is non-trivial unless the '
     'array is empty' % NMAX, exhaustive=True)
