"""C02: the ladder operators satisfy the canonical anticommutation relations on every basis state."""
SHARDS = 4
TECHNIQUE = 'exhaustive enumeration of states and operator words (explicit-state), algebra checked on every state'
NOTE = 'All states and mode pairs up to the stated number of modes on the real operators (numba replaced by a Python stand-in); no sign convention is assumed, only the algebra and mutual consistency.'
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, main, require
env.setup()
import numpy as np
from vlib import ref
from edpyt import operators as op

U = np.uint32
NPAIR = 9 if THOROUGH else 7


def step(kind, s, k, n):
    """(sign, state) of the code's operator, or None when it refuses."""
    f = op.cdg if kind == '+' else op.c
    try:
        sg, t = f(U(s), k, n)
    except Exception:
        return None
    return int(sg), int(t)


def table(n):
    t = {}
    for s in range(1 << n):
        for k in range(n):
            t['+', s, k] = step('+', s, k, n)
            t['-', s, k] = step('-', s, k, n)
    return t


def apply(t, vec, kind, k):
    out = {}
    for s, a in vec.items():
        r = t[kind, s, k]
        if r is not None:
            out[r[1]] = out.get(r[1], 0) + a * r[0]
    return {s: a for s, a in out.items() if a}


def add(a, b):
    out = dict(a)
    for s, x in b.items():
        out[s] = out.get(s, 0) + x
    return {s: x for s, x in out.items() if x}


def elementary(n):
    for s in range(1 << n):
        for k in range(n):
            full = (s >> k) & 1
            for kind in '+-':
                r = step(kind, s, k, n)
                legal = (kind == '-') == bool(full)
                require((r is not None) == legal, '%s mode %d on %d: %s', kind, k, s, r)
                if r:
                    require(r[1] == s ^ (1 << k), '%s mode %d on %d gives state %d', kind, k, s, r[1])
                    require(r[0] in (1, -1), 'sign %s', r[0])
            require(bool(op.check_full(U(s), k)) == bool(full), 'number operator %d on %d', k, s)
            require(bool(op.check_empty(U(s), k)) == (not full), 'hole operator %d on %d', k, s)
            require(int(op.n_op(U(s), k)) == full and int(op.ndg_op(U(s), k)) == 1 - full)
    return '%d states' % (1 << n)


def car(n, i, j):
    """{c_i,c+_j} = delta_ij, {c_i,c_j} = {c+_i,c+_j} = 0 on every state."""
    t = table(n)
    for s in range(1 << n):
        v = {s: 1}
        for a, b, want in (('-', '+', {s: 1} if i == j else {}), ('-', '-', {}), ('+', '+', {})):
            w = add(apply(t, apply(t, v, b, j), a, i), apply(t, apply(t, v, a, i), b, j))
            require(w == want, '{%s%d,%s%d}|%d> = %s, expected %s', a, i, b, j, s, w, want)


def hop(n, i, j):
    """The combined hop equals the product c+_i c_j on every state where that is non-zero."""
    k = 0
    for s in range(1 << n):
        if not (s >> j) & 1 or (s >> i) & 1:
            continue
        a, m = op.c(U(s), j, n)
        b, m = op.cdg(m, i, n)
        sg, f = op.cdgc(U(s), i, j)
        require((int(sg), int(f)) == (int(a) * int(b), int(m)), 'hop %d<-%d on %d gives %s, product gives %s',
                i, j, s, (int(sg), int(f)), (int(a) * int(b), int(m)))
        # hermiticity: the reverse hop undoes it with the same sign
        sg2, f2 = op.cdgc(f, j, i)
        require((int(sg2), int(f2)) == (int(sg), s), 'reverse hop %d<-%d on %d', j, i, int(f))
        k += 1
    return '%d hops' % k


def words(n, pat):
    """Longer words equal the reference up to the single unitary relating the two mode orders:
    particle-number conserving words have convention-independent matrix elements."""
    t = table(n)
    for modes in itertools.product(range(n), repeat=len(pat)):
        w = list(zip(pat, modes))
        sg = None
        for s in range(1 << n):
            v = {s: 1}
            for kind, k in reversed(w):
                v = apply(t, v, kind, k)
            r = ref.word(s, w)
            want = {} if r is None else {r[1]: r[0]}
            require(set(v) == set(want), 'word %s on %d reaches %s, expected %s', w, s, v, want)
    # traces are convention free
    for modes in itertools.product(range(n), repeat=len(pat)):
        w = list(zip(pat, modes))
        a = b = 0
        for s in range(1 << n):
            v = {s: 1}
            for kind, k in reversed(w):
                v = apply(t, v, kind, k)
            a += v.get(s, 0)
            r = ref.word(s, w)
            b += r[0] if r is not None and r[1] == s else 0
        require(a == b, 'trace of %s is %d, expected %d', w, a, b)


def edge(n, base):
    """States with bits near the top of the 32-bit word."""
    for k in range(n):
        for j in range(n):
            s = base
            full = (s >> k) & 1
            r = step('-' if full else '+', s, k, n)
            require(r is not None and r[1] == s ^ (1 << k), 'mode %d of %#x (n=%d): %s', k, s, n, r)
            require(step('+' if full else '-', s, k, n) is None, 'illegal move of mode %d accepted on %#x', k, s)
            if j != k and (s >> j) & 1 and not full:
                a, m = op.c(U(s), j, n)
                b, m = op.cdg(U(m), k, n)
                sg, f = op.cdgc(U(s), k, j)
                require((int(sg), int(f)) == (int(a * b), int(m)), 'hop %d<-%d on %#x', k, j, s)
                # anticommutation
                a2, m2 = op.cdg(U(s), k, n)
                b2, m2 = op.c(U(m2), j, n)
                require(int(m2) == int(m) and int(a2 * b2) == -int(a * b), 'c%d c+%d do not anticommute on %#x', j, k, s)


def body(chk):
    for n in range(1, NPAIR + 3):
        chk.run('elementary n=%d' % n, elementary, n)
    for n in range(1, NPAIR + 1):
        for i, j in itertools.product(range(n), repeat=2):
            chk.run('car n=%d i=%d j=%d' % (n, i, j), car, n, i, j)
            chk.run('hop n=%d i=%d j=%d' % (n, i, j), hop, n, i, j, nontrivial=i != j)
    for n in range(1, 5 if THOROUGH else 4):
        for pat in ('+-', '-+', '++--', '+-+-', '-+-+', '--++'):
            chk.run('words n=%d %s' % (n, pat), words, n, pat)
    top = [0x80000000, 0xC0000000, 0xFFFFFFFF, 0x55555555, 0xAAAAAAAA, 0x80000001, 0x7FFFFFFF, 0]
    for b in top:
        chk.run('edge n=32 s=%#x' % b, edge, 32, b)
    for b in (0x40000000, 0x60000000, 0x7FFFFFFF, 0x2AAAAAAA, 0x40000001):
        chk.run('edge n=31 s=%#x' % b, edge, 31, b)


main(body, 'C02', 'exploration',
     'every state and mode pair up to %d modes (elementary action up to %d), all words of length 2 and 4 up to %d modes, '
     'all mode pairs on 32-bit boundary states; a case is non-trivial if the two modes differ or it is not a hop case'
     % (NPAIR, NPAIR + 2, 4 if THOROUGH else 3), exhaustive=True)
