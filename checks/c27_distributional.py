"""C27: the distributional solver averages exactly over its accepted samples."""
SHARDS = 8
TECHNIQUE = 'exhaustive exploration of accept/reject histories of the sampling loops, driven through the public random-number argument, against a reference that diagonalises the Hamiltonian of each sample'
LEVEL = 'model_checking'
NOTE = 'All histories of up to 4 (thorough 5) draws for two poles, 2 (thorough 4) otherwise, over two accepted and two rejected samples; 1 to 3 poles more than impurities, one and two impurities, scalar/matrix/dictionary interactions, several temperatures; both copies of the library.'
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env, ref
from vlib.core import THOROUGH, close, main, require
env.setup(optimize=True)
import numpy as np
np.seterr(all='ignore')
from edpyt import dedlib, dedlib_dev

for _m in (dedlib, dedlib_dev):
    if hasattr(_m, 'cumsum'):      # stands for the compiled loop, which is not available here
        _m.cumsum = lambda a: np.cumsum(a, out=a)

S = .05         # unit of energy: the mesh has a million points per 1
M = 100001
ZS = S * np.array([-1. + .3j, -.4 + .05j, .1 + .2j, .55 + 1.j, 1. + .4j])
flat = np.ones_like
GRID = [S * e for e in (-.93, -.71, -.42, -.18, .07, .31, .58, .86)]


class Rng:
    def __init__(self, energies):
        self.values = [(round((e / S + 1) * (M - 1) / 2) + .5) / M for e in energies]
        self.used = 0

    def random(self):
        require(self.used < len(self.values), 'more random numbers drawn than the accepted samples need')
        self.used += 1
        return self.values[self.used - 1]


def interlace(p):
    n = len(p)
    u = np.linalg.qr(np.column_stack([np.ones(n) / np.sqrt(n), np.eye(n)[:, :n - 1]]))[0][:, 1:]
    return np.linalg.eigvalsh((u.T * np.array(p)).dot(u)) if n > 1 else np.zeros(0)


def star(p):
    """Levels and couplings of the chain-free (star) bath with the same non-interacting function."""
    ek = interlace(p)
    n = len(p)
    vk2 = np.array([n / sum(1 / (e - x) ** 2 for x in p) for e in ek])
    return np.mean(p), ek, vk2


def assemble(sets):
    k, nb = len(sets), len(sets[0]) - 1
    n = k * (nb + 1)
    H = np.zeros((n, n))
    for i, p in enumerate(sets):
        e0, ek, vk2 = star(p)
        H[i, i] = e0
        for j in range(nb):
            b = k + i * nb + j
            H[b, b] = ek[j]
            H[i, b] = H[b, i] = -np.sqrt(vk2[j])
    return H


_memo = {}


def spectrum(H, V, Jx=None):
    key = (H.tobytes(), V.tobytes(), None if Jx is None else Jx.tobytes())
    if key not in _memo:
        _memo[key] = ref.Spectrum(ref.Model(H, V, Jx))
    return _memo[key]


def ground(s):
    """Sectors of the ground state and the distance to everything else."""
    q = [k for k, e in s.E.items() if e[0] - s.egs < 1e-7]
    rest = [x - s.egs for e in s.E.values() for x in e if x - s.egs >= 1e-7]
    mult = sum(int(np.sum(e - s.egs < 1e-7)) for e in s.E.values())
    return q, mult, min(rest)


def thermal(E, beta):
    w = np.exp(-beta * E)
    return np.log(w.sum()) + beta * (w * E).sum() / w.sum()


class Sample:
    """What one sample contributes."""

    def __init__(self, p, U, sigma0, beta):
        n = len(p)
        self.p = p
        H = assemble([p])
        V = np.zeros((n, n))
        s0 = spectrum(H, V)
        q0, m0, gap0 = ground(s0)
        V = V.copy()
        V[0, 0] = U
        H = H.copy()
        H[0, 0] -= sigma0
        s1 = spectrum(H, V)
        q1, m1, gap1 = ground(s1)
        self.clear = m0 == 1 and gap0 > 1e-3 * S and gap1 > 1e-3 * S and (m1 == 1 or q1[0] != q0[0])
        self.accepted = m1 == 1 and q1 == q0
        occ = lambda s, q: sum(x[0] for x in s.occupation(1., {q: [0]}))
        self.occ0, self.occ1 = occ(s0, q0[0]), occ(s1, q1[0])
        self.filling = sum(q1[0])
        if self.accepted:
            G = sum(s1.gf(beta, 0, 0, 0, ZS))
            G0 = (1. / (ZS[:, None] - np.array(p)[None])).sum(1) / n
            self.sigma = 1 / G0 - 1 / G
            ek = star(p)[1]
            levels = np.array([sum(c) for c in itertools.product(*[(0., e) for e in list(ek) * 2])])
            self.entropy = thermal(np.concatenate([e - s1.egs for e in s1.E.values()]), beta) - thermal(levels - levels.min(), beta)


def letters(n, U, sigma0, beta):
    """Two accepted and two rejected samples (fewer when there are none), as different as the grid offers."""
    acc, rej = [], []
    for p in itertools.combinations(GRID, n):
        s = Sample(p, U, sigma0, beta)
        if s.clear:
            (acc if s.accepted else rej).append(s)
    acc.sort(key=lambda s: s.occ1)
    return ([acc[0], acc[-1]] if len(acc) > 1 else acc), ([rej[0], rej[-1]] if len(rej) > 1 else rej)


def words(accepted, rejected, depth):
    """Histories that end with an acceptance."""
    for k in range(1, depth + 1):
        for w in itertools.product(range(accepted + rejected), repeat=k):
            if w[-1] < accepted:
                yield w


def untouched(f, *a, **k):
    state = random.getstate()
    r = f(*a, **k)
    require(random.getstate() == state, 'the global random state was used although a generator was given')
    return r


def single(chk, lib, n, U, sigma0, beta, word, default):
    L = LIB1[lib]
    acc, rej = pool(n, U, sigma0, beta)
    alphabet = acc + rej
    seq = [alphabet[i] for i in word]
    good = [s for s in seq if s.accepted]
    draws = [e for k, s in enumerate(seq) for e in (s.p if k % 2 else s.p[::-1])]
    kw = dict(n=n, N=len(good), U=U, beta=beta)
    if not default:
        kw['sigma0'] = sigma0
    mean = lambda a: sum(a) / len(good)
    want = [mean([s.sigma for s in good]), mean([s.occ0 for s in good]), mean([s.occ1 for s in good]), mean([s.entropy for s in good])]
    names = ('self-energy', 'non-interacting occupation', 'interacting occupation', 'entropy')
    got = {}
    for mode in ('returned', 'garbage', 'again') if THOROUGH or len(word) < 3 else ('returned',):
        rng = Rng(draws)
        z = ZS.copy()
        if mode == 'garbage':
            out = np.full(ZS.size, 7. - 3j)
            r = untouched(L, flat, z, out, rng=rng, **kw)
            require(len(r) == 3, '%d values returned', len(r))
            r = (out,) + tuple(r)
        else:
            r = untouched(L, flat, z, rng=rng, **kw)
            require(len(r) == 4, '%d values returned', len(r))
        require(rng.used == len(draws), '%d of %d random numbers used', rng.used, len(draws))
        require(np.array_equal(z, ZS), 'frequencies were changed')
        got[mode] = r
        chk.count('transitions', len(seq))
        for a, b, name in zip(r, want, names):
            close(a, b, '%s (%s)' % (name, mode), 2e-6, 2e-6)
    for a, b, c, name in zip(*([got[k] for k in got] + [names])) if len(got) == 3 else ():
        require(np.array_equal(a, b) and np.array_equal(a, c), '%s differs between runs of the same history', name)
    chk.count('traces')
    return '%d accepted of %d' % (len(good), len(seq))


LIB1 = {'dedlib': dedlib.siam_solve, 'dedlib_dev': dedlib_dev.ded_solve}
LIB2 = {'dedlib': dedlib.moam_solve, 'dedlib_dev': dedlib_dev.ded_solve_multi}
_pool = {}


def pool(*key):
    if key not in _pool:
        _pool[key] = letters(*key)
    return _pool[key]


# -- several impurities -------------------------------------------------------
class Joint:
    """Contributions of a joint sample to each impurity, from the Hamiltonian of all of them together."""

    def __init__(self, sets, U, sigma0, beta):
        k = len(sets)
        self.draws = [e for p in sets for e in p[::-1]]
        H = assemble(sets)
        n = len(H)
        pad = lambda a: np.pad(np.asarray(a, float), (0, n - k), 'constant')
        s0 = spectrum(H, np.zeros((n, n)))
        q0, m0, gap0 = ground(s0)
        H = H.copy()
        for i in range(k):
            H[i, i] -= np.broadcast_to(sigma0, k)[i]
        Jx = None
        if isinstance(U, dict):
            V = pad(U['U'])
            Jx = pad(U['Jx']) if 'Jx' in U else None
        else:
            V = pad(U * np.eye(k) if np.isscalar(U) else U)
        s1 = spectrum(H, V, Jx)
        q1, m1, gap1 = ground(s1)
        nb = n // k - 1
        sub = [[i] + list(range(k + i * nb, k + (i + 1) * nb)) for i in range(k)]
        first = lambda s, q: np.sum(s.occupation(1., {q: [0]}), axis=0)
        o0, o1 = first(s0, q0[0]), first(s1, q1[0])
        N0, N1 = [o0[x].sum() for x in sub], [o1[x].sum() for x in sub]
        d = [abs(a - b) for a, b in zip(N0, N1)]
        # clear-cut: unique ground state without interaction; with it unique or a single spin doublet
        self.clear = (m0 == 1 and gap0 > 1e-3 * S and gap1 > 1e-3 * S and (m1 == 1 or (m1 == 2 and len(q1) == 2))
                      and all(x < 1e-9 or x > 1e-2 for x in d))
        self.accepted = [x < 1e-9 for x in d]
        self.occ0, self.occ1 = o0[:k], o1[:k]
        if self.clear and any(self.accepted):
            self.sigma = []
            for i, p in enumerate(sets):
                if self.accepted[i]:
                    G0 = (1. / (ZS[:, None] - np.array(p)[None])).sum(1) / len(p)
                    self.sigma.append(1 / G0 - 1 / sum(s1.gf(beta, i, i, 0, ZS)))
                else:
                    self.sigma.append(None)


def joint_letters(nb, U, sigma0, beta, how):
    """One sample per distinct pattern of acceptance, up to two for patterns that accept."""
    found = {}
    k = how
    sets = list(itertools.combinations(GRID, nb + 1))
    sets = sets[::max(1, len(sets) // 12)]
    for c in itertools.product(sets, repeat=k):
        if len(set(c)) < k:
            continue
        s = Joint(c, U, sigma0, beta)
        if not s.clear:
            continue
        f = found.setdefault(tuple(s.accepted), [])
        if len(f) < (2 if all(s.accepted) else 1):
            f.append(s)
        if len(found) == 2 ** k and len(found[(True,) * k]) == 2:
            break
    return [s for pat in sorted(found, reverse=True) for s in found[pat]]


_joint = {}


def jpool(name, nb, beta):
    if (name, nb, beta) not in _joint:
        U, sigma0, k = MODELS[name]
        _joint[name, nb, beta] = joint_letters(nb, U, 0.5 * U if sigma0 is None else sigma0, beta, k)
    return _joint[name, nb, beta]


MODELS = {
    'one, default shift': (1.3 * S, None, 1),
    'one, shifted': (1.3 * S, 1.1 * S, 1),
    'one, shifted up': (.9 * S, -.1 * S, 1),
    'two, default shift': (1.3 * S, None, 2),
    'two, shifted': (1.3 * S, 1.1 * S, 2),
    'two, own shifts': (1.3 * S, S * np.array([1.1, .6]), 2),
    'two, unequal': (S * np.diag([1.3, .7]), S * np.array([.65, .9]), 2),
    'two, density': (S * np.array([[1.3, .4], [.4, 1.1]]), S * np.array([.85, .95]), 2),
    'two, exchange': ({'U': S * np.array([[1.3, .4], [.4, 1.3]]), 'Jx': S * np.array([[0., .15], [.15, 0.]])}, .9 * S, 2),
}


def several(chk, lib, name, nb, beta, word):
    L = LIB2[lib]
    U, sigma0, k = MODELS[name]
    alphabet = jpool(name, nb, beta)
    seq = [alphabet[i] for i in word]
    steps = [s for s in seq if any(s.accepted)]
    draws = [e for s in seq for e in s.draws]
    kw = dict(n=k * (nb + 1), N=len(steps), U=U, beta=beta)
    if sigma0 is not None:
        kw['sigma0'] = sigma0
    want = [np.zeros((k, ZS.size), complex), np.zeros(k), np.zeros(k)]
    for i in range(k):
        mine = [s for s in steps if s.accepted[i]]
        if mine:
            want[0][i] = sum(s.sigma[i] for s in mine) / len(mine)
            want[1][i] = sum(s.occ0[i] for s in mine) / len(mine)
            want[2][i] = sum(s.occ1[i] for s in mine) / len(mine)
    names = ('self-energy', 'non-interacting occupation', 'interacting occupation')
    for mode in ('returned', 'garbage') if THOROUGH or len(word) < 2 else ('returned',):
        rng = Rng(draws)
        if mode == 'garbage':
            out = np.full((k, ZS.size), -2. + 5j)
            r = (out,) + tuple(untouched(L, [flat] * k, ZS.copy(), out, rng=rng, **kw))
        else:
            r = untouched(L, [flat] * k, ZS.copy(), rng=rng, **kw)
        require(rng.used == len(draws), '%d of %d random numbers used', rng.used, len(draws))
        chk.count('transitions', len(seq))
        for a, b, nm in zip(r, want, names):
            close(a, b, '%s (%s)' % (nm, mode), 5e-6, 5e-6)
        if lib == 'dedlib':
            require(len(r) == 4 and r[3] == 0., 'entropy %s', r[3:])
    for x in U.values() if isinstance(U, dict) else [U]:
        require(np.array_equal(x, np.array(x)), 'interaction was changed')
    chk.count('traces')
    return '%s' % [s.accepted for s in seq]


def body(chk):
    depth = 5 if THOROUGH else 4
    for n in (2, 3) + ((4,) if THOROUGH else ()):
        for U, sigma0 in ((1.3 * S, None), (1.3 * S, 1.1 * S), (.9 * S, -.1 * S), (0., .4 * S)):
            for beta in (1e7, 50. / S, 3. / S):
                s0 = U / 2 if sigma0 is None else sigma0
                acc, rej = pool(n, U, s0, beta)
                require(acc, 'no accepted samples')
                chk.count('states', len(acc) + len(rej))
                for w in words(len(acc), len(rej), depth if n < 3 else depth - 1 if THOROUGH else 2):
                    chk.run('siam_solve n=%d U=%g sigma0=%s beta=%g history %s' % (n, U, sigma0, beta, w),
                            single, chk, 'dedlib', n, U, s0, beta, w, sigma0 is None)
                    if n == 2 and beta == 1e7:
                        chk.run('ded_solve n=%d U=%g sigma0=%s beta=%g history %s' % (n, U, sigma0, beta, w),
                                single, chk, 'dedlib_dev', n, U, s0, beta, w, sigma0 is None)
    for name, (U, sigma0, k) in MODELS.items():
        for nb in (1,) if k == 2 else (1, 2):
            for beta in (1e7, 20. / S) if not THOROUGH else (1e7, 50. / S, 20. / S):
                alphabet = jpool(name, nb, beta)
                require(any(all(s.accepted) for s in alphabet), 'no accepted samples')
                chk.count('states', len(alphabet))
                for d in range(1, depth if THOROUGH else depth - 1 if beta == 1e7 else 2):
                    for w in itertools.product(range(len(alphabet)), repeat=d):
                        if any(alphabet[w[-1]].accepted):
                            for lib in ('dedlib', 'dedlib_dev') if beta == 1e7 else ('dedlib',):
                                chk.run('%s %s, %d bath levels, beta=%g history %s' % (LIB2[lib].__name__, name, nb, beta, w),
                                        several, chk, lib, name, nb, beta, w)


main(body, 'C27', 'model_checking', 'accept/reject histories of the sampling loops', exhaustive=True,
     assumptions=['samples at a degeneracy between two fillings are not used', 'each step of the multi-impurity loop ends when at least one impurity accepts'])
