"""C14: answers do not depend on the questions asked before."""
SHARDS = 8
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of all operation sequences up to a depth on the real code, forking the process at every step; whole-state digest and answers compared with those of a fresh process'
NOTE = 'All sequences of length 2 (thorough 3) over 13-27 questions and two screens on 1-3 level systems of both symmetries; the state of the model is the word of screens applied so far, everything else must leave it unchanged. Module-level state is covered because every history runs in its own forked process.'
import contextlib
import io
import itertools
import os
import pickle
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, Mismatch, main, require
env.setup()
import numpy as np
np.seterr(all='ignore')
import warnings
warnings.simplefilter('ignore')
from vlib import models
from edpyt import cotnl, cotunneling, shared, sqtnl, sqtunneling
from edpyt.build_mb_ham import build_mb_ham
from edpyt.eshow import eprint
from edpyt.espace import (adjust_neigsector, build_empty_sector, build_espace, build_non_interacting_espace,
                          get_espace_dim, screen_espace, solve_sector)
from edpyt.gf2_exact import build_gf2_exact
from edpyt.gf2_lanczos import build_gf2_lanczos
from edpyt.gf_exact import build_gf_exact
from edpyt.gf_lanczos import build_gf_lanczos
from edpyt.integrate_gf import integrate_gf, matsum_gf
from edpyt.lanczos import build_sl_tridiag, sl_solve
from edpyt.matvec_product import matvec_operator, todense
from edpyt.observs import get_evecs_occupation, get_occupation

BETA = 1.7
Z = np.array([-1.3, .2, .9])
ETA = .3


class World:
    def __init__(self, H, V, sym, params=()):
        self.H, self.V, self.sym, self.n = H, V, sym, H.shape[-1]
        shared.params.update(dict(params))
        self.espace, self.egs = build_espace(H, V, symmetry=sym)

    def digest(self):
        def arr(a):
            return None if a is None else (a.shape, a.strides, str(a.dtype), a.flags.writeable, a.tobytes())
        V = self.V
        es = [(q, s.d, arr(s.eigvals), arr(s.eigvecs),
               tuple(arr(x) for x in (s.states if isinstance(s.states, tuple) else (s.states,))))
              for q, s in self.espace.items()]
        return (arr(self.H), arr(V) if isinstance(V, np.ndarray) else [(k, arr(v)) for k, v in V.items()],
                sorted((k, v if not isinstance(v, np.ndarray) else arr(v)) for k, v in shared.params.items()), es)

    def gs(self):
        return [q for q, s in self.espace.items() if s.eigvals.min() - self.egs < 1e-9]


def ev(*fs):
    """Values of Green functions now and a way to ask them again."""
    def val():
        out = []
        for f in fs:
            a = f(Z, ETA)
            keep = np.array(a)
            b = np.array(f(Z[::-1] + .1, ETA))
            require(np.array_equal(np.asarray(a), keep), 'values already given change when other frequencies are asked')
            out += [keep, b]
        return out
    return val(), [val]


def table(el):
    one = lambda g: [np.asarray(x) if isinstance(x, (list, np.ndarray)) else x for k, x in sorted(vars(g).items())
                     if isinstance(x, (int, float, tuple, np.ndarray, np.floating, np.integer))]
    return [(repr(k), [one(g) for g in (v if isinstance(v, list) else [v])]) for k, v in sorted(el.items(), key=repr)]


def lanczos(pos, spin, repr_, sep):
    def op(w):
        g = build_gf_lanczos(w.H, w.V, w.espace, BETA, w.egs, pos % w.n, repr_, spin, sep)
        return ev(*g) if sep else ev(g)
    return op


def exact(pos, spin):
    return lambda w: ev(build_gf_exact(w.H, w.V, w.espace, BETA, w.egs, pos % w.n, spin))


def gf2e(spin):
    return lambda w: ev(build_gf2_exact(w.H, w.V, w.espace, BETA, w.egs, spin))


def gf2l(spin, repr_):
    def op(w):
        g = build_gf2_lanczos(w.H, w.V, w.espace, BETA, w.egs, spin, repr_)
        f = [lambda e, eta, i=i, j=j: g[i, j](e, eta) for i in range(w.n) for j in range(i, w.n)]
        return ev(g, *f)
    return op


def matsubara(w):
    g = build_gf_lanczos(w.H, w.V, w.espace, BETA, w.egs, 0)
    f = lambda z: np.asarray(g(z.real + f.mu, z.imag))
    f.mu = .1
    return [matsum_gf(f, m, 20, BETA) for m in (-.4, .3)] + [integrate_gf(f, .2, 1000., 10), f.mu], []


def occupation(w):
    return [get_occupation(w.espace, w.egs, BETA, w.n)], []


def vec_occupation(w):
    return [get_occupation({q: s}, s.eigvals.min(), BETA, w.n) for q, s in w.espace.items()] + \
        [get_evecs_occupation(s.eigvecs, s.states.up, s.states.dw, w.n, np.exp(-BETA * (s.eigvals - w.egs))) for s in w.espace.values()], []


def hamiltonians(w):
    out = []
    for q in list(w.espace):
        s = build_empty_sector(w.n, *q)
        ops = build_mb_ham(w.H, w.V, s)
        mv = matvec_operator(*ops)
        v = np.cos(np.arange(s.d) + 1.)
        a = mv(v)
        keep = np.array(a)
        b = np.array(mv(a))
        require(np.array_equal(a, keep), 'a product already given changes with the next one')
        out += [todense(*ops) if isinstance(ops, tuple) else ops, keep, b]
    return out, []


def reuse(w):
    """Hamiltonian of the retained sector objects themselves."""
    return [matvec_operator(*build_mb_ham(w.H, w.V, s))(np.sin(np.arange(s.d) + .5)) for s in w.espace.values()], []


def resolve(w):
    es, egs = build_espace(w.H, w.V, symmetry=w.sym)
    return [egs] + [(repr(q), s.eigvals, s.eigvecs) for q, s in es.items()], []


def partial(w):
    es, egs = build_espace(w.H, w.V, get_espace_dim(w.n, 1, w.sym), w.sym)
    return [egs] + [(repr(q), s.eigvals, s.eigvecs) for q, s in es.items()], []


def one_sector(w):
    out = []
    for q in list(w.espace):
        s = build_empty_sector(w.n, *q)
        out.append(solve_sector(w.H, w.V, s, min(2, s.d)))
    return out, []


def krylov(w):
    out = []
    for s in w.espace.values():
        mv = matvec_operator(*build_mb_ham(w.H, w.V, s))
        v = np.cos(np.arange(s.d) + .3)
        a, b = build_sl_tridiag(mv, v.copy())
        out += [a.copy(), b.copy()]
    return out, []


def free(w):
    es, egs = build_non_interacting_espace(np.diag(w.H if w.H.ndim == 2 else w.H[0]).copy())
    return [egs] + [(repr(q), s.eigvals) for q, s in es.items()], []


def show(w):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        eprint(w.espace, w.n)
    return [buf.getvalue()], []


def sizes(w):
    neig = get_espace_dim(w.n, 2, 'sz')
    adjust_neigsector(w.espace, neig, w.n)
    return [neig, get_espace_dim(w.n, None, 'sz')], []


A1 = np.array([[.7, -.4, .2], [.3, .9, -.6]])
BIAS = (.4, -.3)


def seq(cutoff):
    def op(w):
        el = sqtunneling.build_transition_elements(w.n, w.egs, w.espace, cutoff)
        return [table(el)] + [x(el, BETA, m, a) for x, m, a in
                              ((sqtunneling.build_rate_matrix, BIAS, A1[:, :w.n]),
                               (sqtunneling.build_transition_matrix, BIAS[0], A1[0, :w.n]))], []
    return op


def values(el, A):
    """Amplitudes of some transitions, evenly spread over the table."""
    ks = sorted(el)
    ks = ks[::1 + len(ks) // 12]
    return [repr(sorted(el))] + [[np.asarray(s(Z, A, 0, 1)) for s in (el[k] if isinstance(el[k], list) else [el[k]])] for k in ks]


def cot(cutoff, rates):
    def op(w):
        el = cotunneling.build_transition_elements(w.n, w.egs, w.espace, cutoff)
        A = A1[:, :w.n]
        out = values(el, A)
        if rates or w.n < 2:
            few = {k: el[k] for k in sorted(el)[:40] + [k for k in sorted(el)[40:] if k[0] == k[1]]}
            out += [cotunneling.build_rate_matrix(few, BETA, BIAS, A, True),
                    cotunneling.build_transition_matrix(few, BETA, BIAS, A, 0, 1, True)]
        return out, []
    return op


def seqN(cutoff):
    def op(w):
        el = sqtnl.build_transition_elements(w.n, w.espace, None, w.egs, cutoff)
        return [table(el), list(sqtnl.build_rate_and_transition_matrices(el, BETA, BIAS, A1[:, :w.n], 0, 1))], []
    return op


def cotN(cutoff):
    def op(w):
        el = cotnl.build_transition_elements(w.n, w.espace, None, w.egs, cutoff)
        A = A1[:, :w.n]
        return values(el, A) + [list(cotnl.build_rate_and_transition_matrices(el, BETA, BIAS, A, 0, 1, 'approximate'))], []
    return op


def screen(beta, cutoff):
    def op(w):
        screen_espace(w.espace, w.egs, beta, cutoff)
        return [], []
    return op


COMMON = {'hamiltonians': hamiltonians, 're-solve': resolve, 'partial solve': partial, 'solve one sector': one_sector,
          'krylov': krylov, 'display': show, 'own hamiltonian': reuse}
SZ = dict(COMMON, **{
    'gf cf 0 up': lanczos(0, 0, 'cf', False), 'gf cf last dw separate': lanczos(-1, 1, 'cf', True),
    'gf sp 0 dw': lanczos(0, 1, 'sp', False), 'gf sp last up separate': lanczos(-1, 0, 'sp', True),
    'gf exact 0 up': exact(0, 0), 'gf exact last dw': exact(-1, 1), 'gf2 exact up': gf2e(0), 'gf2 exact dw': gf2e(1),
    'gf2 cf up': gf2l(0, 'cf'), 'gf2 sp dw': gf2l(1, 'sp'), 'matsubara': matsubara, 'occupation': occupation,
    'occupation by sector': vec_occupation, 'free spectrum': free, 'sector sizes': sizes,
    'sequential': seq(None), 'sequential cut': seq(1.1), 'cotunnelling': cot(None, False), 'cotunnelling cut': cot(.8, True)})
NN = dict(COMMON, **{'sequential': seqN(None), 'sequential cut': seqN(1.1), 'cotunnelling': cotN(None), 'cotunnelling cut': cotN(.8)})
LARGE = {k: v for k, v in SZ.items() if 'cotunn' not in k}
SCREENS = {'SCREEN hot': screen(.8, .2), 'SCREEN cold': screen(40., 1e-3)}


def same(a, b, what):
    if isinstance(a, (list, tuple)):
        require(isinstance(b, (list, tuple)) and len(a) == len(b), '%s: %d parts instead of %d', what, len(b) if hasattr(b, '__len__') else -1, len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, '%s[%d]' % (what, i))
    elif isinstance(a, str):
        require(a == b, '%s: %s instead of %s', what, b, a)
    else:
        x, y = np.asarray(a), np.asarray(b)
        require(x.shape == y.shape, '%s: shape %s instead of %s', what, y.shape, x.shape)
        ok = (x == y) | (np.abs(x - y) <= 1e-9 * (1 + np.abs(x))) if x.dtype != object else np.array([x is y or x == y])
        ok |= (x != x) & (y != y)
        require(np.all(ok), '%s: %s instead of %s', what, y, x)


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x if isinstance(x, str) else np.array(x.todense() if hasattr(x, 'todense') else x, subok=False)


def answer(w, op):
    try:
        got, again = op(w)
        return plain(got), again
    except Mismatch:
        raise
    except Exception as e:
        return ['raises ' + type(e).__name__], []


def forked(fn):
    """Run fn in a copy of this process and return what it returns."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', fn())
                pickle.dumps(out, 2)
            except Mismatch as e:
                out = ('bad', str(e))
            except BaseException:
                out = ('err', traceback.format_exc())
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(out, f, 2)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Mismatch('the process ended')
    kind, val = pickle.loads(data)
    if kind == 'bad':
        raise Mismatch(val)
    if kind == 'err':
        raise RuntimeError(val[-1500:])
    return val


def settle(spec, word):
    """A fresh world on which only the screens of `word` were done."""
    w = World(*spec)
    for s in word:
        SCREENS[s](w)
    return w


def first(spec, ops, word):
    """Digest and, for each question, its answer when asked first."""
    w = settle(spec, word)
    d = w.digest()
    out = {}
    for k in ops:
        out[k] = forked(lambda: answer(w, ops[k])[0])
    return d, out


WANT = {}


def histories(name, spec, ops, start, depth):
    """All sequences of length `depth` that begin with `start`."""
    want = WANT.setdefault(name, {})
    stat = {'states': set(), 'transitions': 0, 'traces': 0}

    def get(word):
        if word not in want:
            want[word] = forked(lambda: first(spec, ops, word))
        return want[word]

    words = [tuple(p) for k in range(depth + 1) for p in itertools.product(SCREENS, repeat=k)]
    # a digest is needed for every word, answers only for words that can precede a question
    for p in words:
        nscreen = sum(s in SCREENS for s in start)
        if p[:min(nscreen, len(p))] == tuple(s for s in start if s in SCREENS)[:len(p)]:
            get(p)
    allops = dict(ops, **SCREENS)

    def step(w, hist, word, old, k):
        """Runs in its own process."""
        trail = ' -> '.join(hist + (k,))
        got, again = answer(w, allops[k])
        if k in SCREENS:
            word = word + (k,)
        else:
            same(want[word][1][k], got, '%s, answer' % trail)
        d = w.digest()
        ref = want[word][0]
        for name, x, y in zip(('H', 'V', 'global settings'), ref, d):
            require(x == y, '%s: %s changed', trail, name)
        require([x[0] for x in ref[3]] == [y[0] for y in d[3]], '%s: sectors are %s instead of %s', trail, [y[0] for y in d[3]], [x[0] for x in ref[3]])
        for x, y in zip(ref[3], d[3]):
            require(x == y, '%s: sector %s changed', trail, x[0])
        for h, fn, val in old:
            same(val, fn(), '%s: the result of %s evaluated later' % (trail, h))
        nt, nl = 1, 0
        hist = hist + (k,)
        old = old + [(k, f, got) for f in again]
        if len(hist) < len(start):
            follow = [start[len(hist)]]
        elif len(hist) < depth:
            follow = list(allops)
        else:
            return nt, 1, {word}
        seen = {word}
        for j in follow:
            t, l, s = forked(lambda: step(w, hist, word, old, j))
            nt, nl, seen = nt + t, nl + l, seen | s
        return nt, nl, seen

    def root():
        w = settle(spec, ())
        return step(w, (), (), [], start[0])
    return forked(root)


def worlds():
    n = 1
    yield '1 level', (np.array([[-.4]]), np.array([[1.3]]), 'sz'), SZ
    yield '1 level two spins', (np.array([[[-.4]], [[.3]]]), np.array([[1.3]]), 'sz'), SZ
    yield '1 level N', (np.array([[[-.4]], [[.3]]]), np.array([[1.3]]), 'N'), NN
    n = 2
    V = {'U': models.umat(n), 'Jx': models.jx(n), 'Jp': models.jp(n)}
    if THOROUGH:
        yield '2 levels', (models.hmat(n), models.umat(n), 'sz'), SZ
    yield '2 levels exchange', (models.hspin(n), V, 'sz'), SZ
    yield '2 levels degenerate, half filled', (models.chain(n, -1.), 2. * np.eye(n), 'sz', {'hfmode': True}), SZ
    yield '2 levels N', (models.hspin(n, False), V, 'N'), NN
    yield '2 levels N shifted', (models.hmat(n, 0, False), models.umat(n), 'N', {'mu': -.3, 'z': np.array([.5, .2])}), NN
    n = 3
    V = {'U': models.umat(n), 'Jx': models.jx(n), 'Jp': models.jp(n)}
    yield '3 levels exchange', (models.hspin(n) - .8 * np.eye(n), V, 'sz'), LARGE
    if THOROUGH:
        yield '3 levels', (models.hmat(n), models.umat(n), 'sz', {'mu': -.7}), LARGE
        yield '3 levels N', (models.hspin(n, False), V, 'N'), NN


def body(chk):
    for name, spec, ops in worlds():
        n = spec[0].shape[-1]
        depth = 2
        if n < 3 and (THOROUGH or n == 1 and 'N' in name):
            depth = 3
        names = list(ops) + list(SCREENS)
        starts = [(a,) for a in names] if depth == 2 else [(a, b) for a in names for b in names]
        for s in starts:
            res = chk.run('%s: %s' % (name, ' -> '.join(s) + ' -> *' * (depth - len(s))), histories, name, spec, ops, s, depth)
            if res:
                chk.count('transitions', res[0])
                chk.count('traces', res[1])
                chk.count('states', len(res[2]))


main(body, 'C14', LEVEL, 'worlds x sequences of questions and screens', exhaustive=True,
     assumptions=['answers are compared to 1e-9, the state bit by bit'])
