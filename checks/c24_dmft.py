"""C24: the self-consistency loop satisfies its defining equations at every step."""
SHARDS = 8
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of all iteration histories of the real loop over scripted solver, lattice and distance outcomes; equations checked on an enumerated alphabet of impurity and lattice models against exact diagonalisation'
NOTE = 'All histories of up to 4 (thorough 5) iterations over five distance outcomes, all iteration limits, occupation goals and options; all sign patterns of the incoming hybridisation. Impurity models with up to 2 (thorough 3) bath levels, zero temperature ground states.'
import contextlib
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup(optimize=True)
import numpy as np
np.seterr(all='ignore')
from vlib import ref
from edpyt import dmft, fit_cg

TOL = 2. ** -10
STEPS = (0., TOL / 2, TOL, 2 * TOL, 1.)


# -- scripted parts -----------------------------------------------------------
class Imp:
    """Records what it is handed; the self-energy is a token of the solve."""
    def __init__(self, nmats, beta):
        self.nmats, self.beta = nmats, beta
        self.bath, self.level, self.solved = None, None, []
        self.resets = 0

    def fit(self, delta):
        self.bath = np.array(delta)

    def update(self, mu):
        self.level = mu

    def fit_update(self, delta, mu):
        self.fit(delta)
        self.update(mu)

    def reset_bath(self):
        self.resets += 1

    def solve(self):
        self.solved.append((self.bath, self.level))

    def Sigma(self, z):
        return np.full(np.shape(z), len(self.solved), complex)


class Loc:
    ed = .375

    def __init__(self, imp, step, centre):
        self.imp, self.step, self.centre = imp, step, centre
        self.mu, self.sigma = None, None
        self.asked = []

    def update(self, mu):
        self.mu = mu

    def set_local(self, Sigma):
        self.sigma = Sigma

    def integrate(self, mu=None):
        k = max(len(self.imp.solved) - 1, 0)
        mu = self.mu if mu is None else mu
        return np.array([1., 1.]) / (1. + np.exp(-2. * (mu - self.centre[k % len(self.centre)])))

    def Delta(self, z):
        s = self.sigma(np.asarray(z))
        self.asked.append((np.array(z), self.mu, complex(np.ravel(s)[0])))
        return self.step(self.imp.bath, len(self.imp.solved))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def expected_mu(centre, goal):
    # 2/(1+exp(-2(mu-c))) = goal
    return centre - .5 * np.log(2. / goal - 1.)


def history(script, max_iter, adjust, goal):
    """Feed every result back until the loop ends; the outcome is decided by the script alone."""
    nm, beta = 3, 10.
    base = np.array([.5 - 1j, -.25 - .5j, .125 - .25j])
    imp = Imp(nm, beta)
    centre = (-.7, .4, .1, -.2, .9)
    loc = Loc(imp, lambda b, k: b + np.array([0., script[k - 1], 0.]) if k else base, centre)
    d = dmft.DMFT(imp, loc, None if goal is None else np.array([goal]), max_iter=max_iter, tol=TOL, adjust_mu=adjust)
    z = 1j * (2 * np.arange(nm) + 1) * np.pi / beta
    delta = quiet(d.initialize, 1.5, lambda z: 0. * z, mu=.25)
    require(imp.level == .25 - Loc.ed and loc.mu == .25 and imp.resets >= 1, 'initialisation did not set the levels')
    close(delta, base, 'initial hybridisation', 0)
    mu = .25
    out = None
    for k, s in enumerate(script):
        tag = 'iteration %d of %s' % (k, list(script))
        before = delta.copy()
        try:
            new = quiet(d, delta)
        except dmft.Converged:
            out = 'converged'
        except dmft.FailedToConverge:
            out = 'failed'
        require(len(imp.solved) == k + 1, '%s: solved %d times', tag, len(imp.solved))
        bath, level = imp.solved[k]
        close(bath, before, '%s: bath handed to the solver' % tag, 0)
        require(level == mu - Loc.ed, '%s: solver got level %s, expected %s', tag, level, mu - Loc.ed)
        zq, mq, sq = loc.asked[-1]
        close(zq, z, 'frequencies', 1e-13)
        require(sq == k + 1, '%s: hybridisation computed from the self-energy of solve %s', tag, sq)
        if adjust:
            mu = loc.mu
            close(mu, expected_mu(centre[k % len(centre)], goal), '%s: chemical potential' % tag, 1e-6)
        require(loc.mu == mu and mq == mu, '%s: chemical potential is %s, hybridisation used %s, expected %s', tag, loc.mu, mq, mu)
        want = 'converged' if s < TOL else 'failed' if k + 1 > max_iter else None
        require(out == want, '%s: outcome %s, expected %s (limit %d)', tag, out, want, max_iter)
        if out:
            break
        close(new, before + np.array([0., s, 0.]), '%s: new hybridisation' % tag, 0)
        delta = new
    return k + 1


def histories(chk, first, max_iter, adjust, goal, depth):
    n = 0
    for tail in itertools.product(STEPS, repeat=depth - len(first)):
        n += 1
        chk.count('transitions', history(first + tail, max_iter, adjust, goal))
    chk.count('traces', n)
    chk.count('states', n)
    return '%d histories' % n


def noncausal(mask, direct):
    """The solver never sees a hybridisation with positive imaginary part; the rest is left alone."""
    nm = len(mask)
    imp = Imp(nm, 10.)
    loc = Loc(imp, lambda b, k: np.full(nm, .5 - 3j), (0.,))
    d = dmft.DMFT(imp, loc, np.array([1.]), tol=TOL)
    quiet(d.initialize, 1., lambda z: 0. * z)
    delta = np.array([.3 * k - .4 + 1j * {'-': -.7, '0': 0., '+': .9}[m] for k, m in enumerate(mask)])
    quiet(d if direct else d.distance, delta.copy())
    got = imp.solved[0][0]
    close(got.real, delta.real, 'real part', 0)
    for g, m, x in zip(got.imag, mask, delta.imag):
        require(g <= 0., 'the solver was handed imaginary part %g', g)
        require(m == '+' and abs(g) < 1e-6 or g == x, 'imaginary part %g became %g', x, g)


def mixing(method, a, b, max_iter, tol, alpha, walpha):
    """Linear map x -> a x + b: the loop ends exactly at the first evaluation closer than tol, or at the limit."""
    nm = len(b)
    b = np.array(b)
    imp = Imp(nm, 10.)
    loc = Loc(imp, lambda x, k: a * x + b, (0.,))
    d = dmft.DMFT(imp, loc, np.array([1.]), max_iter=max_iter, tol=tol, alpha=walpha)
    loc.set_local(lambda z: 0. * z)
    loc.update(.5)
    x0 = np.array([-1j * (k + 1.) for k in range(nm)])
    try:
        quiet(d.solve, x0.copy(), method, alpha=alpha)
        out = 'returned'
    except dmft.Converged:
        out = 'converged'
    except dmft.FailedToConverge:
        out = 'failed'
    xs = [s[0] for s in imp.solved]
    dist = [np.linalg.norm(a * x + b - x) for x in xs]
    require(len(xs) <= max_iter + 1, '%d evaluations with limit %d', len(xs), max_iter)
    for k, e in enumerate(dist[:-1]):
        require(e >= tol * (1 - 1e-9), 'went on after distance %g at evaluation %d', e, k)
    if dist[-1] < tol * (1 - 1e-9):
        require(out == 'converged', 'distance %g below %g but %s', dist[-1], tol, out)
        close(xs[-1], b / (1 - a), 'fixed point', 2 * tol / abs(1 - a) + 1e-12)
    elif dist[-1] > tol * (1 + 1e-9):
        require(out == 'failed' and len(xs) == max_iter + 1, 'ended %s at distance %g after %d evaluations', out, dist[-1], len(xs))
    close(xs[0], x0, 'first evaluation', 0)
    return '%s after %d' % (out, len(xs))


def weighted(walpha, x):
    nm = len(x)
    imp = Imp(nm, 8.)
    loc = Loc(imp, lambda b, k: .5 * b - .25j, (0.,))
    d = dmft.DMFT(imp, loc, np.array([1.]), tol=1e-12, alpha=walpha)
    loc.set_local(lambda z: 0. * z)
    loc.update(.5)
    x = np.array(x)
    got = quiet(d.distance, x.copy())
    wn = (2 * np.arange(nm) + 1) * np.pi / 8.
    close(got, wn ** -walpha * (.5 * x - .25j - x), 'weighted distance', 1e-12)


# -- impurity -----------------------------------------------------------------
ZS = np.array([-1.3 + .2j, .1 + .3j, .9 + .05j, 2.5 + .7j, .4j, 6j, -.6 + 1.j])
BATHS = [([-.8], [.5]), ([.3], [.4]), ([0.], [.6]),
         ([-.7, .9], [.5, .35]), ([-1., 1.], [.4, .4]), ([-.2, .1], [.3, .6]),
         ([-1.1, .15, .8], [.3, .5, .45])]


def discrete(ek, vk, z):
    return sum(v * v / (z - e) for e, v in zip(ek, vk))


def ground(sp):
    """Indices of the states the solver keeps; None when the gap is too close to the screening threshold."""
    sel, gap = {}, np.inf
    for q, E in sp.E.items():
        k = [i for i, e in enumerate(E) if e - sp.egs < 1e-8]
        gap = min([gap] + [e - sp.egs for e in E if e - sp.egs >= 1e-8])
        if k:
            sel[q] = k
    return sel if gap > 1e-3 else None


def bathcheck(g, H, tag):
    """The Hamiltonian is the star of the fitted parameters."""
    n = H.shape[-1]
    nb = n - 1
    ek, vk = np.array(g.Delta.ek), np.array(g.Delta.vk)
    want = np.zeros((n, n))
    want[0, 0] = H[0, 0]
    want[1:, 1:] = np.diag(ek)
    want[0, 1:] = want[1:, 0] = vk
    close(H, want, '%s: Hamiltonian' % tag, 0)
    close(g.Delta(ZS), discrete(ek, vk, ZS), '%s: hybridisation of the bath' % tag, 1e-12)
    return ek, vk


def exact(H, U, spin):
    n = H.shape[-1]
    V = np.zeros((n, n))
    V[0, 0] = U
    sp = ref.Spectrum(ref.Model(H, V))
    sel = ground(sp)
    if sel is None:
        return None
    e, h = sp.gf(0., 0, 0, spin, ZS, initial=sel)
    return e + h


def poles_occupation(H, U, spins, kT):
    """Sum over the Lehmann poles weighted with the Fermi function at temperature kT."""
    n = H.shape[-1]
    V = np.zeros((n, n))
    V[0, 0] = U
    sp = ref.Spectrum(ref.Model(H, V))
    sel = ground(sp)
    tot, Z = 0., 0.
    for q, idx in sel.items():
        Z += len(idx)
        for s in spins:
            for kind, sg in (('+', 1), ('-', -1)):
                t = (q[0] + sg, q[1]) if s == 0 else (q[0], q[1] + sg)
                if t not in sp.E:
                    continue
                A = sp.U[t].T.dot(ref.ladder(sp.states[t], sp.states[q], s * n, kind)).dot(sp.U[q][:, idx])
                D = sg * (sp.E[t][:, None] - sp.E[q][idx][None, :])
                tot += sum(w * ref.fermi(x / kT) for w, x in zip((A ** 2).ravel(), D.ravel()))
    return tot / Z


KT = 300. * 8.617333262e-5


def impurity(n, U, mus, baths, spin, neig):
    """A history of fits, level updates and solves of one impurity object."""
    nm, beta = 12, 9.
    zf = 1j * (2 * np.arange(nm) + 1) * np.pi / beta
    g = dmft.Gfimp(n, nmats=nm, U=U, beta=beta, neig=None if neig is None else neig(n), spin=spin)
    done = 0
    for mu, (ek, vk) in zip(mus, baths):
        delta = discrete(ek, vk, zf)
        err0 = np.linalg.norm(g.Delta(zf) - delta)
        g.fit(delta.copy())
        err1 = np.linalg.norm(g.Delta(zf) - delta)
        require(err1 <= err0 * (1 + 1e-9) + 1e-12, 'the fit increased the error from %g to %g', err0, err1)
        g.update(mu)
        tag = 'mu %s bath %s' % (mu, (ek, vk))
        require(g.mu == mu and g.H[0, 0] == -mu, '%s: level', tag)
        e, v = bathcheck(g, g.H, tag)
        require(g.V[0, 0] == U and np.count_nonzero(g.V) == (U != 0), '%s: interaction %s', tag, g.V.tolist())
        g0 = 1. / (ZS + mu - discrete(e, v, ZS))
        close(g.free(ZS), g0, '%s: free function' % tag, 1e-11)
        close(g.free(ZS, inverse=True), 1 / g0, '%s: inverse free function' % tag, 1e-11)
        H0 = g.H.copy()
        g.solve()
        require(np.array_equal(g.H, H0), '%s: solving changed the Hamiltonian', tag)
        G = exact(g.H, U, spin)
        if G is None:
            continue
        done += 1
        close(g(ZS), G, "%s: impurity Green's function" % tag, 1e-7)
        S = 1 / g0 - 1 / G
        close(g.Sigma(ZS), S, '%s: self-energy' % tag, 1e-6)
        require(np.all(g.Sigma(ZS).imag <= 1e-8) and np.all(g(ZS).imag < 0), '%s: not causal', tag)
        close(np.ravel(g(ZS[0]))[0], G[0], '%s: at a single frequency' % tag, 1e-7)
        close(np.ravel(g.integrate())[0], 2 * poles_occupation(g.H, U, (spin,), KT), '%s: occupation' % tag, 2e-4)
    return '%d solves compared' % done


def spin_impurity(n, U, mu, up, dw, field, symmetrize):
    nm, beta = 12, 9.
    zf = 1j * (2 * np.arange(nm) + 1) * np.pi / beta
    g = dmft.SpinGfimp(n, nmats=nm, U=U, beta=beta)
    g.fit_update(np.array([discrete(*up, zf), discrete(*dw, zf)]), mu)
    require(g.mu == mu and g.up.mu == mu and g.dw.mu == mu, 'levels')
    if symmetrize:
        g.spin_symmetrize()
        require(np.array_equal(g.H[0], g.H[1]) and np.array_equal(g.up.Delta.x, g.dw.Delta.x), 'spins differ after symmetrising')
        keep = g.up.Delta.x.copy()
        g.dw.Delta.x[0] += 0.
    g.up.update(mu + field)
    g.dw.update(mu - field)
    for s, part in enumerate(g):
        require(np.shares_memory(part.H, g.H) and np.array_equal(part.H, g.H[s]), 'spin part %d has its own Hamiltonian', s)
        bathcheck(part, g.H[s], 'spin %d' % s)
    require(g.H[0, 0, 0] == -(mu + field) and g.H[1, 0, 0] == -(mu - field), 'levels in the field')
    g.solve()
    Gs = [exact(g.H, U, s) for s in (0, 1)]
    if Gs[0] is None:
        return 'gap too small'
    S = g.Sigma(ZS)
    for s, part in enumerate(g):
        close(part(ZS), Gs[s], "Green's function of spin %d" % s, 1e-7)
        close(S[s], ZS - g.H[s, 0, 0] - discrete(part.ek, part.vk, ZS) - 1 / Gs[s], 'self-energy of spin %d' % s, 1e-6)
    close(np.ravel(g.integrate())[0], poles_occupation(g.H, U, (0, 1), KT), 'occupation', 2e-4)


def spin_history(first, depth, n=2):
    """All sequences of operations on one spin-resolved impurity; each spin owns its parameters at every step."""
    nm, beta = 6, 9.
    zf = 1j * (2 * np.arange(nm) + 1) * np.pi / beta
    pairs = [(BATHS[0], BATHS[1]), (BATHS[2], BATHS[5])]
    tgt = [np.array([discrete(*u, zf), discrete(*d, zf)]) for u, d in pairs]
    fitted = {}
    original = fit_cg.fit_hybrid

    def remembered(p, nmats, vals, beta):
        """The fit itself, each problem minimised once."""
        key = p.tobytes() + np.asarray(vals).tobytes() + b'%d %r' % (nmats, beta)
        if key not in fitted:
            y = p.copy()
            original(y, nmats, np.array(vals), beta)
            fitted[key] = y
        p[:] = fitted[key]

    def refit(x, delta):
        y = x.copy()
        remembered(y, nm, delta, beta)
        return y
    if getattr(dmft, 'fit_hybrid', None) is original:
        dmft.fit_hybrid = remembered
    try:
        return spin_sequences(first, depth, n, nm, beta, zf, tgt, refit)
    finally:
        if getattr(dmft, 'fit_hybrid', None) is remembered:
            dmft.fit_hybrid = original


def spin_sequences(first, depth, n, nm, beta, zf, tgt, refit):
    initial = np.empty(2 * n - 2)
    fit_cg.get_initial_bath(p=initial)
    k = 0
    for rest in itertools.product(SPINOPS, repeat=depth - 1):
        g = dmft.SpinGfimp(n, nmats=nm, U=1., beta=beta)
        x, H = [initial.copy(), initial.copy()], np.zeros((2, n, n))

        def take(s, delta):
            x[s] = refit(x[s], delta)
            H[s, 1:, 0] = H[s, 0, 1:] = x[s][n - 1:]
            H[s].flat[n + 1::n + 1] = x[s][:n - 1]
        for i, o in enumerate((first,) + rest):
            if o[:4] == 'fit ' and o[4:] in '01':
                g.fit(tgt[int(o[4:])].copy())
                for s in (0, 1):
                    take(s, tgt[int(o[4:])][s])
            elif o == 'fit up':
                g.up.fit(tgt[1][0].copy())
                take(0, tgt[1][0])
            elif o == 'fit and level':
                g.fit_update(tgt[0][::-1].copy(), .3 + i)
                for s in (0, 1):
                    take(s, tgt[0][1 - s])
                H[:, 0, 0] = -.3 - i
            elif o == 'symmetrise':
                g.spin_symmetrize()
                x[1], H[1] = x[0].copy(), H[0]
            elif o == 'level':
                g.update(.7 - i)
                H[:, 0, 0] = i - .7
            elif o == 'level dw':
                g.dw.update(.1 + i)
                H[1, 0, 0] = -.1 - i
            else:
                g.reset_bath()
                x = [initial.copy(), initial.copy()]
            tag = ' -> '.join(((first,) + rest)[:i + 1])
            close(g.H, H, '%s: Hamiltonian' % tag, 1e-12)
            for s, part in enumerate(g):
                close(part.Delta.x, x[s], '%s: bath of spin %d' % (tag, s), 1e-12)
                close(part.Delta(ZS), discrete(x[s][:n - 1], x[s][n - 1:], ZS), '%s: hybridisation of spin %d' % (tag, s), 1e-12)
                close(part.free(ZS), 1 / (ZS - H[s, 0, 0] - discrete(x[s][:n - 1], x[s][n - 1:], ZS)), '%s: free function of spin %d' % (tag, s), 1e-10)
                require(part.mu == -H[s, 0, 0], '%s: level of spin %d', tag, s)
        k += 1
    return k


SPINOPS = ('fit 0', 'fit 1', 'fit up', 'fit and level', 'symmetrise', 'level', 'level dw', 'reset')


def spin_histories(chk, first, depth):
    k = spin_history(first, depth)
    chk.count('traces', k)
    chk.count('transitions', k * depth)
    return '%d histories' % k


# -- lattice ------------------------------------------------------------------
SIGMAS = {'zero': lambda z: 0. * z, 'constant': lambda z: .6 + 0. * z, 'pole': lambda z: .4 + .5 / (z - .2),
          'two poles': lambda z: .3 / (z + .7) + .2 / (z - 1.1)}
DOS = [([0.], [1.]), ([-.5, .5], [.5, .5]), ([-1., .2, .7], [.2, .5, .3])]


def hilbert(e, w):
    e, w = np.array(e), np.array(w)
    return lambda z: (w / (np.asarray(z)[..., None] - e)).sum(-1)


def lattice(kind, sig, mu, k):
    S = SIGMAS[sig]
    if kind == 'hybrid':
        ek, vk = BATHS[k]
        hyb = lambda z: discrete(ek, vk, z)
        L = dmft.Gfhybrid(hyb)
        G = 1 / (ZS + mu - hyb(ZS) - S(ZS))
        G0 = 1 / (ZS + mu - hyb(ZS))
    else:
        L = dmft.Gfhilbert(hilbert(*DOS[k]))
        G, G0 = hilbert(*DOS[k])(ZS + mu - S(ZS)), hilbert(*DOS[k])(ZS + mu)
    L.update(mu)
    L.set_local(S)
    close(L(ZS), G, 'lattice function', 1e-12)
    close(L(ZS, inverse=True), 1 / G, 'inverse lattice function', 1e-11)
    close(L.free(ZS), G0, 'free lattice function', 1e-12)
    close(L.free(ZS, inverse=True), 1 / G0, 'inverse free lattice function', 1e-11)
    close(L.Weiss(ZS), 1 / G + S(ZS), 'Weiss field', 1e-11)
    D = ZS + mu - S(ZS) - 1 / G
    close(L.Delta(ZS), D, 'hybridisation', 1e-11)
    require(np.all(L.Delta(ZS).imag <= 1e-10), 'hybridisation is not causal')
    L.update(mu + .5)
    require(L.mu == mu + .5, 'update')


def bethe(x, y):
    """Semicircular band of half-width 1: G = 1/(z - G/4), decaying and causal."""
    z = complex(x, y)
    G = dmft.ht(z)
    w = complex(x, y if y > 0 else 1e-20)
    close(G * (w - G / 4), 1., 'semicircle equation', 1e-9)
    require(G.imag <= 1e-12 and abs(G) <= 2 + 1e-9, 'G(%s) = %s', z, G)


def adjust(levels, weights, goal, shape):
    """Chemical potential of a set of poles."""
    kT = .3

    class L(dmft.Gfhybrid):
        def integrate(self, mu=0.):
            v = np.array([w / (1 + np.exp((e - mu) / kT)) for e, w in zip(levels, weights)])
            return v if shape else v.sum()
    mu = dmft.adjust_mu(L(None), np.array(goal))
    tot = sum(w / (1 + np.exp((e - mu) / kT)) for e, w in zip(levels, weights))
    close(tot, np.sum(goal), 'occupation', 1e-8)


# -- whole loop ---------------------------------------------------------------
def lattice_of(kind, k):
    base = dmft.Gfhybrid if kind == 'hybrid' else dmft.Gfhilbert

    class L(base):
        ed = .2

        def integrate(self, mu=0.):
            old, self.mu = self.mu, mu
            try:
                return 2. * np.ravel(dmft.integrate_gf(self, 0., T=3000))
            finally:
                self.mu = old
    return L((lambda z: discrete(*BATHS[k], z)) if kind == 'hybrid' else hilbert(*DOS[k]))


def loop(kind, k, n, U, adj, goal, iters, entry):
    nm, beta = 10, 7.
    log = []

    class I(dmft.Gfimp):
        def fit(self, delta):
            log.append(['fit', np.array(delta)])
            super().fit(delta)

        def solve(self):
            log.append(['solve', self.H.copy(), self.Delta.x.copy()])
            super().solve()
    g, L = I(n, nmats=nm, U=U, beta=beta), lattice_of(kind, k)
    d = dmft.DMFT(g, L, None if goal is None else np.array([goal]), max_iter=iters, tol=1e-14, adjust_mu=adj)
    z = d.z
    close(z, 1j * (2 * np.arange(nm) + 1) * np.pi / beta, 'frequencies', 1e-12)
    delta = quiet(d.initialize, U, SIGMAS['zero'])
    close(L.mu, U / 2., 'default chemical potential', 0)
    close(delta, z + L.mu - 1 / L(z), 'initial hybridisation', 1e-11)
    for it in range(iters):
        mu0 = L.mu
        del log[:]
        try:
            if entry == 'call':
                new = quiet(d, delta.copy())
            elif entry == 'step':
                new = quiet(d.step, delta.copy())[1]
            else:
                new = delta + quiet(d.distance, delta.copy())
        except dmft.Converged:
            break
        kinds = [e[0] for e in log]
        require(kinds == ['fit', 'solve'], 'iteration %d: %s', it, kinds)
        want = np.where(delta.imag > 0, delta.real - 1e-20j, delta) if entry != 'step' else delta
        close(log[0][1], want, 'iteration %d: hybridisation fitted' % it, 1e-14)
        H, x = log[1][1:]
        nb = n - 1
        close(np.diag(H)[1:], x[:nb], 'bath levels', 0)
        close(H[0, 1:], x[nb:], 'bath couplings', 0)
        close(H[0, 0], -(mu0 - L.ed), 'iteration %d: impurity level' % it, 1e-12)
        G = exact(H, U, 0)
        if G is not None:
            S = ZS - H[0, 0] - discrete(x[:nb], x[nb:], ZS) - 1 / G
            close(L.Sigma(ZS), S, 'iteration %d: self-energy of the lattice' % it, 1e-6)
            close(1 / g(ZS), ZS - H[0, 0] - discrete(x[:nb], x[nb:], ZS) - S, 'iteration %d: Dyson equation' % it, 1e-6)
        if adj:
            close(np.sum(L.integrate(L.mu)), goal, 'iteration %d: occupation' % it, 1e-6)
        else:
            require(L.mu == mu0, 'chemical potential moved from %s to %s', mu0, L.mu)
        Sz = L.Sigma(z)
        if kind == 'hybrid':
            Gz = 1 / (z + L.mu - discrete(*BATHS[k], z) - Sz)
        else:
            Gz = hilbert(*DOS[k])(z + L.mu - Sz)
        close(new, z + L.mu - Sz - 1 / Gz, 'iteration %d: new hybridisation' % it, 1e-8)
        require(np.all(new.imag <= 1e-7), 'iteration %d: new hybridisation is not causal', it)
        delta = new
    return 'level %.6f' % L.mu


def starts(U, mus, sig, kind, k, spin):
    """Every sequence of starts on one loop: levels, bath, self-energy and hybridisation are those of the last one."""
    nm, beta, n = 6, 7., 3
    g = (dmft.SpinGfimp if spin else dmft.Gfimp)(n, nmats=nm, U=U, beta=beta)
    L = lattice_of(kind, k)
    d = dmft.DMFT(g, L, np.array([1.]))
    for mu in mus:
        for x in [h.Delta.x for h in g]:
            x[:] = 7.
        out = quiet(d.initialize, U, SIGMAS[sig], mu) if mu is not None else quiet(d.initialize, U, SIGMAS[sig])
        m = U / 2 if mu is None else mu
        close(L.mu, m, 'chemical potential of start %s' % mu, 0)
        for s, h in enumerate(g):
            close(h.H[0, 0], -(m - L.ed), 'impurity level of start %s' % mu, 1e-14)
            x = h.Delta.x
            require(np.all(np.abs(x) < 7.), 'bath not reset: %s', x)
        S = SIGMAS[sig](d.z)
        if kind == 'hybrid':
            G = 1 / (d.z + m - discrete(*BATHS[k], d.z) - S)
        else:
            G = hilbert(*DOS[k])(d.z + m - S)
        close(out, d.z + m - S - 1 / G, 'hybridisation of start %s' % mu, 1e-9)
    return 'level %g' % L.mu


def magnetic(n, U, sign, field, mu, k):
    nm, beta = 10, 7.
    g, L = dmft.SpinGfimp(n, nmats=nm, U=U, beta=beta), lattice_of('hybrid', k)
    d = dmft.DMFT(g, L, np.array([1.]))
    zero = SIGMAS['zero']
    out = quiet(d.initialize_magnetic, U, zero, sign, field, mu)
    m = U / 2 if mu is None else mu
    close(g.H[0, 0, 0], -(m + sign * field - L.ed), 'up level', 1e-12)
    close(g.H[1, 0, 0], -(m - sign * field - L.ed), 'down level', 1e-12)
    require(np.array_equal(g.H[0, 1:], g.H[1, 1:]) and np.array_equal(g.up.Delta.x, g.dw.Delta.x), 'baths differ')
    bathcheck(g.up, g.H[0], 'up')
    bathcheck(g.dw, g.H[1], 'down')
    Gs = [exact(g.H, U, s) for s in (0, 1)]
    if Gs[0] is not None:
        S = L.Sigma(ZS)
        for s in (0, 1):
            close(S[s], ZS - g.H[s, 0, 0] - discrete(g[s].ek, g[s].vk, ZS) - 1 / Gs[s], 'self-energy of spin %d' % s, 1e-6)
    z = d.z
    require(out.shape == (2, nm), 'hybridisation has shape %s', out.shape)
    close(out, np.stack([discrete(*BATHS[k], z)] * 2), 'hybridisation', 1e-8)


def body(chk):
    depth = 5 if THOROUGH else 4
    for adj, goal in ((False, None), (False, 1.), (True, 1.), (True, .5), (True, 1.6)):
        for mx in (0, 1, 2, 3, 20):
            for a, b in itertools.product(STEPS, repeat=2):
                if adj and goal != 1. and (a < TOL or mx not in (2, 20)):
                    continue
                chk.run('history adjust=%s goal=%s limit=%d steps %g %g *' % (adj, goal, mx, a / TOL, b / TOL),
                        histories, chk, (a, b), mx, adj, goal, depth)
    for nm in (1, 2, 3, 4):
        for mask in itertools.product('-0+', repeat=nm):
            for direct in (True, False):
                chk.run('signs %s %s' % (''.join(mask), direct), noncausal, mask, direct)
    for method in ('linear', 'broyden'):
        for a in (0., .5, -.5, .9, -2.):
            for b in ((-.5j, .2 - 1j), (-1j, -.1j, .3 - .4j)):
                for mx in (0, 1, 2, 5, 40):
                    for tol in (1e-3, 1e-1, 10.):
                        for w in (0., .5):
                            chk.run('mixing %s a=%g size=%d limit=%d tol=%g weight=%g' % (method, a, len(b), mx, tol, w),
                                    mixing, method, a, b, mx, tol, .5, w)
    for w in (0., .5, 1., 2.):
        for x in ((-1j,), (.3 - 1j, -.2 - .5j), (0j, -.25j, 1 - 2j)):
            chk.run('weights %g %s' % (w, x), weighted, w, x)
    full = lambda n: None
    for n in (2, 3) + ((4,) if THOROUGH else ()):
        own = [b for b in BATHS if len(b[0]) <= n - 1]
        for U in (0., 1.3, 3.):
            for mu in (-.4, .25, U / 2, 1.7):
                for b in own:
                    for spin in (0, 1):
                        chk.run('impurity n=%d U=%g mu=%g bath %s spin %d' % (n, U, mu, b, spin), impurity, n, U, (mu,), (b,), spin, None)
            for b1, b2 in itertools.permutations(own[-3:], 2):
                chk.run('impurity n=%d U=%g %s then %s' % (n, U, b1, b2), impurity, n, U, (.6, -.2, .9), (b1, b2, b1), 0, None)
            for b1, b2 in itertools.permutations(own[-3:], 2):
                for field in (0., .3):
                    for sym in (False, True):
                        chk.run('spins n=%d U=%g %s %s field %g %s' % (n, U, b1, b2, field, sym), spin_impurity, n, U, .55, b1, b2, field, sym)
    for first in SPINOPS:
        chk.run('operations on both spins, first %s' % first, spin_histories, chk, first, 4 if not THOROUGH else 5)
    for sig in SIGMAS:
        for mu in (-.7, 0., .45):
            for k in range(6):
                chk.run('hybridisation lattice %s mu=%g %d' % (sig, mu, k), lattice, 'hybrid', sig, mu, k)
            for k in range(3):
                chk.run('hilbert lattice %s mu=%g %d' % (sig, mu, k), lattice, 'hilbert', sig, mu, k)
    for x in (-3., -1., -.5, -.01, 0., .3, .99, 1., 2.):
        for y in (-.5, 0., 1e-3, .2, 5.):
            chk.run('bethe %g %g' % (x, y), bethe, x, y)
    for levels in ((0.,), (-1., 1.), (-2., .3, 1.5), (-7., -6.5, 8.)):
        for w in itertools.product((1., 2.), repeat=len(levels)):
            for f in (.2, .5, .83):
                for shape in (False, True):
                    goal = [f * sum(w)] if not shape else [f * x for x in w]
                    chk.run('adjust %s %s %g %s' % (levels, w, f, shape), adjust, levels, w, goal, shape)
    values = (None, 0., 0, -.6, np.float64(0.), 1.1)
    for U in (0., 2., -1.5):
        for mus in itertools.product(values, repeat=2):
            for sig in SIGMAS:
                for kind, k in (('hybrid', 3), ('hilbert', 1)):
                    for spin in (False, True):
                        chk.run('starts U=%g %s %s %s spin%d' % (U, [repr(m) for m in mus], sig, kind, spin), starts, U, mus, sig, kind, k, spin)
    for kind, ks in (('hybrid', range(3, 6)), ('hilbert', range(3))):
        for k in ks:
            for n in (2, 3):
                for U in (1.3, 3.):
                    for adj, goal in ((False, None), (False, 1.), (True, 1.), (True, .7), (True, 1.5)):
                        if kind == 'hilbert' and goal in (.7, 1.5) and (n, U) != (2, 1.3) and not THOROUGH:
                            continue
                        for entry in ('call', 'step', 'distance') if not adj else ('call',):
                            chk.run('loop %s %d n=%d U=%g adjust=%s goal=%s %s' % (kind, k, n, U, adj, goal, entry), loop, kind, k, n, U,
                                    adj, goal, 3 if THOROUGH else 2, entry)
    for n in (2, 3):
        for U in (0., 2.1):
            for sign in (1, -1):
                for field in (0., .15):
                    for mu in (None, .35, 0.):
                        for k in (0, 4):
                            chk.run('magnetic n=%d U=%g sign %d field %g mu=%s %d' % (n, U, sign, field, mu, k), magnetic, n, U, sign, field, mu, k)


main(body, 'C24', LEVEL, 'histories of outcomes; impurity, lattice and loop models', exhaustive=True,
     assumptions=['scripted distances are exactly representable'])
