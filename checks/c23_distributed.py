"""C23: distributed runs equal serial runs under every order of arrival at the collectives."""
SHARDS = 8
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of all arrival orders of coroutine ranks running the real code over a simulated communicator; the communicator is bound to Open MPI by replaying the same programs under mpirun'
NOTE = 'All arrival orders for 2-3 ranks and one transpose, product or occupation (thorough: 4 ranks); for recursions and more ranks all schedules with a bounded number of deviations from rank order. All divisors of every square sector up to 4 levels (thorough 5). Ranks hold private copies of the Python modules. Reductions associate in arrival order.'
import itertools
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env
from vlib.core import THOROUGH, close, main, require
env.setup()
from vlib import simmpi
simmpi.ensure()
import numpy as np
np.seterr(all='ignore')
from vlib import models, mpiprogs, ref
MODULES = simmpi.Modules(['edpyt.vector_transpose', 'edpyt.matvec_product', 'edpyt.lanczos', 'edpyt.observs',
                          'edpyt.build_mb_ham', 'edpyt.espace', 'edpyt._psparse'])
from edpyt.build_mb_ham import build_mb_ham
from edpyt.espace import build_empty_sector
from edpyt.lanczos import build_sl_tridiag, sl_solve
from edpyt.matvec_product import matvec_operator
from edpyt.tridiag import egs_tridiag


def everything(chk, p, prog, args, compare, deviations=None):
    """compare(results) on every schedule; all schedules must issue the same collectives."""
    n, logs = 0, set()
    for res, log, trace in simmpi.explore(p, lambda comm: getattr(mpiprogs, prog)(comm, *args), MODULES, deviations):
        n += 1
        logs.add(tuple(log))
        sched = [t[0] for t in trace]
        chk.count('transitions', len(trace))
        chk.count('states', len(log) + 1)
        bad = [r for r in res if r[0] == 'raised']
        if bad:
            require(len(bad) == p and len(set(bad)) == 1, 'schedule %s: outcomes %s', sched, res)
            compare(bad[0], None)
        else:
            try:
                compare(None, [r[1] for r in res])
            except AssertionError as e:
                raise type(e)('%s (schedule %s)' % (e, ''.join(map(str, sched[:400]))))
    require(len(logs) == 1, 'the sequence of collectives depends on the schedule: %s', sorted(logs))
    chk.count('traces', n)
    return '%d schedules, collectives %s' % (n, '+'.join(sorted(set(next(iter(logs))))))


def equal(parts, want, what, axis=0, tol=1e-12):
    close(np.concatenate([np.asarray(x) for x in parts], axis=axis), want, what, tol)


# -- transposes ---------------------------------------------------------------
def transpose(chk, p, m, dtype, batches, deviations):
    n = p * m
    A = np.arange(n * n).reshape(n, n)
    A = (A * (1 + 2j) if np.dtype(dtype).kind == 'c' else A).astype(dtype)

    def compare(bad, res):
        require(bad is None, '%s', bad)
        for k in range(batches):
            B = A + k
            for r in range(p):
                d, u, d2, u2 = res[r][4 * k:4 * k + 4]
                for got, want, what in ((d, B[:, r * m:(r + 1) * m], 'collect_dw'), (u, B[r * m:(r + 1) * m], 'collect_up(collect_dw)'),
                                        (d2, B[:, r * m:(r + 1) * m], 'collect_dw after collect_up'),
                                        (u2, B[r * m:(r + 1) * m], 'collect_up')):
                    require(got.dtype == np.dtype(dtype) and got.shape == want.shape and np.array_equal(got, want),
                            '%s on rank %d of %d: got %s, expected %s', what, r, p, got.tolist(), want.tolist())
    return everything(chk, p, 'transpose', (m, dtype, batches), compare, deviations)


# -- products -----------------------------------------------------------------
def serial(H, V, q):
    sct = build_empty_sector(H.shape[-1], *q)
    ops = build_mb_ham(H, V, sct)
    return matvec_operator(*ops), sct


def vectors(d):
    yield np.array([((7 * i + 3) % 11 - 5.3) / 7. for i in range(d)])
    for i in range(d):
        yield np.eye(d)[i]


def product(chk, H, V, q, p, deviations, nvec):
    mv, sct = serial(H, V, q)
    vs = list(itertools.islice(vectors(sct.d), nvec))
    M = ref.Model(H, V).h(*q) if hasattr(ref.Model, 'h') else None
    want = [mv(v) for v in vs]

    def compare(bad, res):
        require(bad is None, '%s', bad)
        for k, v in enumerate(vs):
            equal([r[k][0] for r in res], want[k], 'distributed product of vector %d' % k)
            require(all(r[k][1] for r in res), 'the product changed its input')
    return everything(chk, p, 'matvec', (H, V, q, vs), compare, deviations)


def refused(chk, H, V, q, p, exc):
    def compare(bad, res):
        require(bad is not None and bad[1] == exc, 'expected %s on every rank, got %s', exc, bad or 'a product')
    return everything(chk, p, 'matvec', (H, V, q, [np.ones(p)]), compare, 1)


# -- recursion ----------------------------------------------------------------
def recursion(chk, H, V, q, p, v0, deviations, kw):
    mv, sct = serial(H, V, q)
    try:
        a, b = build_sl_tridiag(mv, v0.copy(), **kw)
        exc = None
    except Exception as e:
        exc = type(e).__name__
    if exc is None:
        m = len(a)
        for k in range(1, m):
            if abs(b[k]) < 1e-6:
                m = k
                break
        egs = egs_tridiag(a, b[1:]) if len(a) > 1 else a[0]
        # rounding is amplified once Ritz values converge: the recursions are compared step by step before that
        m = min(m, 6)

    def compare(bad, res):
        if exc is not None:
            require(bad is not None and bad[1] == exc, 'serial raises %s, distributed %s', exc, bad or 'returns')
            return
        require(bad is None, '%s', bad)
        for x, y in res[1:]:
            require(np.array_equal(x, res[0][0]) and np.array_equal(y, res[0][1]), 'ranks hold different coefficients')
        x, y = res[0]
        require(len(x) == len(y) and len(x) >= m, 'distributed recursion stopped after %d of %d steps', len(x), m)
        close(x[:m], a[:m], 'diagonal', 1e-7)
        close(y[:m], b[:m], 'off-diagonal', 1e-7)
        if m < 6 and m < len(a) and m < len(x):
            require(abs(y[m]) < 1e-5, 'the breakdown at step %d is missing: %g', m, y[m])
        elif m == len(a):
            require(len(x) == m or abs(y[m]) < 1e-5, 'distributed recursion has %d steps, serial %d', len(x), m)
        if 'maxn' not in kw:
            close(egs_tridiag(x, y[1:]) if len(x) > 1 else x[0], egs, 'lowest Ritz value', 1e-7)
    out = everything(chk, p, 'lanczos', (H, V, q, v0, kw), compare, deviations)
    if exc is None and p > 1:
        A, B = a[:m].copy(), b[:m].copy()
        for opt in ({}, {'select': 2, 'select_range': (0, 0)}, {'select': 2, 'select_range': (0, m - 1)}, {'eigvals_only': True}):
            want = sl_solve(mv, A.copy(), B.copy(), v0.copy(), **opt)

            def same(bad, res):
                require(bad is None, '%s', bad)
                if opt.get('eigvals_only'):
                    for r in res:
                        close(r, want, 'Ritz values', 1e-9)
                    return
                for r in res:
                    close(r[0], want[0], 'Ritz values', 1e-9)
                equal([r[1] for r in res], want[1], 'Ritz vectors %s' % opt, tol=1e-6)
            everything(chk, p, 'ritz', (H, V, q, v0, A, B, opt), same, 1 if m < 4 else 0)
    return out


def one_step(chk, H, V, q, p, deviations):
    mv, sct = serial(H, V, q)
    v = next(vectors(sct.d))
    l = np.array([((5 * i + 1) % 7 - 3.1) / 9. for i in range(sct.d)])
    b = np.linalg.norm(v)
    u = v / b
    w = mv(u)
    a = u.dot(w)
    w = w - a * u - b * l

    def compare(bad, res):
        require(bad is None, '%s', bad)
        for r in res:
            close(r[0], a, 'diagonal of one step', 1e-12)
            close(r[1], b, 'norm of one step', 1e-12)
        equal([r[2] for r in res], u, 'normalised vector')
        equal([r[3] for r in res], w, 'next vector')
    return everything(chk, p, 'step', (H, V, q, v, l), compare, deviations)


# -- occupations --------------------------------------------------------------
def occupations(chk, n, q, p, X, coeffs, order, deviations):
    s = build_empty_sector(n, *q)
    st = ref.sz_basis(n, *q)
    N = np.array([[(x >> i) & 1 for x in st] for i in range(2 * n)], float).reshape(2 * n, -1)
    c = np.ones(X.shape[1]) if coeffs is None else coeffs
    want = N.dot(X ** 2) * c

    def compare(bad, res):
        require(bad is None, '%s', bad)
        for nu, nd in res:
            close(nu, want[:n], 'up occupation', 1e-12)
            close(nd, want[n:], 'down occupation', 1e-12)
    return everything(chk, p, 'occupation', (n, q, X, coeffs, order), compare, deviations)


# -- conformance with Open MPI -------------------------------------------------
def replay(chk, p, jobs):
    """The same programs under mpirun: the simulated communicator must give what MPI gives."""
    mpirun = shutil.which('mpirun')
    if not (mpirun and simmpi.real_mpi_starts()):
        return 'no working mpirun here: not replayed'
    d = tempfile.mkdtemp(prefix='c23-')
    try:
        with open(os.path.join(d, 'in'), 'wb') as f:
            pickle.dump(jobs, f)
        cmd = [mpirun, '--allow-run-as-root', '--oversubscribe', '-n', str(p), sys.executable, '-m', 'vlib.mpiprogs',
               os.path.join(d, 'in'), os.path.join(d, 'out')]
        e = dict(os.environ, OMPI_MCA_btl='self,tcp,vader', OMPI_MCA_rmaps_base_oversubscribe='1')
        try:
            r = subprocess.run(cmd, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=e, timeout=150,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            code = r.returncode
        except subprocess.TimeoutExpired:
            code = -1
        files = [os.path.join(d, 'out.%d' % k) for k in range(p)]
        if code != 0 or not all(map(os.path.exists, files)):
            chk.count('mpirun_failed')
            return 'mpirun failed (%s): not replayed' % code
        real = [pickle.load(open(f, 'rb')) for f in files]
    finally:
        shutil.rmtree(d, ignore_errors=True)

    def cmp(a, b, what):
        if isinstance(a, (tuple, list)):
            require(len(a) == len(b), '%s: lengths', what)
            for x, y in zip(a, b):
                cmp(x, y, what)
        else:
            a, b = np.asarray(a), np.asarray(b)
            close(a + 0, b + 0, what, 1e-10) if a.dtype != bool else require(np.array_equal(a, b), '%s', what)
    for k, (name, args) in enumerate(jobs):
        sim = next(simmpi.explore(p, lambda comm: getattr(mpiprogs, name)(comm, *args), MODULES))[0]
        for r in range(p):
            require(sim[r][0] == 'value', 'simulated rank raised where MPI did not: %s', sim[r])
            cmp(sim[r][1], real[r][k], 'Open MPI against the simulated communicator, %s on rank %d of %d' % (name, r, p))
        chk.count('traces')
        chk.count('mpirun_replays')
    return '%d programs agree with Open MPI on %d ranks' % (len(jobs), p)


def divisors(d):
    return [p for p in range(1, d + 1) if d % p == 0]


def kinds(n):
    yield 'spinless', models.hmat(n), models.umat(n)
    yield 'two spins', models.hspin(n), models.umat(n)
    if THOROUGH:
        yield 'diagonal', models.hspin(n, False), models.umat(n, False)
        yield 'chain', models.chain(n, -1.), 2. * np.eye(n)


def body(chk):
    full = 4 if THOROUGH else 3
    for p in range(1, 7 if not THOROUGH else 9):
        for m in range(1, 5 if p < 5 else 3):
            for dt in ('f8', 'c16', 'i8'):
                # four collectives: all orders of 3 ranks are 6^5
                dev = None if p <= 2 or p <= 3 and dt == 'f8' and (m == 2 or THOROUGH) else (3 if THOROUGH else 2 if dt == 'f8' else 1) if p <= 4 else 1
                chk.run('transpose p=%d m=%d %s' % (p, m, dt), transpose, chk, p, m, dt, 1, dev)
        if p <= 3:
            chk.run('transpose p=%d twice' % p, transpose, chk, p, 2, 'f8', 2, None if p < 3 else 3)
    top = 5 if THOROUGH else 4
    for n in range(2, top + 1):
        sq = [(a, b) for a in range(n + 1) for b in range(n + 1)]
        import math
        C = [math.comb(n, k) for k in range(n + 1)]
        for q in sq:
            dup, dwn = C[q[0]], C[q[1]]
            for name, H, V in kinds(n):
                tag = '%d levels %s sector %s' % (n, name, q)
                if dup != dwn:
                    if name == 'two spins':
                        chk.run('%s p=2 refused' % tag, refused, chk, H, V, q, 2, 'NotImplementedError')
                    continue
                for p in range(2, 5):
                    if dup % p and name == 'two spins':
                        chk.run('%s p=%d refused' % (tag, p), refused, chk, H, V, q, p, 'ValueError')
                for p in divisors(dup):
                    if p > (6 if not THOROUGH else 12):
                        continue
                    key = '%s p=%d' % (tag, p)
                    d = dup * dwn
                    dev = None if p <= 2 else (None if p == 3 and n <= 3 and name == 'two spins' else 2)
                    if p <= full and p > 1:
                        chk.run('%s product' % key, product, chk, H, V, q, p, dev, 1)
                    chk.run('%s products of all unit vectors' % key, product, chk, H, V, q, p, 1 if p == 2 and d <= 16 or THOROUGH and d <= 16 else 0, d + 1)
                    chk.run('%s one step' % key, one_step, chk, H, V, q, p, 3 if p == 2 else 2 if p < 5 else 1)
                    for k, v0 in enumerate(itertools.islice(vectors(d), 2 if d > 9 else d + 1)):
                        for kw in ({}, {'maxn': 3}, {'maxn': 6}) if d > 5 else ({}, {'maxn': 3}):
                            if not kw and (k or p > 3):
                                continue
                            dev = (2 if p == 2 and d <= 9 and k < 2 else 1 if d <= 9 or k == 0 and p <= 3 else 0) if kw else 0
                            chk.run('%s start %d %s' % (key, k, kw or ''), recursion, chk, H, V, q, p, v0, dev, kw)
                    chk.run('%s zero start' % key, recursion, chk, H, V, q, p, np.zeros(d), 1, {})
                    if name == 'two spins':
                        X = np.linalg.qr(np.array([[((3 * i * i + 5 * j * i + j) % 13 - 6) / 5. + (i == j) for j in range(d)] for i in range(d)]))[0]
                        for nev in sorted({1, min(d, 3), d}):
                            for coeffs in (None, np.linspace(.2, 1.3, nev)):
                                for order in 'CF':
                                    chk.run('%s occupation of %d %s %s' % (key, nev, order, coeffs is not None), occupations, chk, n, q, p,
                                            X[:, :nev], coeffs, order, None if p <= 2 or p == 3 and nev == 1 else 2 if p < 5 else 1)
    for p in (1, 2, 3):
        jobs = []
        for m in (1, 2):
            for dt in ('f8', 'c16', 'i8'):
                jobs.append(('transpose', (m, dt, 2)))
        for n, q in ((2, (1, 1)), (3, (1, 2)), (4, (2, 2))):
            H, V = models.hspin(n), models.umat(n)
            d = build_empty_sector(n, *q).d
            if int(round(d ** .5)) % p:
                continue
            v = next(vectors(d))
            jobs.append(('matvec', (H, V, q, [v, np.eye(d)[-1]])))
            jobs.append(('lanczos', (H, V, q, v, {'maxn': 4})))
            mv, _ = serial(H, V, q)
            a, b = build_sl_tridiag(mv, v.copy(), maxn=4)
            jobs.append(('ritz', (H, V, q, v, a, b, {})))
            X = np.linalg.qr(np.array([[((3 * i * i + 5 * j * i + j) % 13 - 6) / 5. + (i == j) for j in range(d)] for i in range(d)]))[0]
            jobs.append(('occupation', (n, q, X[:, :2], np.array([.3, .9]), 'C')))
        chk.run('Open MPI p=%d' % p, replay, chk, p, jobs)


main(body, 'C23', LEVEL, 'ranks x sectors x arrival orders', exhaustive=True,
     assumptions=['a collective completes when every rank has arrived; ranks share no memory'])
