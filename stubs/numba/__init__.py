"""Minimal pure-Python stand-in for numba (not installed in this sandbox).

The functions that edpyt hands to numba are ordinary Python; running them
interpreted gives the semantics the JIT is meant to reproduce.  `prange` is a
plain range unless a check installs a schedule (numba.set_prange_schedule), in
which case its iterations are visited in the order the check chooses: numba
makes no promise about that order.
"""
import functools
import itertools
import re
import numpy as np

from . import types
from .types import _Type

__version__ = '0.55.0'
config = type('config', (), {})()

_schedule = None


def set_prange_schedule(f):
    """f(n, depth) -> permutation of range(n), or None for program order."""
    global _schedule
    _schedule = f


def prange(*args):
    r = range(*args)
    if _schedule is None:
        return r
    order = _schedule(len(r))
    if order is None:
        return r
    assert sorted(order) == list(range(len(r)))
    return [r[i] for i in order]


def _mark(f):
    try:
        f.py_func = f
    except AttributeError:
        pass
    return f


_parallel_hook = None


def set_parallel_hook(h):
    """h(f) -> callable run in place of a function compiled with parallel=True (None: run it in program order)."""
    global _parallel_hook
    _parallel_hook = h


def _parallel(f):
    @functools.wraps(f)
    def g(*a, **k):
        return (_parallel_hook(f) if _parallel_hook else f)(*a, **k)
    g.py_func = f
    return g


def njit(*args, **kw):
    if kw.get('parallel'):
        return _parallel
    if len(args) == 1 and callable(args[0]) and not isinstance(args[0], _Type):
        return _mark(args[0])
    return _mark


jit = generated_jit = njit


def objmode(*a, **k):
    raise NotImplementedError


_names = {'c16': 'complex128', 'f8': 'float64', 'i8': 'int64', 'u4': 'uint32',
          'i4': 'int32', 'u8': 'uint64', 'f4': 'float32', 'b1': 'bool',
          'boolean': 'bool'}


def _dtype(name):
    name = name.strip()
    name = re.sub(r'\[.*\]', '', name)
    return np.dtype(_names.get(name, name))


def _parse(sig):
    """'float64(float64, float64)' -> (ret, [args])."""
    sig = str(sig).strip()
    m = re.match(r'^([\w]*)\s*\((.*)\)$', sig, re.S)
    if not m:
        return None, []
    args = [a for a in re.sub(r'\[[^\]]*\]', '', m.group(2)).split(',') if a.strip()]
    return m.group(1), args


class _Vectorized:
    def __init__(self, f, sigs):
        self.f = f
        self.sigs = [_parse(s) for s in sigs]
        functools.update_wrapper(self, f)
        self.py_func = f

    def __call__(self, *args, out=None, **kw):
        arrs = [np.asarray(a) for a in args]
        ret, types_ = None, None
        for r, ts in self.sigs:
            if len(ts) == len(arrs) and all(np.can_cast(a.dtype if a.ndim else np.min_scalar_type(a), _dtype(t), 'safe')
                                           or np.can_cast(a.dtype, _dtype(t), 'safe')
                                           for a, t in zip(arrs, ts)):
                ret, types_ = r, ts
                break
        else:
            if self.sigs:
                raise TypeError("ufunc %r not supported for the input types" % self.f.__name__)
        if types_ is not None:
            arrs = [a.astype(_dtype(t)) for a, t in zip(arrs, types_)]
        b = np.broadcast(*arrs)
        vals = [self.f(*xs) for xs in b]
        res = np.array(vals, dtype=_dtype(ret) if ret else None).reshape(b.shape)
        if out is not None:
            out[...] = res
            return out
        return res[()]


def vectorize(*args, **kw):
    if len(args) == 1 and callable(args[0]) and not isinstance(args[0], _Type):
        return _Vectorized(args[0], [])
    sigs = args[0] if args and isinstance(args[0], (list, tuple)) else list(args)

    def deco(f):
        return _Vectorized(f, sigs)
    return deco


class _GuVectorized:
    def __init__(self, f, sigs, layout):
        self.f = f
        self.py_func = f
        functools.update_wrapper(self, f)
        self.sigs = [_parse(s)[1] for s in sigs]
        lhs, rhs = layout.replace(' ', '').split('->')
        grp = lambda s: [tuple(x for x in g.split(',') if x) for g in re.findall(r'\(([^)]*)\)', s)]
        self.ins, self.outs = grp(lhs), grp(rhs)
        self.layout = layout

    def __call__(self, *args, out=None, **kw):
        nin, nout = len(self.ins), len(self.outs)
        args = list(args)
        if out is not None:
            args += list(out) if isinstance(out, tuple) else [out]
        if len(args) not in (nin, nin + nout):
            raise TypeError('gufunc called with %d arguments' % len(args))
        types_ = self.sigs[0]
        dims, outer = {}, []
        ins = []
        for k in range(nin):
            a = np.asarray(args[k])
            t = _dtype(types_[k])
            if not np.can_cast(a.dtype, t, 'same_kind'):
                raise TypeError('cannot cast %s to %s' % (a.dtype, t))
            a = a.astype(t)
            c = self.ins[k]
            if a.ndim < len(c):
                raise ValueError('Input operand %d does not have enough dimensions (has %d, gufunc core with '
                                 'signature %s requires %d)' % (k, a.ndim, self.layout, len(c)))
            core = a.shape[a.ndim - len(c):]
            for name, size in zip(c, core):
                if dims.setdefault(name, size) != size:
                    raise ValueError('Input operand %d has a mismatch in its core dimension' % k)
            outer.append(a.shape[:a.ndim - len(c)])
            ins.append(a)
        lead = np.broadcast(*[np.empty(o, 'i1') for o in outer]).shape if len(outer) > 1 else outer[0]
        results = []
        for k in range(nout):
            shape = tuple(lead) + tuple(dims[d] for d in self.outs[k])
            t = _dtype(types_[nin + k])
            results.append(np.empty(shape, t))
        ins = [np.broadcast_to(a, tuple(lead) + a.shape[a.ndim - len(c):]) for a, c in zip(ins, self.ins)]
        for idx in np.ndindex(*lead):
            xs = [np.array(a[idx]) for a in ins]
            ys = [r[idx] if r[idx].ndim else r[idx + (None,)] for r in results]
            self.f(*(xs + ys))
        if len(args) > nin:
            for o, r in zip(args[nin:], results):
                if o.shape != r.shape:
                    raise ValueError('non-broadcastable output operand')
                o[...] = r
            results = args[nin:]
        return results[0] if nout == 1 else tuple(results)


def guvectorize(sigs, layout, **kw):
    if isinstance(sigs, (str, _Type)):
        sigs = [sigs]

    def deco(f):
        return _GuVectorized(f, sigs, layout)
    return deco


def get_num_threads():
    return 1


def set_num_threads(n):
    pass


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return _Type(name)
