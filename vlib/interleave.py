"""Interleaved execution of numba parallel-for loops.

A function marked parallel=True is rewritten (from its source) so that each
prange loop hands its iterations to a controlled scheduler: every iteration is a
coroutine that stops before each array element it reads or writes.  Names the
iteration assigns are private to it, as numba makes them; arrays it did not
create are shared.
"""
import ast
import functools
import inspect
import textwrap

import greenlet
import numpy as np


class Unsupported(Exception):
    pass


def _is_prange(node):
    return (isinstance(node, ast.For) and isinstance(node.iter, ast.Call) and
            (getattr(node.iter.func, 'id', None) == 'prange' or getattr(node.iter.func, 'attr', None) == 'prange'))


class _Access(ast.NodeTransformer):
    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name('__rd', ast.Load()), [node.value, _index(node.slice)], []), node)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            t.value = self.visit(t.value)
            t.slice = self.visit(t.slice)
            return ast.copy_location(ast.Expr(ast.Call(ast.Name('__wr', ast.Load()), [t.value, _index(t.slice), node.value], [])), node)
        if any(isinstance(x, ast.Subscript) for t in node.targets for x in ast.walk(t)):
            raise Unsupported('tuple assignment to elements')
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            t = node.target
            v, i = self.visit(t.value), _index(self.visit(t.slice))
            rd = ast.Call(ast.Name('__rd', ast.Load()), [v, i], [])
            return ast.copy_location(ast.Expr(ast.Call(ast.Name('__wr', ast.Load()),
                                              [v, i, ast.BinOp(rd, node.op, node.value)], [])), node)
        return node


def _index(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(ast.Name('slice', ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([_index(x) for x in s.elts], ast.Load())
    return s


def _names(nodes, ctx):
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ctx) and x.id not in out:
                out.append(x.id)
    return out


class _Loops(ast.NodeTransformer):
    """Outermost prange loops -> __par(iterable, body)."""

    def __init__(self):
        self.k = 0
        self.reductions = False

    def visit_For(self, node):
        if not _is_prange(node):
            self.generic_visit(node)
            return node
        if any(isinstance(x, (ast.Return, ast.Break)) for b in node.body for x in ast.walk(b)) or node.orelse:
            raise Unsupported('early exit')
        assigned = _names(node.body, ast.Store)
        plain = []
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Assign):
                    plain += [n for t in x.targets for n in _names([t], ast.Store)]
                elif isinstance(x, ast.For):
                    plain += _names([x.target], ast.Store)
        red = [n for n in assigned if n not in plain]
        if red:
            raise Unsupported('reduction')      # numba combines these itself
        if any(isinstance(x, (ast.ListComp, ast.Lambda, ast.FunctionDef)) for b in node.body for x in ast.walk(b)):
            raise Unsupported('nested scope')
        if not isinstance(node.target, ast.Name):
            raise Unsupported('loop target')
        body = [_Access().visit(b) for b in node.body]
        self.k += 1
        name = '__body%d' % self.k
        # private names keep the value they had before the loop
        pro = []
        args = [ast.arg(node.target.id, None)]
        f = ast.FunctionDef(name, ast.arguments([], args, None, [], [], None, []), pro + body, [], None)
        call = ast.Expr(ast.Call(ast.Name('__par', ast.Load()), [ast.Call(ast.Name('range', ast.Load()), node.iter.args, []),
                                                                ast.Name(name, ast.Load())], []))
        return [ast.copy_location(f, node), ast.copy_location(call, node)]


class Scheduler:
    """Collects the accesses of the loops run while it is active; see vlib.sched."""

    def __init__(self, prefix=()):
        self.prefix, self.pos = list(prefix), 0
        self.trace, self.region = [], 0
        self.keep = []
        self.cur = None

    def cells(self, a, i):
        x = a[i]
        self.keep.append(a)
        if isinstance(x, np.ndarray):
            base = a.__array_interface__['data'][0]
            if x.size > 64:
                raise Unsupported('large slice')
            idx = np.arange(a.size).reshape(a.shape)[i].ravel()
            return frozenset(self.addr(a, np.unravel_index(int(k), a.shape)) for k in idx)
        return frozenset([self.addr(a, i)])

    @staticmethod
    def addr(a, i):
        i = i if isinstance(i, tuple) else (i,)
        return a.__array_interface__['data'][0] + sum((int(k) % n) * s for k, n, s in zip(i, a.shape, a.strides))

    def access(self, a, i, write):
        if self.cur is None or not isinstance(a, np.ndarray):
            return
        self.keep.append(a)
        greenlet.getcurrent().parent.switch((self.cells(a, i), write))

    def rd(self, a, i):
        self.access(a, i, False)
        return a[i]

    def wr(self, a, i, v):
        self.access(a, i, True)
        a[i] = v

    def par(self, it, body):
        if self.cur is not None:            # nested parallel loops are serial
            for i in it:
                body(i)
            return
        its = list(it)
        gs = [greenlet.greenlet(body) for _ in its]
        pend = {}
        self.cur = True
        for t, g in enumerate(gs):
            r = g.switch(its[t])
            if not g.dead:
                pend[t] = r
        last = None
        while pend:
            en = sorted(pend)
            t = self.prefix[self.pos] if self.pos < len(self.prefix) else None
            if t not in pend:
                t = last if last in pend else en[0]
            self.pos += 1
            cells, w = pend.pop(t)
            self.trace.append((t, cells, w, en, self.region))
            last = t
            r = gs[t].switch()
            if not gs[t].dead:
                pend[t] = r
        self.cur = None
        self.region += 1


_current = None


@functools.lru_cache(None)
def rewrite(f):
    """The function with its prange loops handed to the active scheduler."""
    tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    fd = tree.body[0]
    fd.decorator_list = []
    L = _Loops()
    fd = L.visit(fd)
    if not L.k:
        raise Unsupported('no prange loop')
    tree.body = [fd]
    ast.fix_missing_locations(tree)
    env = dict(f.__globals__)
    env['__par'] = lambda it, b: _current.par(it, b)
    env['__rd'] = lambda a, i: _current.rd(a, i)
    env['__wr'] = lambda a, i, v: _current.wr(a, i, v)
    exec(compile(tree, inspect.getsourcefile(f), 'exec'), env)
    return env[fd.name]


def run(call, prefix):
    """Run call() with every parallel loop interleaved as `prefix` says."""
    import numba
    global _current
    _current = Scheduler(prefix)
    used = []

    def hook(f):
        used.append(f.__name__)
        return rewrite(f)
    numba.set_parallel_hook(hook)
    try:
        res = call()
    finally:
        numba.set_parallel_hook(None)
        s, _current = _current, None
    return s.trace, res, used
