"""Simulated workers for the loops the library marks as parallel.

Without the optional JIT these loops run sequentially.  The import hook below compiles the library's own source with every
`for v in prange(...)` loop turned into a set of simulated workers: the iterations are dealt to workers, every worker runs its
iterations one after another, and a seeded scheduler picks the next worker before every statement and between the
evaluation and the store of every assignment to a shared array.  Names assigned in the loop body are private to the
iteration, arrays are shared, and `name += value` on an outer name is a reduction (as in the JIT).
"""
import ast
import importlib.abc
import importlib.machinery
import os
import random
import sys

from dst import core

SCHED = [None]
STATS = {"loops": 0, "switches": 0}
FOUND = []


class Schedule:
    def __init__(self, workers, deal, policy, seed, on_switch=None):
        self.workers, self.deal, self.policy = workers, deal, policy
        self.r = random.Random(seed)
        self.trace = []

    def assign(self, its):
        W = self.workers
        n = len(its)
        if self.deal == "chunks":
            q = -(-n // W) if n else 0
            parts = [its[k * q:(k + 1) * q] for k in range(W)]
        elif self.deal == "cyclic":
            parts = [its[k::W] for k in range(W)]
        elif self.deal == "reversed":
            q = -(-n // W) if n else 0
            parts = [its[k * q:(k + 1) * q][::-1] for k in range(W)][::-1]
        else:
            its = list(its)
            self.r.shuffle(its)
            parts = [[] for _ in range(W)]
            for i in its:
                parts[self.r.randrange(W)].append(i)
        return [p for p in parts if p]

    def pick(self, live, last):
        if self.policy == "robin":
            return (last + 1) % live if last is not None else 0
        if self.policy == "last":
            return live - 1
        if self.policy == "sticky" and last is not None and last < live and self.r.random() < 0.7:
            return last
        return self.r.randrange(live)


def par(its, body):
    """Runs the iterations under the current schedule."""
    its = list(its)
    s = SCHED[0]
    STATS["loops"] += 1
    if s is None:
        for i in its:
            for _ in body(i):
                pass
        return
    queues = s.assign(its)
    running = [body(q.pop(0)) for q in queues]
    ids = list(range(len(queues)))
    last = None
    while running:
        core.GUARD.reset()
        k = s.pick(len(running), last)
        last = k
        s.trace.append(ids[k])
        STATS["switches"] += 1
        try:
            next(running[k])
        except StopIteration:
            if queues[k]:
                running[k] = body(queues[k].pop(0))
            else:
                del running[k], queues[k], ids[k]
                last = None


def torn_shuffle(a):
    """np.random.shuffle(a) as a series of swaps other workers can come between."""
    import numpy as np

    try:
        n = len(a)
    except TypeError:
        n = 0
    if not isinstance(a, np.ndarray) or a.ndim != 1 or n > 64:
        np.random.shuffle(a)
        return
    want = np.arange(n)
    np.random.shuffle(want)
    pos = list(range(n))          # pos[k]: which original element sits at k
    for k in range(n):
        j = pos.index(int(want[k]))
        if j != k:
            u, t = a[j].copy(), a[k].copy()
            yield
            a[k] = u
            yield
            a[j] = t
            pos[k], pos[j] = pos[j], pos[k]


def torn_store(base, key, value):
    """base[key] = value, one element after the other where it is a plain slice."""
    import numpy as np

    if isinstance(base, np.ndarray) and base.ndim == 1 and isinstance(key, slice):
        view = base[key]
        if 1 < view.size <= 64 and (np.ndim(value) == 0 or (isinstance(value, np.ndarray) and value.shape == view.shape)):
            one = np.ndim(value) == 0
            for k in range(view.size):
                view[k] = value if one else value[k]
                yield
            return
    base[key] = value


def _np_random(node, name):
    """Is node a call of np.random.<name> with one argument?"""
    if not isinstance(node, ast.Call) or len(node.args) != 1 or node.keywords or not isinstance(node.func, ast.Attribute) or node.func.attr != name:
        return False
    v = node.func.value
    return isinstance(v, ast.Attribute) and v.attr == "random"


def _is_prange(node):
    if not isinstance(node, ast.Call):
        return False
    f = node.func
    return (isinstance(f, ast.Name) and f.id == "prange") or (isinstance(f, ast.Attribute) and f.attr == "prange")


def _stored(nodes, plain_only=False):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)

        def visit_AugAssign(self, n):
            if not plain_only and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            if not isinstance(n.target, ast.Name):
                self.visit(n.target)
            self.visit(n.value)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

    for n in nodes:
        V().visit(n)
    return out


def _augs(nodes):
    out = set()
    for n in nodes:
        for m in ast.walk(n):
            if isinstance(m, ast.AugAssign) and isinstance(m.target, ast.Name):
                out.add(m.target.id)
    return out


def _has(nodes, kinds):
    return any(isinstance(m, kinds) for n in nodes for m in ast.walk(n))


def _yield():
    return ast.Expr(ast.Yield(None))


class _Body:
    def __init__(self):
        self.n = 0

    def block(self, stmts, depth):
        out = []
        for s in stmts:
            out.append(_yield())
            out.extend(self.stmt(s, depth))
        return out

    def stmt(self, s, depth):
        if isinstance(s, ast.Continue) and depth == 0:
            return [ast.Return(None)]
        if isinstance(s, ast.If):
            s.body = self.block(s.body, depth)
            s.orelse = self.block(s.orelse, depth) if s.orelse else []
            return [s]
        if isinstance(s, (ast.For, ast.While)):
            s.body = self.block(s.body, depth + 1)
            s.orelse = self.block(s.orelse, depth) if s.orelse else []
            return [s]
        if isinstance(s, ast.With):
            s.body = self.block(s.body, depth)
            return [s]
        shared = (ast.Subscript, ast.Attribute)
        if isinstance(s, ast.Expr) and _np_random(s.value, "shuffle"):
            return [ast.Expr(ast.YieldFrom(ast.Call(ast.Name("__shuffle__", ast.Load()), s.value.args, [])))]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].slice, ast.Slice):
            t, sl = s.targets[0], s.targets[0].slice
            none = ast.Constant(None)
            key = ast.Call(ast.Name("slice", ast.Load()), [sl.lower or none, sl.upper or none, sl.step or none], [])
            self.n += 1
            v = "__v%d" % self.n
            base = ast.parse(ast.unparse(t.value), mode="eval").body
            return [ast.Assign([ast.Name(v, ast.Store())], s.value), _yield(),
                    ast.Expr(ast.YieldFrom(ast.Call(ast.Name("__store__", ast.Load()), [base, key, ast.Name(v, ast.Load())], [])))]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, shared):
            self.n += 1
            t = "__v%d" % self.n
            load = ast.parse(ast.unparse(s.target), mode="eval").body
            return [ast.Assign([ast.Name(t, ast.Store())], ast.BinOp(load, s.op, s.value)), _yield(), ast.Assign([s.target], ast.Name(t, ast.Load()))]
        if isinstance(s, ast.Assign) and any(isinstance(x, shared) for x in s.targets):
            self.n += 1
            t = "__v%d" % self.n
            return [ast.Assign([ast.Name(t, ast.Store())], s.value), _yield(), ast.Assign(s.targets, ast.Name(t, ast.Load()))]
        return [s]


class _Loops(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.stack = []
        self.n = 0

    def visit_FunctionDef(self, node):
        args = node.args
        names = {a.arg for a in args.args + args.kwonlyargs + args.posonlyargs}
        for a in (args.vararg, args.kwarg):
            if a is not None:
                names.add(a.arg)
        self.stack.append((names | _stored(node.body), node.name))
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if not _is_prange(node.iter) or not self.stack or node.orelse or _has(node.body, (ast.Return, ast.Yield, ast.YieldFrom)):
            return node
        if any(isinstance(m, ast.Break) for m in self._own(node.body)):
            return node
        self.n += 1
        names, fn = self.stack[-1]
        FOUND.append("%s:%s:%d" % (self.fname, fn, node.lineno))
        body_names = _stored(node.body, plain_only=True)
        red = sorted(x for x in _augs(node.body) if x not in body_names and x in names)
        gname = "__iteration%d" % self.n
        arg = "__it%d" % self.n
        pre = [ast.Nonlocal(red)] if red else []
        pre += [ast.Assign([node.target], ast.Name(arg, ast.Load()))]
        fd = ast.FunctionDef(
            name=gname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg)], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=pre + _Body().block(node.body, 0), decorator_list=[], type_params=[])
        call = ast.Expr(ast.Call(ast.Name("__par__", ast.Load()), [ast.Call(ast.Name("range", ast.Load()), node.iter.args, node.iter.keywords), ast.Name(gname, ast.Load())], []))
        return [fd, call]

    @staticmethod
    def _own(body):
        """Nodes of the body outside nested loops."""
        todo = list(body)
        while todo:
            m = todo.pop()
            yield m
            if not isinstance(m, (ast.For, ast.While, ast.FunctionDef)):
                todo.extend(ast.iter_child_nodes(m))


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        if b"prange" not in data:
            return self.source_to_code(data, path)
        tree = _Loops(os.path.basename(path)).visit(ast.parse(data))
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__par__"] = par
        module.__dict__["__shuffle__"] = torn_shuffle
        module.__dict__["__store__"] = torn_store
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "copt" and not name.startswith("copt."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    sys.meta_path.insert(0, Finder())
