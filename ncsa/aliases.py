"""Which arguments of a function may it change in place?  A forward may-alias analysis over the syntax tree: local
names alias an argument (or a view of it) until they are rebound to a fresh object; an in-place operation on such a name
is a change of the caller's object.  Calls of repository functions are followed."""
import ast

from .repo import FuncDef, ClassDef

VIEWS = {"view", "permute", "transpose", "unsqueeze", "squeeze", "detach", "narrow", "select", "expand", "expand_as", "view_as", "unfold", "t", "reshape", "flatten",
         "contiguous", "chunk", "split", "unbind", "diagonal", "swapaxes", "movedim", "requires_grad_", "values", "items", "get"}
VIEW_ATTRS = {"T", "mT", "data", "real", "imag"}
VIEW_FUNCS = {"torch.permute", "torch.transpose", "torch.unsqueeze", "torch.squeeze", "torch.reshape", "torch.flatten", "torch.chunk", "torch.split", "torch.unbind", "torch.narrow"}
SEQ = {"append", "extend", "insert", "pop", "sort", "reverse", "popitem", "setdefault"}
CONT = {"clear", "remove", "update", "add", "discard", "popleft", "appendleft"}
KEEP = {"requires_grad_", "retain_grad", "share_memory_", "apply_"}
CONTAINER = ("List", "Dict", "Set", "Sequence", "Mapping", "list", "dict", "set", "deque")
ARRAY = ("Tensor", "ndarray")


def _ann(a):
    return ast.unparse(a.annotation) if a is not None and a.annotation is not None else ""


def _has(s, names):
    return any(n in s for n in names)


class _Flow:
    def __init__(self, repo, f, seen):
        self.repo, self.f, self.seen = repo, f, seen
        a = f.node.args
        self.params = a.posonlyargs + a.args + a.kwonlyargs
        self.ann = {p.arg: _ann(p) for p in self.params}
        self.me = None
        if f.cls is not None and self.params and not f.is_static:
            self.me = self.params[0].arg
        self.env = {p.arg: frozenset([p.arg]) for p in self.params if p.arg != self.me}
        self.out = {}              # param -> [(lineno, text)]
        self.ret = set()
        self.rets = []             # one entry per return: aliases of each component, or None
        self.tests = {}            # name -> expression it was bound to
        body = f.node.body if isinstance(f.node.body, list) else [ast.Return(value=f.node.body)]
        self.block(body)

    # -- which parameters may the value of e be (a view of)?
    def al(self, e):
        if isinstance(e, ast.Name):
            return self.env.get(e.id, frozenset())
        if isinstance(e, ast.Subscript):
            b = self.al(e.value)
            return b if b and self.basic(e.slice) else frozenset()
        if isinstance(e, ast.Attribute):
            return self.al(e.value) if e.attr in VIEW_ATTRS else frozenset()
        if isinstance(e, ast.IfExp):
            return self.al(e.body) | self.al(e.orelse)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.al(v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.al(e.value)
        if isinstance(e, ast.Starred):
            return self.al(e.value)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and (e.func.attr in VIEWS or (e.func.attr.endswith("_") and not e.func.attr.endswith("__"))):
                r = self.al(e.func.value)
                if r:
                    return r
            if e.args and ast.unparse(e.func) in VIEW_FUNCS:
                return self.al(e.args[0])
            r = set()
            g, bind = self.target(e)
            if g is not None:
                s = summary(self.repo, g, self.seen)
                for p, x in bind.items():
                    if p in s[1]:
                        r |= self.al(x)
            return frozenset(r)
        return frozenset()

    def basic(self, s):
        if isinstance(s, ast.Tuple):
            return all(self.basic(x) for x in s.elts)
        if isinstance(s, ast.UnaryOp):
            return isinstance(s.operand, ast.Constant)
        return isinstance(s, (ast.Slice, ast.Constant))

    def target(self, e):
        """repository function called, and which expression is bound to which parameter"""
        fn, g, skip = e.func, None, 0
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.me and self.me is not None:
            g, skip = self.f.cls.find(fn.attr), 1
            if g is not None and g.is_static:
                skip = 0
        elif isinstance(fn, (ast.Name, ast.Attribute)):
            if isinstance(fn, ast.Name) and fn.id in self.env:
                return None, {}
            g = self.repo.resolve_expr(self.f.module, fn)
        if not isinstance(g, FuncDef) or g.is_property or isinstance(g.node, ast.Lambda):
            return None, {}
        if g.cls is not None and not skip and not g.is_static:
            return None, {}
        ps = [p.arg for p in g.node.args.posonlyargs + g.node.args.args][skip:]
        bind = {}
        for p, x in zip(ps, e.args):
            if isinstance(x, ast.Starred):
                break
            bind[p] = x
        for k in e.keywords:
            if k.arg:
                bind[k.arg] = k.value
        return g, bind

    def hit(self, ps, node, what):
        for p in ps:
            self.out.setdefault(p, []).append((node.lineno, what))

    # -- expressions: in-place operations
    def visit(self, e):
        if e is None:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                self.env[x.target.id] = self.al(x.value)
            elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for c in x.generators:
                    self.bind(c.target, self.al(c.iter))
            elif isinstance(x, ast.Call):
                self.call(x)

    def call(self, x):
        f = x.func
        if isinstance(f, ast.Attribute):
            ps = self.al(f.value)
            m = f.attr
            if ps:
                if m.endswith("_") and not m.endswith("__") and m not in KEEP:
                    self.hit([p for p in ps if not self.ann[p] or _has(self.ann[p], ARRAY)], x, ast.unparse(x))
                elif m in SEQ:
                    self.hit([p for p in ps if not self.ann[p] or _has(self.ann[p], CONTAINER)], x, ast.unparse(x))
                elif m in CONT:
                    self.hit([p for p in ps if _has(self.ann[p], CONTAINER)], x, ast.unparse(x))
            if m == "shuffle" and x.args:
                self.hit(self.al(x.args[0]), x, ast.unparse(x))
            if m.endswith("_") and not m.endswith("__") and not ps and x.args and isinstance(f.value, (ast.Name, ast.Attribute)):
                root = self.repo.resolve_expr(self.f.module, f.value)
                if type(root).__name__ == "Ext" and root.name.startswith("torch"):
                    self.hit(self.al(x.args[0]), x, ast.unparse(x))
        for k in x.keywords:
            if k.arg == "out":
                self.hit(self.al(k.value), x, ast.unparse(x))
            if k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True and x.args:
                self.hit(self.al(x.args[0]), x, ast.unparse(x))
        g, bind = self.target(x)
        if g is not None:
            s = summary(self.repo, g, self.seen)
            for p, v in bind.items():
                if p in s[0]:
                    self.hit(self.al(v), x, "%s (%s)" % (ast.unparse(x), s[0][p][0][1]))

    def parts(self, e, n):
        """per component: which parameters may the n-tuple returned by the call e alias?"""
        if not isinstance(e, ast.Call):
            return None
        g, bind = self.target(e)
        if g is None:
            return None
        summary(self.repo, g, self.seen)
        rs = self.repo._alias_memo.get(id(g.node), (0, 0, 0, []))[3]
        if not rs or any(r is None or len(r) != n for r in rs):
            return None
        out = []
        for i in range(n):
            ps = frozenset().union(*[r[i] for r in rs])
            out.append(frozenset().union(*[self.al(x) for p, x in bind.items() if p in ps]))
        return out

    def bind(self, t, ps):
        if isinstance(t, ast.Name):
            self.env[t.id] = ps
            for k in [k for k, v in self.tests.items() if k == t.id or any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(v))]:
                del self.tests[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, ps)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, ps)
        elif isinstance(t, ast.Subscript):
            self.hit(self.al(t.value), t, "assignment to " + ast.unparse(t))

    # -- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def join(self, *envs):
        self.env = {n: frozenset().union(*[v.get(n, frozenset()) for v in envs]) for n in set().union(*envs)}

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            self.visit(s.value)
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(s.targets[0].elts) == len(s.value.elts):
                al = [self.al(v) for v in s.value.elts]
                for t, a in zip(s.targets[0].elts, al):
                    self.bind(t, a)
            else:
                a, t0 = self.al(s.value), s.targets[0]
                parts = self.parts(s.value, len(t0.elts)) if a and len(s.targets) == 1 and isinstance(t0, (ast.Tuple, ast.List)) else None
                if parts is not None and not any(isinstance(t, ast.Starred) for t in t0.elts):
                    for t, x in zip(t0.elts, parts):
                        self.bind(t, x)
                else:
                    for t in s.targets:
                        self.bind(t, a)
                if isinstance(t0, ast.Name) and len(s.targets) == 1 and isinstance(s.value, (ast.Compare, ast.UnaryOp)):
                    self.tests[t0.id] = s.value
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.visit(s.value)
                self.bind(s.target, self.al(s.value))
        elif isinstance(s, ast.AugAssign):
            self.visit(s.value)
            if isinstance(s.target, ast.Name):
                ps = self.al(s.target)
                self.hit([p for p in ps if _has(self.ann[p], ARRAY) or (_has(self.ann[p], CONTAINER) and isinstance(s.op, ast.Add) and s.target.id == p)], s, ast.unparse(s))
            elif isinstance(s.target, ast.Subscript):
                self.hit(self.al(s.target.value), s, ast.unparse(s))
            elif isinstance(s.target, ast.Attribute):
                self.hit(self.al(s.target), s, ast.unparse(s))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.hit(self.al(t.value), s, ast.unparse(s))
        elif isinstance(s, (ast.Expr, ast.Assert)):
            self.visit(s.value if isinstance(s, ast.Expr) else s.test)
        elif isinstance(s, ast.Return):
            self.visit(s.value)
            if s.value is not None:
                seq = isinstance(s.value, (ast.Tuple, ast.List))
                parts = [self.al(v) for v in (s.value.elts if seq else [s.value])]
                self.ret |= set().union(*parts)
                self.rets.append(parts if seq and not any(isinstance(v, ast.Starred) for v in s.value.elts) else None)
        elif isinstance(s, ast.Raise):
            self.visit(s.exc)
        elif isinstance(s, ast.If):
            self.visit(s.test)
            e0 = dict(self.env)
            n, in_body = self.none_test(s.test)
            if n and in_body:
                self.env[n] = frozenset()
            elif n:
                e0[n] = frozenset()
            self.block(s.body)
            e1, self.env = self.env, e0
            self.block(s.orelse)
            e2 = self.env
            dead1, dead2 = self.ends(s.body), self.ends(s.orelse)
            if dead1 and not dead2:
                self.env = e2
            elif dead2 and not dead1:
                self.env = e1
            else:
                self.join(e1, e2)
        elif isinstance(s, (ast.For, ast.While)):
            self.visit(s.iter if isinstance(s, ast.For) else s.test)
            for _ in range(2):
                e0 = dict(self.env)
                if isinstance(s, ast.For):
                    self.bind(s.target, self.al(s.iter))
                self.block(s.body)
                self.join(e0, self.env)
            self.block(s.orelse)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.visit(i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            e0 = dict(self.env)
            self.block(s.body)
            e1 = self.env
            envs = [e1]
            for h in s.handlers:
                self.env = {n: e0.get(n, frozenset()) | e1.get(n, frozenset()) for n in set(e0) | set(e1)}
                self.block(h.body)
                envs.append(self.env)
            self.join(*envs)
            self.block(s.orelse)
            self.block(s.finalbody)

    def none_test(self, t):
        """(name that is None, True in the body / False in the else part)"""
        neg = False
        if isinstance(t, ast.Name) and t.id in self.tests:
            t = self.tests[t.id]
        if isinstance(t, ast.Call):
            g, bind = self.target(t)
            if g is not None:
                last = g.node.body[-1]
                if isinstance(last, ast.Return) and isinstance(last.value, ast.Compare) and isinstance(last.value.left, ast.Name) and isinstance(bind.get(last.value.left.id), ast.Name) \
                        and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) for x in ast.walk(g.node)):
                    t = ast.Compare(left=bind[last.value.left.id], ops=last.value.ops, comparators=last.value.comparators)
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                return t.left.id, not neg
            if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                return t.left.id, neg
        return None, False

    def ends(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def summary(repo, f, seen=()):
    """({parameter: [(line, construct)]} changed in place, parameters the result may alias)"""
    memo = repo.__dict__.setdefault("_alias_memo", {})
    k = id(f.node)
    if k in memo:
        return memo[k][:2]
    if k in seen or len(seen) > 12:
        return {}, set()
    try:
        fl = _Flow(repo, f, tuple(seen) + (k,))
        r = (fl.out, fl.ret)
    except RecursionError:
        r = ({}, set())
        fl = None
    memo[k] = r + (f.node, fl.rets if fl else [])
    return r
