"""Behaviour-preserving rewrites of one function, one site at a time (see campaign.py)."""
import ast
import copy
import os

from ncsa import repo as R

MAX = 12


def N(x):
    return ast.Name(x, ast.Load())


def S(x):
    return ast.Name(x, ast.Store())


def assign(name, v):
    return ast.Assign([S(name)], v, lineno=0)


def blocks(f):
    """every statement list of the function, not entering nested functions"""
    out = []

    def rec(body):
        out.append(body)
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if b:
                    rec(b)
            for h in getattr(s, "handlers", []):
                rec(h.body)
    rec(f.body)
    return out


def names_loaded(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def names_stored(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def params(f):
    a = f.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def locals_of(f):
    return set(params(f)) | names_stored(f) | {x.name for x in ast.walk(f) if isinstance(x, (ast.FunctionDef,)) and x is not f}


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def impure(n):
    return has(n, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)


def comp_vars(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.comprehension):
            out |= names_stored(x.target)
        if isinstance(x, ast.Lambda):
            out |= {p.arg for p in x.args.args}
    return out


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def replace(root, old, new):
    class V(ast.NodeTransformer):
        def visit(self, n):
            if n is old:
                return new
            return self.generic_visit(n)
    return V().visit(root)


def subexprs(e):
    """sub-expressions that are always evaluated, in order"""
    out = []

    def rec(n, callee=False):
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            if not callee and not isinstance(n, ast.GeneratorExp):
                out.append(n)
            return
        if isinstance(n, ast.IfExp):
            rec(n.test)
            return
        if isinstance(n, ast.BoolOp):
            rec(n.values[0])
            return
        if isinstance(n, ast.Call):
            rec(n.func, True)
            for a in n.args:
                rec(a.value if isinstance(a, ast.Starred) else a)
            for k in n.keywords:
                rec(k.value)
            out.append(n)
            return
        if isinstance(n, ast.Attribute):
            rec(n.value, callee)
            if not callee:
                out.append(n)
            return
        if isinstance(n, (ast.JoinedStr, ast.Slice)):
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                rec(c)
        if isinstance(n, (ast.BinOp, ast.Subscript, ast.Compare, ast.UnaryOp, ast.Tuple, ast.List)) and not isinstance(getattr(n, "ctx", None), ast.Store):
            out.append(n)
    rec(e)
    return out


def value_of(s):
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return, ast.Expr)) and s.value is not None and not is_doc(s):
        return s.value
    if isinstance(s, ast.If):
        return s.test
    if isinstance(s, ast.For):
        return s.iter
    return None


def calls_before(e, target):
    """is some call evaluated before target?"""
    for x in subexprs(e):
        if x is target:
            return False
        if isinstance(x, ast.Call) and not any(y is x for y in ast.walk(target)):
            return True
    return False


def t_hoist(t, c, f, k):
    """name a sub-expression"""
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            v = value_of(s)
            if v is None or impure(v):
                continue
            for e in subexprs(v):
                if isinstance(e, ast.Starred) or isinstance(getattr(e, "ctx", None), ast.Store) or calls_before(v, e):
                    continue
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id not in locals_of(f):
                    continue
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "super":
                    continue
                if isinstance(s, ast.Expr) and e is v:
                    continue
                if n == k:
                    d = ast.unparse(e)
                    replace(s, e, N("hoisted_value"))
                    b.insert(i, assign("hoisted_value", e))
                    return d
                n += 1


def t_inline(t, c, f, k):
    """inline a local used once by the next statement"""
    n = 0
    for b in blocks(f):
        for i in range(len(b) - 1):
            s = b[i]
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                continue
            x = s.targets[0].id
            uses = [y for y in ast.walk(f) if isinstance(y, ast.Name) and y.id == x]
            if len(uses) != 2 or impure(s.value):
                continue
            v = value_of(b[i + 1])
            if v is None:
                continue
            u = [y for y in ast.walk(v) if isinstance(y, ast.Name) and y.id == x]
            if len(u) != 1 or any(u[0] in list(ast.walk(z)) for z in ast.walk(v) if isinstance(z, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))):
                continue
            if n == k:
                replace(b[i + 1], u[0], s.value)
                del b[i]
                return x
            n += 1


def add_helper(t, c, f, name, args, body):
    static = any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in f.decorator_list)
    selfname = f.args.args[0].arg if c is not None and not static and f.args.args else None
    if c is not None and selfname in args:
        h = ast.FunctionDef(name, ast.arguments([], [ast.arg(selfname)] + [ast.arg(a) for a in args if a != selfname], None, [], [], None, []), body, [], None, lineno=0)
        c.body.append(h)
        return ast.Call(ast.Attribute(N(selfname), name, ast.Load()), [N(a) for a in args if a != selfname], [])
    h = ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body, [], None, lineno=0)
    # a module-level helper, before its user
    i = t.body.index(c if c is not None else f)
    t.body.insert(i, h)
    return ast.Call(N(name), [N(a) for a in args], [])


def uses_super(n):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(n))


def t_extract_expr(t, c, f, k):
    """move an expression to a helper"""
    n = 0
    loc = locals_of(f)
    for b in blocks(f):
        for i, s in enumerate(b):
            v = value_of(s)
            if v is None or impure(v) or uses_super(v) or isinstance(v, (ast.Name, ast.Constant)):
                continue
            cands = [v] + [e for e in subexprs(v) if isinstance(e, (ast.Call, ast.BinOp, ast.ListComp)) and e is not v]
            for e in cands[:3]:
                if n == k:
                    d = ast.unparse(e)
                    args = sorted((names_loaded(e) & loc) - comp_vars(e))
                    call = add_helper(t, c, f, "_extracted_helper", args, [ast.Return(e)])
                    replace(s, e, call)
                    return d
                n += 1


def t_extract_tail(t, c, f, k):
    """move the last statements to a helper"""
    loc = locals_of(f)
    start = 1 if f.body and is_doc(f.body[0]) else 0
    cuts = list(range(start + 1, len(f.body)))
    cuts = [x for x in cuts if not uses_super(ast.Module(f.body[x:], [])) and not impure(ast.Module(f.body[x:], []))]
    if k >= len(cuts):
        return None
    cut = cuts[k]
    tail = f.body[cut:]
    if has(ast.Module(tail, []), ast.Nonlocal, ast.Global):
        return "skip"
    mod = ast.Module(tail, [])
    args = sorted((names_loaded(mod) & loc) & (set(params(f)) | names_stored(ast.Module(f.body[:cut], [])) | {x.name for x in f.body[:cut] if isinstance(x, ast.FunctionDef)}))
    call = add_helper(t, c, f, "_extracted_tail", args, tail)
    f.body[cut:] = [ast.Return(call)]
    return "from statement %d" % cut


def t_extract_block(t, c, f, k):
    """move a middle block to a helper that returns what it computed"""
    n = 0
    loc = locals_of(f)
    for b in blocks(f):
        for i in range(len(b)):
            for j in (i + 1, i + 2, i + 3):
                if j > len(b):
                    continue
                blk = b[i:j]
                m = ast.Module(blk, [])
                if any(is_doc(s) for s in blk) or has(m, ast.Return, ast.Break, ast.Continue, ast.Raise, ast.FunctionDef, ast.Global, ast.Nonlocal) or impure(m) or uses_super(m):
                    continue
                outs = sorted(names_stored(m) & loc)
                inner = comp_vars(m)
                if any(o in inner for o in outs):
                    continue
                if not outs:
                    continue
                # only unconditional assignments
                if not all(isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) for s in blk) and not isinstance(blk[0], (ast.If, ast.For)):
                    continue
                if isinstance(blk[0], (ast.For, ast.If)) and (j != i + 1):
                    continue
                if isinstance(blk[0], (ast.For, ast.If)):
                    before = set(params(f))
                    for s in ast.walk(f):
                        if isinstance(s, ast.stmt) and getattr(s, "lineno", 0) < blk[0].lineno and isinstance(s, (ast.Assign, ast.AugAssign, ast.For, ast.AnnAssign)):
                            before |= names_stored(s)
                    outs = [o for o in outs if o in before]
                    if not outs:
                        continue
                if n == k:
                    seen = set()
                    args = []
                    for s in blk:
                        need = names_loaded(s) | (names_stored(s) if isinstance(s, (ast.AugAssign, ast.If, ast.For)) else set())
                        for a in sorted(need & loc):
                            if a not in seen and a not in args and (isinstance(s, (ast.If, ast.For)) is False or a in before):
                                args.append(a)
                        if not isinstance(s, (ast.If, ast.For)):
                            seen |= names_stored(s)
                    ret = N(outs[0]) if len(outs) == 1 else ast.Tuple([N(o) for o in outs], ast.Load())
                    call = add_helper(t, c, f, "_extracted_block", args, blk + [ast.Return(ret)])
                    tgt = S(outs[0]) if len(outs) == 1 else ast.Tuple([S(o) for o in outs], ast.Store())
                    d = ast.unparse(m)[:100]
                    b[i:j] = [ast.Assign([tgt], call, lineno=0)]
                    return d
                n += 1


def negate(e):
    return ast.UnaryOp(ast.Not(), e)


def t_invert_if(t, c, f, k):
    n = 0
    for b in blocks(f):
        for s in b:
            if isinstance(s, ast.If):
                if n == k:
                    d = ast.unparse(s.test)
                    s.test = negate(s.test)
                    s.body, s.orelse = s.orelse or [ast.Pass()], s.body
                    return d
                n += 1


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def t_guard_to_else(t, c, f, k):
    """if c: ...return; rest  ->  else: rest"""
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                if n == k:
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    return ast.unparse(s.test)
                n += 1


def t_else_to_guard(t, c, f, k):
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                if n == k:
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []
                    return ast.unparse(s.test)
                n += 1


def t_result_var(t, c, f, k):
    """returns at the end become a result variable"""
    if k:
        return None
    rets = [x for b in blocks(f) for x in b if isinstance(x, ast.Return)]
    if len(rets) < 2 or any(r.value is None for r in rets) or has(f, ast.Yield):
        return None

    def conv(body):
        # returns the body in which every path assigns `result`, or None
        if not body:
            return None
        s = body[-1]
        if isinstance(s, ast.Return):
            pre = body[:-1]
            out = [assign("result_value", s.value)]
        elif isinstance(s, ast.Raise):
            return body if not any(has(x, ast.Return) for x in body[:-1]) else None
        elif isinstance(s, ast.If) and s.orelse:
            a, b = conv(s.body), conv(s.orelse)
            if a is None or b is None:
                return None
            s.body, s.orelse = a, b
            pre = body[:-1]
            out = [s]
        else:
            return None
        while pre:
            p = pre[-1]
            if isinstance(p, ast.If) and not p.orelse and ends(p.body) and has(p, ast.Return):
                a = conv(p.body)
                if a is None:
                    return None
                p.body, p.orelse = a, out
                out = [p]
            elif has(p, ast.Return):
                return None
            else:
                out.insert(0, p)
            pre = pre[:-1]
        return out
    nb = conv(f.body)
    if nb is None:
        return None
    f.body = nb + [ast.Return(N("result_value"))]
    return "result variable"


def t_comp_to_loop(t, c, f, k):
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            v = value_of(s)
            if v is None:
                continue
            for e in subexprs(v):
                if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not calls_before(v, e):
                    if n == k:
                        g = e.generators[0]
                        d = ast.unparse(e)
                        app = ast.Expr(ast.Call(ast.Attribute(N("acc_list"), "append", ast.Load()), [e.elt], []))
                        body = [app]
                        for cnd in reversed(g.ifs):
                            body = [ast.If(cnd, body, [])]
                        replace(s, e, N("acc_list"))
                        b[i:i] = [assign("acc_list", ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [], lineno=0)]
                        return d
                    n += 1


def t_loop_to_comp(t, c, f, k):
    n = 0
    for b in blocks(f):
        for i in range(1, len(b)):
            s, p = b[i], b[i - 1]
            if not (isinstance(s, ast.For) and len(s.body) == 1 and not s.orelse and isinstance(p, ast.Assign) and isinstance(p.value, ast.List) and not p.value.elts):
                continue
            x = s.body[0]
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" \
                    and ast.unparse(x.value.func.value) == ast.unparse(p.targets[0]):
                if n == k:
                    p.value = ast.ListComp(x.value.args[0], [ast.comprehension(s.target, s.iter, [], 0)])
                    del b[i]
                    return ast.unparse(p)
                n += 1


def t_index_loop(t, c, f, k):
    """for x in xs -> for i in range(len(xs)): x = xs[i]"""
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute)):
                if n == k:
                    d = ast.unparse(s.iter)
                    s.body.insert(0, ast.Assign([s.target], ast.Subscript(s.iter, N("loop_index"), ast.Load()), lineno=0))
                    s.target = S("loop_index")
                    s.iter = ast.Call(N("range"), [ast.Call(N("len"), [copy.deepcopy(s.iter)], [])], [])
                    return d
                n += 1
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) \
                    and isinstance(s.iter.args[0], (ast.Name, ast.Attribute)):
                if n == k:
                    d = ast.unparse(s.iter)
                    xs = s.iter.args[0]
                    idx = s.target.elts[0]
                    s.body.insert(0, ast.Assign([s.target.elts[1]], ast.Subscript(xs, N(idx.id), ast.Load()), lineno=0))
                    s.target = idx
                    s.iter = ast.Call(N("range"), [ast.Call(N("len"), [copy.deepcopy(xs)], [])], [])
                    return d
                n += 1


def t_enumerate_loop(t, c, f, k):
    """for x in xs -> for _i, x in enumerate(xs)"""
    n = 0
    for b in blocks(f):
        for s in b:
            if isinstance(s, ast.For):
                if n == k:
                    d = ast.unparse(s.iter)
                    s.target = ast.Tuple([S("loop_number"), s.target], ast.Store())
                    s.iter = ast.Call(N("enumerate"), [s.iter], [])
                    return d
                n += 1


def t_unpack_in_body(t, c, f, k):
    """for a, b in zip -> for pair in zip: a, b = pair"""
    n = 0
    for b in blocks(f):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
                if n == k:
                    d = ast.unparse(s.iter)
                    s.body.insert(0, ast.Assign([s.target], N("loop_item"), lineno=0))
                    s.target = S("loop_item")
                    return d
                n += 1


def t_while_loop(t, c, f, k):
    """for i in range(n) -> while"""
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 \
                    and isinstance(s.target, ast.Name) and not has(s, ast.Continue) and s.target.id != "_":
                if n == k:
                    d = ast.unparse(s.iter)
                    x = s.target.id
                    w = ast.While(ast.Compare(N(x), [ast.Lt()], [s.iter.args[0]]), s.body + [ast.AugAssign(S(x), ast.Add(), ast.Constant(1))], [])
                    b[i:i + 1] = [assign(x, ast.Constant(0)), w]
                    return d
                n += 1


def writes_heap(s):
    return any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(s))


def t_swap(t, c, f, k):
    """exchange neighbouring independent statements"""
    n = 0
    for b in blocks(f):
        for i in range(len(b) - 1):
            s, u = b[i], b[i + 1]
            if not all(isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None for x in (s, u)) or impure(s) or impure(u):
                continue
            if (names_stored(s) & (names_loaded(u) | names_stored(u))) or (names_stored(u) & names_loaded(s)):
                continue
            if uses_super(s) or uses_super(u):
                continue
            ts = [ast.unparse(x) for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)]
            tu = [ast.unparse(x) for x in ast.walk(u) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)]
            if any(x in ast.unparse(u) for x in ts) or any(x in ast.unparse(s) for x in tu):
                continue
            calls = [x for z in (s, u) for x in ast.walk(z) if isinstance(x, ast.Call)]
            mods = [x for x in calls if isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "append", "rand", "rand_like", "randn", "uniform", "normal", "randint", "step", "random")]
            if mods or any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for z in (s, u) for x in ast.walk(z)):
                continue
            hs = any(isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" for x in calls)
            if hs and (ts or tu):
                continue
            if n == k:
                d = ast.unparse(s)[:60] + " <-> " + ast.unparse(u)[:60]
                b[i], b[i + 1] = u, s
                return d
            n += 1


def t_augassign(t, c, f, k):
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                if n == k:
                    d = ast.unparse(s)
                    b[i] = ast.Assign([s.target], ast.BinOp(N(s.target.id), s.op, s.value), lineno=0)
                    return d
                n += 1


SEQ = (ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp)


def seqish(e):
    if isinstance(e, SEQ) or (isinstance(e, ast.Constant) and isinstance(e.value, str)):
        return True
    if isinstance(e, ast.BinOp):
        return seqish(e.left) or seqish(e.right)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "str"):
        return True
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
        return True
    return False


def t_commute(t, c, f, k):
    n = 0
    for e in ast.walk(f):
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)) and not seqish(e) and not isinstance(e.right, ast.Name):
            if n == k:
                d = ast.unparse(e)
                e.left, e.right = e.right, e.left
                return d
            n += 1
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq):
            if n == k:
                d = ast.unparse(e)
                o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}[type(e.ops[0])]
                e.left, e.comparators, e.ops = e.comparators[0], [e.left], [o()]
                return d
            n += 1


def t_negated_cmp(t, c, f, k):
    n = 0
    for e in list(ast.walk(f)):
        tests = [e.test] if isinstance(e, (ast.If, ast.IfExp, ast.Assert)) else []
        for q in tests:
            if isinstance(q, ast.Compare) and len(q.ops) == 1 and type(q.ops[0]) in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn):
                if n == k:
                    d = ast.unparse(q)
                    o = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}[type(q.ops[0])]
                    e.test = negate(ast.Compare(q.left, [o()], q.comparators))
                    return d
                n += 1
            if isinstance(q, ast.BoolOp):
                if n == k:
                    d = ast.unparse(q)
                    o = ast.Or() if isinstance(q.op, ast.And) else ast.And()
                    e.test = negate(ast.BoolOp(o, [negate(v) for v in q.values]))
                    return d
                n += 1


def t_ternary_to_if(t, c, f, k):
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                if n == k:
                    d = ast.unparse(s)
                    a, z = copy.deepcopy(s), copy.deepcopy(s)
                    a.value, z.value = s.value.body, s.value.orelse
                    b[i] = ast.If(s.value.test, [a], [z])
                    return d
                n += 1


def t_if_to_ternary(t, c, f, k):
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and type(s.body[0]) is type(s.orelse[0]):
                x, y = s.body[0], s.orelse[0]
                ok = isinstance(x, ast.Return) and x.value is not None and y.value is not None
                ok = ok or (isinstance(x, ast.Assign) and ast.unparse(x.targets[0]) == ast.unparse(y.targets[0]))
                if ok:
                    if n == k:
                        d = ast.unparse(s.test)
                        x.value = ast.IfExp(s.test, x.value, y.value)
                        b[i] = x
                        return d
                    n += 1
            if isinstance(s, ast.If) and len(s.body) == 1 and not s.orelse and isinstance(s.body[0], ast.Assign) and isinstance(s.body[0].targets[0], ast.Name):
                x = s.body[0]
                if x.targets[0].id in params(f):
                    if n == k:
                        d = ast.unparse(s.test)
                        x.value = ast.IfExp(s.test, x.value, N(x.targets[0].id))
                        b[i] = x
                        return d
                    n += 1


def t_rename(t, c, f, k):
    loc = sorted(names_stored(f) - set(params(f)) - comp_vars(f))
    glob = {g for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
    loc = [x for x in loc if x not in glob]
    if not loc or k:
        return None
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id in loc:
            x.id = "renamed_" + x.id
    return ",".join(loc)


def t_rename_comp(t, c, f, k):
    cv = sorted(comp_vars(f))
    if k or not cv:
        return None
    if set(cv) & set(params(f)):
        return None
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id in cv:
            x.id = "renamed_" + x.id
        if isinstance(x, ast.Lambda):
            for p in x.args.args:
                p.arg = "renamed_" + p.arg
    return ",".join(cv)


METH = {"mean", "sum", "abs", "exp", "log", "round", "floor", "ceil", "clamp", "reshape", "permute", "sqrt", "sign", "flatten", "unsqueeze", "squeeze", "tanh", "matmul", "log2", "argmin", "detach", "transpose", "softmax"}


def t_torch_method(t, c, f, k):
    """torch.f(x, ...) <-> x.f(...)"""
    n = 0
    for e in ast.walk(f):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in METH - {"detach"} and isinstance(e.func.value, ast.Name) and e.func.value.id == "torch" and e.args:
            if n == k:
                d = ast.unparse(e)
                e.func.value = e.args.pop(0)
                return d
            n += 1
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in METH - {"permute", "reshape", "detach"} and isinstance(e.func.value, (ast.Name, ast.Call, ast.BinOp)) \
                and not (isinstance(e.func.value, ast.Name) and e.func.value.id in ("torch", "math", "np", "numpy", "F", "self", "pd", "jnp", "super")):
            if n == k:
                d = ast.unparse(e)
                e.args.insert(0, e.func.value)
                e.func.value = N("torch")
                return d
            n += 1


def t_shape(t, c, f, k):
    """x.shape[i] <-> x.size(i)"""
    n = 0
    for e in ast.walk(f):
        for fld, v in ast.iter_fields(e):
            vs = v if isinstance(v, list) else [v]
            for j, x in enumerate(vs):
                new = None
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == "shape" and isinstance(x.slice, (ast.Constant, ast.UnaryOp)):
                    new = ast.Call(ast.Attribute(x.value.value, "size", ast.Load()), [x.slice], [])
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "size" and len(x.args) == 1 and not x.keywords:
                    new = ast.Subscript(ast.Attribute(x.func.value, "shape", ast.Load()), x.args[0], ast.Load())
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "size" and not x.args and not x.keywords:
                    new = ast.Attribute(x.func.value, "shape", ast.Load())
                elif isinstance(x, ast.Attribute) and x.attr == "ndim":
                    new = ast.Call(ast.Attribute(x.value, "dim", ast.Load()), [], [])
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "dim" and not x.args:
                    new = ast.Attribute(x.func.value, "ndim", ast.Load())
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "view":
                    new = ast.Call(ast.Attribute(x.func.value, "reshape", ast.Load()), x.args, x.keywords)
                if new is None:
                    continue
                if n == k:
                    d = ast.unparse(x)
                    if isinstance(v, list):
                        v[j] = new
                    else:
                        setattr(e, fld, new)
                    return d
                n += 1


def t_split_tuple(t, c, f, k):
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and not has(s.targets[0], ast.Starred):
                tg = s.targets[0]
                if n == k:
                    d = ast.unparse(s)
                    if isinstance(s.value, ast.Tuple) and not (names_stored(tg) & names_loaded(s.value)):
                        b[i:i + 1] = [ast.Assign([x], v, lineno=0) for x, v in zip(tg.elts, s.value.elts)]
                    elif not isinstance(s.value, ast.Tuple):
                        b[i:i + 1] = [assign("packed_values", s.value)] + [ast.Assign([x], ast.Subscript(N("packed_values"), ast.Constant(j), ast.Load()), lineno=0) for j, x in enumerate(tg.elts)]
                    return d
                n += 1


def t_assert(t, c, f, k):
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assert):
                if n == k:
                    d = ast.unparse(s)
                    b[i] = ast.If(negate(s.test), [ast.Raise(ast.Call(N("AssertionError"), [s.msg] if s.msg else [], []), None)], [])
                    return d
                n += 1


def t_message(t, c, f, k):
    n = 0
    for s in ast.walk(f):
        if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call):
            if n == k:
                s.exc.args = [ast.Constant("other words")]
                return ast.unparse(s)
            n += 1


def t_elif(t, c, f, k):
    """nested ifs <-> and"""
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                if n == k:
                    d = ast.unparse(s.test)
                    inner = ast.If(s.test.values[-1], s.body, [])
                    s.test = s.test.values[0] if len(s.test.values) == 2 else ast.BoolOp(ast.And(), s.test.values[:-1])
                    s.body = [inner]
                    return d
                n += 1
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                if n == k:
                    d = ast.unparse(s.test)
                    s.test = ast.BoolOp(ast.And(), [s.test, s.body[0].test])
                    s.body = s.body[0].body
                    return d
                n += 1
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and ends(s.body):
                if n == k:
                    d = ast.unparse(s.test)
                    s2 = ast.If(ast.BoolOp(ast.Or(), s.test.values[1:]) if len(s.test.values) > 2 else s.test.values[1], copy.deepcopy(s.body), [])
                    s.test = s.test.values[0]
                    b.insert(i + 1, s2)
                    return d
                n += 1


def t_const(t, c, f, k):
    """numbers and names become module constants"""
    n = 0
    skip = set()
    for e in ast.walk(f):
        if isinstance(e, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(e)}
        if isinstance(e, ast.Raise):
            skip |= {id(x) for x in ast.walk(e)}
    for b in blocks(f):
        for s in b:
            for e in ast.walk(s):
                for fld, v in ast.iter_fields(e):
                    vs = v if isinstance(v, list) else [v]
                    for j, x in enumerate(vs):
                        if isinstance(x, ast.Constant) and id(x) not in skip and isinstance(x.value, (int, float, str)) and not isinstance(e, ast.Expr) and not isinstance(x.value, bool):
                            if n == k * 3:
                                if isinstance(v, list):
                                    v[j] = N("_MODULE_CONSTANT")
                                else:
                                    setattr(e, fld, N("_MODULE_CONSTANT"))
                                i = next((i for i, z in enumerate(t.body) if isinstance(z, (ast.FunctionDef, ast.ClassDef))), 0)
                                t.body.insert(i, assign("_MODULE_CONSTANT", ast.Constant(x.value)))
                                return repr(x.value)
                            n += 1


def t_self_alias(t, c, f, k):
    """local name for an attribute read more than once"""
    if c is None or not f.args.args:
        return None
    sn = f.args.args[0].arg
    stored = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    methods = {m.name for m in c.body if isinstance(m, ast.FunctionDef)}
    cnt = {}
    for x in ast.walk(f):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == sn and isinstance(x.ctx, ast.Load):
            cnt[x.attr] = cnt.get(x.attr, 0) + 1
    if f.name == "__init__":
        return None
    cands = sorted(a for a in cnt if a not in stored and a not in methods)
    if k >= len(cands):
        return None
    a = cands[k]
    class V(ast.NodeTransformer):
        def visit_Attribute(self, x):
            if x.attr == a and isinstance(x.value, ast.Name) and x.value.id == sn:
                return N("attribute_alias")
            return self.generic_visit(x)
    start = 1 if f.body and is_doc(f.body[0]) else 0
    f.body[start:] = [V().visit(s) for s in f.body[start:]]
    f.body.insert(start, assign("attribute_alias", ast.Attribute(N(sn), a, ast.Load())))
    return a


def t_closure(t, c, f, k):
    """value computed by a local function"""
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and isinstance(s.value, (ast.Call, ast.BinOp, ast.IfExp)) and not impure(s.value) and not uses_super(s.value):
                if n == k:
                    d = ast.unparse(s.value)
                    g = ast.FunctionDef("local_helper", ast.arguments([], [], None, [], [], None, []), [ast.Return(s.value)], [], None, lineno=0)
                    s.value = ast.Call(N("local_helper"), [], [])
                    b.insert(i, g)
                    return d
                n += 1


def t_annotate(t, c, f, k):
    if k:
        return None
    done = []
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                b[i] = ast.AnnAssign(s.targets[0], ast.Constant("object"), s.value, 1)
                done.append(s.targets[0].id)
    return ",".join(done) or None


def t_noop(t, c, f, k):
    """statements without effect"""
    start = 1 if f.body and is_doc(f.body[0]) else 0
    opts = ["pass", "_unused = 0", "_unused = None\ndel _unused", "0", "if False:\n    pass", "for _unused in ():\n    pass"]
    if k >= len(opts):
        return None
    f.body[start:start] = ast.parse(opts[k]).body
    return opts[k]


def t_list_arg(t, c, f, k):
    """any([..]) <-> any(..), f(*[a, b]) for Sequential"""
    n = 0
    for e in ast.walk(f):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all", "sum", "tuple", "list", "set", "max", "min") and len(e.args) == 1 and isinstance(e.args[0], (ast.ListComp, ast.GeneratorExp)):
            if n == k:
                d = ast.unparse(e)
                a = e.args[0]
                e.args[0] = (ast.GeneratorExp if isinstance(a, ast.ListComp) else ast.ListComp)(a.elt, a.generators)
                return d
            n += 1
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Attribute, ast.Name)) and ast.unparse(e.func).endswith("Sequential") and len(e.args) > 1:
            if n == k:
                d = ast.unparse(e)[:80]
                e.args = [ast.Starred(ast.List(e.args, ast.Load()), ast.Load())]
                return d
            n += 1


def t_seq_list(t, c, f, k):
    """Sequential(a, b) -> layers = [a]; layers.append(b); Sequential(*layers)"""
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            v = value_of(s)
            if isinstance(v, ast.Call) and ast.unparse(v.func).endswith("Sequential") and len(v.args) > 1 and not any(isinstance(a, ast.Starred) for a in v.args):
                if n == k:
                    d = ast.unparse(v)[:80]
                    pre = [assign("layer_list", ast.List([], ast.Load()))] + [ast.Expr(ast.Call(ast.Attribute(N("layer_list"), "append", ast.Load()), [a], [])) for a in v.args]
                    v.args = [ast.Starred(N("layer_list"), ast.Load())]
                    b[i:i] = pre
                    return d
                n += 1


def t_kw(m):
    def g(t, c, f, k):
        """positional <-> keyword arguments of the repository's own functions"""
        from ncsa.repo import FuncDef, ClassDef
        n = 0
        cls = m.repo.entity(m, c.name) if c is not None else None
        for e in ast.walk(f):
            if not isinstance(e, ast.Call) or any(isinstance(a, ast.Starred) for a in e.args) or any(kk.arg is None for kk in e.keywords):
                continue
            fd, drop = None, 0
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and cls is not None:
                fd = cls.find(e.func.attr)
                drop = 0 if fd is not None and fd.is_static else 1
            else:
                fd = m.repo.resolve_expr(m, e.func)
                if isinstance(e.func, ast.Name) and e.func.id in locals_of(f):
                    fd = None
                if isinstance(fd, ClassDef):
                    fd = fd.find("__init__")
                    drop = 1
            if not isinstance(fd, FuncDef) or fd.node.args.vararg or fd.node.args.posonlyargs:
                continue
            ps = [p.arg for p in fd.node.args.args][drop:]
            if e.args and len(e.args) <= len(ps):
                if n == k:
                    d = ast.unparse(e)[:100]
                    e.keywords = [ast.keyword(p, a) for p, a in zip(ps, e.args)] + e.keywords
                    e.args = []
                    return d
                n += 1
            elif e.keywords and not e.args:
                kws = {x.arg: x.value for x in e.keywords}
                pre = []
                for p in ps:
                    if p not in kws:
                        break
                    pre.append(p)
                if pre:
                    if n == k:
                        d = ast.unparse(e)[:100]
                        e.args = [kws[p] for p in pre]
                        e.keywords = [x for x in e.keywords if x.arg not in pre]
                        return d
                    n += 1
    return g


def t_private_rename(t, c, f, k):
    """rename a private method / function everywhere in the module (if not used elsewhere)"""
    if k or not f.name.startswith("_") or f.name.startswith("__"):
        return None
    old = f.name
    if used_elsewhere(old, t.module):
        return "skip"
    for x in ast.walk(t):
        if isinstance(x, ast.Attribute) and x.attr == old:
            x.attr = old + "_renamed"
        if isinstance(x, ast.Name) and x.id == old:
            x.id = old + "_renamed"
        if isinstance(x, ast.FunctionDef) and x.name == old:
            x.name = old + "_renamed"
    return old


def used_elsewhere(name, m):
    import subprocess
    r = subprocess.run(["grep", "-rlw", "--include=*.py", name, os.path.join(R.REPO)], capture_output=True, text=True).stdout.split()
    return any(os.path.realpath(x) != os.path.realpath(m.path) for x in r)


def t_attr_rename(t, c, f, k):
    """rename a private attribute this function stores, everywhere in the module"""
    names = []
    for x in ast.walk(f):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Store) and x.attr.startswith("_") and not x.attr.startswith("__"):
            if x.attr not in names:
                names.append(x.attr)
    if k >= len(names):
        return None
    old = names[k]
    if any(isinstance(x, ast.Constant) and x.value == old for x in ast.walk(t)) or used_elsewhere(old, t.module):
        return "skip"
    for x in ast.walk(t):
        if isinstance(x, ast.Attribute) and x.attr == old:
            x.attr = old + "_attr"
    for d in t.body:
        for s in d.body if isinstance(d, ast.ClassDef) else []:
            for x in ast.walk(s) if isinstance(s, (ast.Assign, ast.AnnAssign)) else []:
                if isinstance(x, ast.Name) and x.id == old:
                    x.id = old + "_attr"
    return old


def t_with_split(t, c, f, k):
    """return inside with -> after it"""
    n = 0
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.With) and isinstance(s.body[-1], ast.Return) and s.body[-1].value is not None:
                if n == k:
                    r = s.body[-1]
                    s.body[-1] = assign("with_result", r.value)
                    b.insert(i + 1, ast.Return(N("with_result")))
                    return "with"
                n += 1


ALL = [t_hoist, t_inline, t_extract_expr, t_extract_tail, t_extract_block, t_invert_if, t_guard_to_else, t_else_to_guard, t_result_var, t_comp_to_loop, t_loop_to_comp, t_index_loop, t_enumerate_loop,
       t_unpack_in_body, t_while_loop, t_swap, t_augassign, t_commute, t_negated_cmp, t_ternary_to_if, t_if_to_ternary, t_rename, t_rename_comp, t_torch_method, t_shape, t_split_tuple, t_assert, t_message,
       t_elif, t_const, t_self_alias, t_closure, t_annotate, t_noop, t_list_arg, t_seq_list, t_private_rename, t_attr_rename, t_with_split]


def sites(m, q):
    from campaign import funcs_of
    for tr in ALL + ["kw"]:
        name = "kw" if tr == "kw" else tr.__name__[2:]
        fn = t_kw(m) if tr == "kw" else tr
        for k in range(MAX):
            t = copy.deepcopy(m.tree)
            t.module = m
            c, f = funcs_of(t)[q]
            d = fn(t, c, f, k)
            if d is None:
                break
            if d == "skip":
                continue
            yield name, d, t
