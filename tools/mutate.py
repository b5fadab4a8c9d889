"""Behaviour-changing edits of one function, one site at a time (see campaign.py)."""
import ast
import copy

from refactor import blocks, is_doc, locals_of, params, names_loaded, N

MAX = 40


def in_message(f):
    out = set()
    for e in ast.walk(f):
        if isinstance(e, ast.Raise) or isinstance(e, ast.JoinedStr):
            out |= {id(x) for x in ast.walk(e)}
        if isinstance(e, ast.Assert) and e.msg is not None:
            out |= {id(x) for x in ast.walk(e.msg)}
        if isinstance(e, (ast.arg, ast.AnnAssign)) and e.annotation is not None:
            out |= {id(x) for x in ast.walk(e.annotation)}
    if f.returns is not None:
        out |= {id(x) for x in ast.walk(f.returns)}
    for d in f.decorator_list:
        out |= {id(x) for x in ast.walk(d)}
    return out


def nodes(f, *types):
    skip = in_message(f)
    for b in ast.walk(f):
        if isinstance(b, types) and id(b) not in skip:
            yield b


BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def m_binop(t, c, f, k):
    for i, e in enumerate(nodes(f, ast.BinOp)):
        if i == k:
            d = ast.unparse(e)
            e.op = BIN.get(type(e.op), ast.Add)()
            return d + " -> " + ast.unparse(e)


def m_augop(t, c, f, k):
    for i, e in enumerate(nodes(f, ast.AugAssign)):
        if i == k:
            d = ast.unparse(e)
            e.op = BIN.get(type(e.op), ast.Add)()
            return d


def m_cmp(t, c, f, k):
    for i, e in enumerate(nodes(f, ast.Compare)):
        if i == k:
            d = ast.unparse(e)
            e.ops[0] = CMP[type(e.ops[0])]()
            return d + " -> " + ast.unparse(e)


def m_bool(t, c, f, k):
    for i, e in enumerate(nodes(f, ast.BoolOp)):
        if i == k:
            d = ast.unparse(e)
            e.op = ast.Or() if isinstance(e.op, ast.And) else ast.And()
            return d


def m_const(t, c, f, k):
    i = 0
    docs = {id(s.value) for b in blocks(f) for s in b if is_doc(s)}
    for e in nodes(f, ast.Constant):
        if id(e) in docs or e.value is Ellipsis:
            continue
        alts = []
        if isinstance(e.value, bool):
            alts = [not e.value]
        elif isinstance(e.value, int):
            alts = [e.value + 1, e.value - 1]
        elif isinstance(e.value, float):
            alts = [e.value * 2 if e.value else 1.0]
        elif isinstance(e.value, str):
            alts = [e.value + "x"]
        elif e.value is None:
            alts = [0]
        for a in alts:
            if i == k:
                d = "%r -> %r" % (e.value, a)
                e.value = a
                return d + " at line %d" % getattr(e, "lineno", 0)
            i += 1


def m_argswap(t, c, f, k):
    i = 0
    for e in nodes(f, ast.Call):
        for j in range(len(e.args) - 1):
            if i == k:
                d = ast.unparse(e)[:120]
                e.args[j], e.args[j + 1] = e.args[j + 1], e.args[j]
                return d + " swap %d" % j
            i += 1


def m_dropkw(t, c, f, k):
    i = 0
    for e in nodes(f, ast.Call):
        for j in range(len(e.keywords)):
            if i == k:
                d = ast.unparse(e)[:120] + " without " + str(e.keywords[j].arg)
                del e.keywords[j]
                return d
            i += 1


def m_dropstmt(t, c, f, k):
    i = 0
    for b in blocks(f):
        for j, s in enumerate(b):
            if is_doc(s) or isinstance(s, (ast.Return, ast.Pass, ast.Import, ast.ImportFrom)):
                continue
            if i == k:
                d = ast.unparse(s)[:120]
                b[j] = ast.Pass()
                return d
            i += 1


def m_cond(t, c, f, k):
    i = 0
    for e in nodes(f, ast.If, ast.IfExp):
        for v in (True, False):
            if i == k:
                d = ast.unparse(e.test)
                e.test = ast.Constant(v)
                return d + " -> %s" % v
            i += 1


def m_tuple(t, c, f, k):
    i = 0
    for e in nodes(f, ast.Tuple, ast.List):
        for j in range(len(e.elts) - 1):
            if ast.unparse(e.elts[j]) == ast.unparse(e.elts[j + 1]):
                continue
            if i == k:
                d = ast.unparse(e)[:120]
                e.elts[j], e.elts[j + 1] = e.elts[j + 1], e.elts[j]
                return d + " swap %d" % j
            i += 1


def m_name(t, c, f, k):
    """another local instead of this one"""
    loc = sorted(set(params(f)) - {"self", "cls"}) + sorted(x for x in locals_of(f) - set(params(f)))
    i = 0
    for e in nodes(f, ast.Name):
        if isinstance(e.ctx, ast.Load) and e.id in loc and len(loc) > 1:
            if i == k:
                j = (loc.index(e.id) + 1 + k % (len(loc) - 1)) % len(loc)
                alt = loc[j] if loc[j] != e.id else loc[(j + 1) % len(loc)]
                d = "%s -> %s at line %d col %d" % (e.id, alt, e.lineno, e.col_offset)
                e.id = alt
                return d
            i += 1


ATTR = {"floor": "ceil", "ceil": "floor", "min": "max", "max": "min", "height": "width", "width": "height", "round": "floor", "mean": "sum", "sum": "mean", "log": "exp", "exp": "log", "log2": "log",
        "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like", "ones_like": "zeros_like", "relu": "tanh", "train": "eval", "eval": "train", "argmin": "argmax", "append": "extend", "cdf": "log_prob",
        "lower_tail": "upper_tail", "upper_tail": "lower_tail", "sin": "cos", "cos": "sin", "Conv2d": "ConvTranspose2d", "clamp": "round", "keys": "values", "sqrt": "exp"}


def m_attr(t, c, f, k):
    i = 0
    for e in nodes(f, ast.Attribute):
        if e.attr in ATTR:
            if i == k:
                d = ast.unparse(e)
                e.attr = ATTR[e.attr]
                return d
            i += 1


def m_selfattr(t, c, f, k):
    """another attribute read in this class"""
    if c is None:
        return None
    attrs = sorted({x.attr for m in c.body if isinstance(m, ast.FunctionDef) and m.name == "__init__" for x in ast.walk(m) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Store)})
    i = 0
    for e in nodes(f, ast.Attribute):
        if isinstance(e.value, ast.Name) and e.value.id == "self" and isinstance(e.ctx, ast.Load) and e.attr in attrs and len(attrs) > 1:
            if i == k:
                d = e.attr
                e.attr = attrs[(attrs.index(e.attr) + 1) % len(attrs)]
                return d + " -> " + e.attr
            i += 1


DROPM = {"detach", "clone", "float", "contiguous", "to", "long", "int", "copy", "round", "clamp", "abs", "cpu", "sum", "mean", "sqrt", "exp", "permute", "transpose", "flatten", "type", "relu", "sorted", "reversed"}


def m_dropcall(t, c, f, k):
    """x.f() -> x, f(x) -> x"""
    i = 0
    skip = in_message(f)
    for e in ast.walk(f):
        for fld, v in ast.iter_fields(e):
            vs = v if isinstance(v, list) else [v]
            for j, x in enumerate(vs):
                if not isinstance(x, ast.Call) or id(x) in skip:
                    continue
                new = None
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ("torch", "F", "math", "self"):
                    new = x.args[0] if x.args else None
                elif isinstance(x.func, ast.Attribute) and x.func.attr in DROPM:
                    new = x.func.value
                elif isinstance(x.func, ast.Name) and len(x.args) >= 1:
                    new = x.args[0]
                if new is None or isinstance(new, (ast.Starred, ast.GeneratorExp)):
                    continue
                if i == k:
                    d = ast.unparse(x)[:120]
                    if isinstance(v, list):
                        v[j] = new
                    else:
                        setattr(e, fld, new)
                    return d
                i += 1


def m_slice(t, c, f, k):
    i = 0
    for e in nodes(f, ast.Subscript):
        parts = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        for p in parts:
            if isinstance(p, ast.Slice):
                for w in ("lower", "upper", "step"):
                    if getattr(p, w) is not None:
                        if i == k:
                            d = ast.unparse(e)
                            setattr(p, w, None)
                            return d + " -> " + ast.unparse(e)
                        i += 1


def m_with(t, c, f, k):
    i = 0
    for b in blocks(f):
        for j, s in enumerate(b):
            if isinstance(s, ast.With):
                if i == k:
                    d = ast.unparse(s.items[0])
                    b[j:j + 1] = s.body
                    return "without " + d
                i += 1
    if k == i and f.decorator_list:
        d = ast.unparse(f.decorator_list[-1])
        if d in ("property", "staticmethod", "classmethod") or "setter" in d or "contract" in d:
            return None
        f.decorator_list.pop()
        return "without decorator " + d


def m_default(t, c, f, k):
    ds = [(i, d) for i, d in enumerate(f.args.defaults + f.args.kw_defaults) if isinstance(d, ast.Constant) and isinstance(d.value, (bool, int, float))]
    if k < len(ds):
        d = ds[k][1]
        old = d.value
        d.value = (not old) if isinstance(old, bool) else old + 1
        return "default %r -> %r" % (old, d.value)


def m_unary(t, c, f, k):
    i = 0
    for e in ast.walk(f):
        for fld, v in ast.iter_fields(e):
            vs = v if isinstance(v, list) else [v]
            for j, x in enumerate(vs):
                if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.USub, ast.Invert)):
                    if i == k:
                        d = ast.unparse(x)
                        if isinstance(v, list):
                            v[j] = x.operand
                        else:
                            setattr(e, fld, x.operand)
                        return d
                    i += 1


def m_return(t, c, f, k):
    """return None / return before"""
    i = 0
    for b in blocks(f):
        for j, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None:
                if i == k:
                    d = ast.unparse(s)[:80]
                    s.value = ast.Constant(None)
                    return d
                i += 1


ALL = [m_binop, m_augop, m_cmp, m_bool, m_const, m_argswap, m_dropkw, m_dropstmt, m_cond, m_tuple, m_name, m_attr, m_selfattr, m_dropcall, m_slice, m_with, m_default, m_unary, m_return]


def sites(m, q):
    from campaign import funcs_of
    orig = ast.unparse(m.tree)
    for tr in ALL:
        for k in range(MAX):
            t = copy.deepcopy(m.tree)
            c, f = funcs_of(t)[q]
            d = tr(t, c, f, k)
            if d is None:
                break
            if ast.unparse(ast.fix_missing_locations(t)) == orig:
                continue
            yield tr.__name__[2:], d, t
