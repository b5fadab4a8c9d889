"""Interprocedural gated value-flow extraction.

Builds, for one function, the normal form of everything observable about a call:
which condition raises which exception, what is returned under which condition,
what is stored into the object, and which effects are performed under which
condition, all as functions of the parameters.  All paths are covered at once
(values are merged at joins); repository helpers are expanded at their call
sites; external functions stay uninterpreted.
"""
import ast
from . import terms as T
from .terms import (mk, const, sym, fresh, ite, atom, b_and, b_or, b_not, TRUE, FALSE, NONE, truth, lift,
                    is_const, cval, is_num, is_boolconst, is_boolean, Node)
from .repo import Repo, Module, ClassDef, FuncDef, Ext
from . import kb
from . import aliases

UNROLL = 3
MAX_CONCRETE = 40
MAX_DEPTH = 40


class AnchorError(Exception):
    """a name the contracts rely on cannot be found"""


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ smart constructors needing context

_RANKS = {}            # node id -> tensor rank learnt from unpacking
_DEFAULT_RANK = [None]


ELEMENTWISE = ("t:cpu", "t:float", "t:double", "t:to", "t:clone", "t:contiguous", "t:detach", "t:softmax", "t:log_softmax", "t:cumsum", "t:cumprod", "t:normalize", "t:full_like",
               "t:zeros_like", "t:ones_like", "t:rand_like", "t:randn_like", "t:masked_fill", "t:leaky_relu", "t:dropout", "t:transpose", "t:flip", "t:roll", "t:pad", "t:softplus")
REDUCTIONS = ("t:sum", "t:mean", "t:prod", "t:var", "t:std", "t:argmin", "t:argmax", "t:logsumexp", "t:norm", "t:any", "t:all", "t:amax", "t:amin")


def rank_of(x):
    r = _RANKS.get(x.id)
    if r is None:
        r = _rank(x)
    return r if r is not None else _DEFAULT_RANK[0] if x.op not in ("sub",) else None


def known_rank(x):
    r = _RANKS.get(x.id)
    return r if r is not None else _rank(x)


def learn(x, r):
    if x is not None and x.op in ("sym", "attr", "call", "sub", "ng") and _RANKS.get(x.id) is None and _rank(x) is None:
        _RANKS[x.id] = r


def broadcast(a, b):
    """x.repeat(y.shape[0], 1, ..) + y is x + y"""
    if a.op == "call" and a.args[0] in ("t:repeat", "t:expand") and b.op not in ("const",):
        kw = dict(a.args[2])
        sh = kw.get("shape")
        if _plain(sh) and "x" in kw:
            one = (const(1),) if a.args[0] == "t:repeat" else (const(-1),)
            if all(d in one or d.op == "sub" and d.args[0].op == "attr" and d.args[0].args[1] == "shape" and d.args[0].args[0] is b and d.args[1] is const(i)
                   for i, d in enumerate(sh.args[0])) and any(d not in one for d in sh.args[0]):
                return kw["x"]
    if a.op == "call" and a.args[0] in ("t:expand_as",) and len(a.args[1]) + len(a.args[2]) == 2:
        o = dict(a.args[2]).get("other", a.args[1][0] if a.args[1] else None)
        if o is b:
            return dict(a.args[2])["x"]
    return a


def _plain(n):
    return n is not None and n.op in ("tuple", "list") and not any(i.op == "star" for i in n.args[0])


def _rank(x):
    """tensor rank implied by the operations that produced x"""
    op = x.op
    if op in ("ng", "store"):
        return rank_of(x.args[0])
    if op == "fn" and x.args[0] != "sum":
        return rank_of(x.args[1])
    if op == "poly":
        rs = []
        for m, _ in x.args:
            for a, e in m:
                if a.op in ("ite", "const", "len", "ndim") or a.op == "sub" and a.args[0].op == "attr" and a.args[0].args[1] == "shape":
                    continue
                r = known_rank(a)
                if r is None:
                    return None
                rs.append(r)
        return max(rs) if rs else None
    if op == "call":
        f = x.args[0]
        kw = dict(x.args[2])
        if isinstance(f, Node):
            if f.op == "ext" and f.args[0] in ("torch.zeros", "torch.ones", "torch.empty", "torch.rand", "torch.randn") and _plain(kw.get("size")):
                return len(kw["size"].args[0])
            if f.op == "ext" and f.args[0] in ("torch.linspace", "torch.arange"):
                return 1
            return None
        if f in ("t:permute", "t:reshape", "t:expand"):
            sh = kw.get("shape")
            return len(sh.args[0]) if _plain(sh) and sh.args[0] and not (len(sh.args[0]) == 1 and not _int(sh.args[0][0])) else None
        if f in ("t:flatten",) and set(kw) == {"x"}:
            return 1
        if f == "t:unsqueeze":
            r = rank_of(kw["x"]) if "x" in kw else None
            return None if r is None else r + 1
        if f == "t:squeeze" and "dim" in kw:
            return None
        if f == "t:unfold" and "kernel_size" in kw:
            return 3
        if f in ("t:grid_sample", "t:conv2d", "t:fold", "t:avg_pool2d"):
            return 4
        if f in ("t:cat", "t:stack"):
            t = kw.get("tensors")
            if t is not None and t.op in ("tuple", "list") and t.args[0]:
                rs = {rank_of(i) for i in t.args[0] if i.op != "star"} - {None}
                if len(rs) == 1:
                    return rs.pop() + (f == "t:stack")
            return None
        if f in ELEMENTWISE and "x" in kw:
            return rank_of(kw["x"])
        if f == "t:interpolate" and "x" in kw:
            return rank_of(kw["x"])
        if f in REDUCTIONS and "x" in kw:
            if "dim" not in kw or kw["dim"] is NONE:
                return 0
            r = rank_of(kw["x"])
            if r is None:
                return None
            if kw.get("keepdim", FALSE) is not FALSE:
                return r
            return r - (len(kw["dim"].args[0]) if _plain(kw["dim"]) else 1)
        return None
    if op == "sub":
        base, idx = x.args
        if base.op == "call" and base.args[0] == mk("ext", "torch.meshgrid") and _int(idx):
            t = dict(base.args[2]).get("tensors")
            return len(t.args[0]) if _plain(t) else None
        if base.op == "call" and base.args[0] in ("t:max", "t:min", "t:median", "t:sort") and _int(idx):
            kw = dict(base.args[2])
            r = known_rank(kw["x"])
            return None if r is None else r - (base.args[0] != "t:sort" and kw.get("keepdim", FALSE) is FALSE)
        r = known_rank(base)
        if r is None:
            return None
        items = idx.args[0] if idx.op == "tuple" else (idx,)
        if any(not (i.op == "slice" or _int(i)) for i in items):
            return None
        return r - sum(1 for i in items if _int(i))
    return None


def dim_norm(f, kw):
    """negative dimension arguments counted from the front when the rank is known"""
    name = f[2:] if isinstance(f, str) else ""
    keys = DIM_ARGS.get(name)
    if not keys:
        return kw
    x = kw.get("x")
    if name in ("cat", "stack"):
        t = kw.get("tensors")
        x = next((i for i in t.args[0] if i.op != "star"), None) if t is not None and t.op in ("tuple", "list") else None
    if x is None:
        return kw
    out = None
    for k in keys:
        d = kw.get(k)
        if d is None:
            continue
        neg_ = [i for i in (d.args[0] if _plain(d) else (d,)) if _int(i) and cval(i) < 0]
        if not neg_:
            continue
        r = rank_of(x)
        if r is None:
            continue
        r += name in ("unsqueeze", "stack")
        if out is None:
            out = dict(kw)
        fixd = lambda i: const(cval(i) + r) if _int(i) and -r <= cval(i) < 0 else i
        out[k] = mk(d.op, tuple(fixd(i) for i in d.args[0])) if _plain(d) else fixd(d)
    return out or kw


DIM_ARGS = {n: ("dim",) for n in "sum mean prod var std argmin argmax softmax log_softmax cat stack unsqueeze squeeze cumsum cumprod norm chunk split logsumexp max min median index_select gather any all normalize".split()}
DIM_ARGS["transpose"] = ("dim0", "dim1")
DIM_ARGS["flatten"] = ("start_dim", "end_dim")
DIM_ARGS["permute"] = ("shape",)


_DIMS = {}             # (node id, position) -> size stated by the contract's case


def dim_of(x, p):
    while True:
        r = _DIMS.get((x.id, p))
        if r is not None:
            return r
        if x.op == "attr" and (x.args[1], p) in _DIMS:
            return _DIMS[(x.args[1], p)]
        if x.op in ("store", "ng"):
            x = x.args[0]
        elif x.op == "call" and x.args[0] in ("t:full_like", "t:zeros_like", "t:ones_like", "t:empty_like", "t:clone", "t:detach", "t:round"):
            x = dict(x.args[2])["x"] if "x" in dict(x.args[2]) else dict(x.args[2]).get("input")
            if x is None:
                return None
        else:
            return None


_TYPES = {}            # node id -> (annotation, module) of parameters
_REPO = [None]


def type_of(n):
    """(annotation expression, module) of a value reached from an annotated parameter, Optional removed"""
    t = _TYPES.get(n.id)
    if t is None and n.op == "attr":
        c = record_type(n.args[0])
        if c is not None:
            for f, _, home in c.record_fields():
                if f == n.args[1]:
                    t = (home.annots[f], home.module)
    elif t is None and n.op == "sub" and _int(n.args[1]):
        b = type_of(n.args[0])
        h, items = type_args(b)
        if h in ("List", "list", "Sequence", "Iterable", "Collection") and len(items) == 1:
            t = (items[0], b[1])
        elif h in ("Tuple", "tuple") and len(items) == 2 and isinstance(items[1], ast.Constant) and items[1].value is Ellipsis:
            t = (items[0], b[1])
        elif h in ("Tuple", "tuple") and -len(items) <= cval(n.args[1]) < len(items):
            t = (items[cval(n.args[1])], b[1])
    if t is None:
        return None
    a, m = t
    for _ in range(4):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        elif isinstance(a, ast.Subscript) and ast.unparse(a.value).split(".")[-1] == "Optional":
            a = a.slice
        elif isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr) and isinstance(a.right, ast.Constant) and a.right.value is None:
            a = a.left
        else:
            break
    return a, m


def type_args(t):
    if t is None or not isinstance(t[0], ast.Subscript):
        return None, ()
    sl = t[0].slice
    return ast.unparse(t[0].value).split(".")[-1], tuple(sl.elts) if isinstance(sl, ast.Tuple) else (sl,)


def record_type(n):
    if n.op not in ("sym", "attr", "sub"):
        return None
    t = type_of(n)
    if t is None or not isinstance(t[0], (ast.Name, ast.Attribute)) or _REPO[0] is None:
        return None
    c = _REPO[0].resolve_expr(t[1], t[0])
    return c if isinstance(c, ClassDef) and c.record_fields() and any(b.split(".")[-1] == "NamedTuple" for b in c.ext_bases()) else None


def sized(n):
    """number of elements fixed by the annotation"""
    if n.op not in ("sym", "attr", "sub"):
        return None
    c = record_type(n)
    if c is not None:
        return len(c.record_fields())
    h, items = type_args(type_of(n))
    if h in ("Tuple", "tuple") and items and not any(isinstance(i, ast.Constant) and i.value is Ellipsis for i in items):
        return len(items)
    return None


def is_size(n):
    if n.op == "attr" and n.args[1] == "shape":
        return True
    if n.op not in ("sym", "attr", "sub"):
        return False
    t = type_of(n)
    return t is not None and isinstance(t[0], (ast.Name, ast.Attribute)) and ast.unparse(t[0]).split(".")[-1] == "Size"


ELEMENTWISE = set("tanh sigmoid exp log log1p expm1 round floor ceil sin cos tan erf erfc atanh trunc sign isnan isinf log2 log10 abs".split())


def attr_(x, name):
    return lift(lambda y: _attr(y, name), x)


def _attr(x, name):
    if x.op == "record":
        for f, v in x.args[1]:
            if f == name:
                return v
    if name == "ndim":
        return mk("ndim", x)
    if name in ("values", "indices") and x.op == "call" and x.args[0] in ("t:max", "t:min", "t:median", "t:sort"):
        return sub(x, const(0 if name == "values" else 1))
    if x.op == "ng" and name in ("shape", "device", "dtype", "ndim"):
        return _attr(x.args[0], name)
    if name == "shape" and x.op == "fn" and x.args[0] in ELEMENTWISE:
        return _attr(x.args[1], name)
    if name == "shape" and x.op == "call" and x.args[0] in ("t:to", "t:zeros_like", "t:ones_like", "t:softmax", "t:cpu", "t:cuda", "t:float", "t:double", "t:contiguous", "t:round") :
        for k, v in x.args[2]:
            if k == "x":
                return _attr(v, name)
    if name == "shape" and x.op == "call" and x.args[0] == "t:pad":
        kw = dict(x.args[2])
        r = rank_of(kw["x"])
        pads = kw.get("pad")
        if r is not None and pads is not None and pads.op in ("tuple", "list") and len(pads.args[0]) % 2 == 0 and len(pads.args[0]) // 2 <= r:
            p = pads.args[0]
            sh = _attr(kw["x"], "shape")
            dims = []
            for i in range(r):
                j = r - 1 - i
                d = sub(sh, const(i))
                if 2 * j + 1 < len(p):
                    d = T.add(d, T.add(p[2 * j], p[2 * j + 1]))
                dims.append(d)
            return mk("tuple", tuple(dims))
    if name == "T":
        return mk("call", "t:t", (), (("x", x),))
    return mk("attr", x, name)


def _idx_norm(base, idx):
    """normalise an index tuple on an array-like base"""
    if idx.op != "tuple":
        items = (idx,)
    else:
        items = idx.args[0]
    full = mk("slice", NONE, NONE, NONE)
    ell = const(Ellipsis)
    items = list(items)
    r = rank_of(base)
    if ell in items:
        i = items.index(ell)
        nn = sum(1 for y in items if y is not ell and y is not NONE)
        if r is not None and nn <= r:
            items[i:i + 1] = [full] * (r - nn)
        elif i == len(items) - 1:
            items.pop()
    items = [mk("slice", const(0) if False else (NONE if y.op == "slice" and y.args[0] is const(0) else y.args[0]), y.args[1],
                NONE if y.args[2] is const(1) else y.args[2]) if y.op == "slice" else y for y in items]
    while items and items[-1] is full:
        items.pop()
    if _DIMS and ell not in items and NONE not in items:
        for p, y in enumerate(items):
            if _int(y) and cval(y) < 0:
                d = dim_of(base, p)
                if d is not None:
                    items[p] = const(cval(y) + d)
    if not items:
        return None
    if len(items) == 1:
        return items[0]
    return mk("tuple", tuple(items))


def sub(base, idx):
    return lift(_sub, base, idx)


def _int(n):
    return is_num(n) and isinstance(cval(n), int)


def _sub(base, idx):
    if base.op == "mlist" and idx.op != "slice":
        return sub(base.args[0], idx)
    if base.op in ("tuple", "list") and not (idx.op == "tuple"):
        items = base.args[0]
        if not any(x.op == "star" for x in items):
            if _int(idx) and -len(items) <= cval(idx) < len(items):
                return items[cval(idx)]
            if idx.op == "slice" and all(a is NONE or _int(a) for a in idx.args):
                s = slice(*[None if a is NONE else cval(a) for a in idx.args])
                return mk(base.op, tuple(items[s]))
        elif _int(idx):
            i = cval(idx)
            if i >= 0 and all(x.op != "star" for x in items[:i + 1]) and i < len(items):
                return items[i]
            if i < 0 and all(x.op != "star" for x in items[i:]) and -i <= len(items):
                return items[i]
            if i >= 0 and items[0].op == "star" and False:
                pass
    if base.op == "cmap" and base.args[1] is TRUE and len(base.args[2]) == 1 and idx.op != "slice" and base.args[2][0].op != "star":
        b = sym("$b%d" % T.level_of("cmap", base.args))
        if _int(idx) and cval(idx) < 0:
            idx = T.add(base.args[0], idx)
        return T.subst(base.args[2][0], {b: idx})
    if base.op == "store" and idx.op != "slice":
        if base.args[1] is idx:
            return base.args[2]
        if T.distinct_consts(base.args[1], idx):
            return _sub(base.args[0], idx)
    if base.op == "dictof" and base.args[0].op == "cmap":
        count, k, cond, items = open_cmap(base.args[0])
        if cond is TRUE and len(items) == 1 and items[0].op == "tuple" and len(items[0].args[0]) == 2 and items[0].args[0][0] is k:
            return T.subst(items[0].args[0][1], {k: idx})
    if base.op == "call" and base.args[0] == "t:unbind" and _int(idx) and cval(idx) >= 0:
        kw = dict(base.args[2])
        return _sub(kw["x"], mk("tuple", tuple([mk("slice", NONE, NONE, NONE)] * cval(kw["dim"]) + [idx])))
    if base.op == "range" and idx.op != "slice":
        return T.add(base.args[0], T.mul(base.args[2], idx))
    if base.op == "record" and _int(idx):
        fs = base.args[1]
        if -len(fs) <= cval(idx) < len(fs):
            return fs[cval(idx)][1]
    if base.op == "dict":
        ents = base.args[0]
        if not any(k.op == "star" for k, _ in ents):
            if is_const(idx) or idx.op in ("ext", "class"):
                for k, v in reversed(ents):
                    if k is idx:
                        return v
            elif all(is_const(k) or k.op in ("ext", "class") for k, _ in ents) and 0 < len(ents) <= 32:
                r = mk("keyerr", base, idx)
                for k, v in ents:
                    r = ite(T.eq(idx, k), v, r)
                return r
            else:
                for k, v in reversed(ents):
                    if k is idx:
                        return v
    if base.op == "const" and isinstance(cval(base), (str, bytes)) and _int(idx):
        try:
            return const(cval(base)[cval(idx)])
        except IndexError:
            pass
    if _TYPES and _int(idx):
        c = record_type(base)
        if c is not None:
            fs = c.record_fields()
            if -len(fs) <= cval(idx) < len(fs):
                return _attr(base, fs[cval(idx)][0])
        n = sized(base)
        if n is not None and -n <= cval(idx) < 0:
            return mk("sub", base, const(cval(idx) + n))
    if idx.op == "slice" and all(a is NONE or _int(a) for a in idx.args) and (_TYPES and sized(base)):
        return mk("tuple", tuple(_sub(base, const(i)) for i in range(sized(base))[slice(*[None if a is NONE else cval(a) for a in idx.args])]))
    if base.op != "attr" and is_size(base) and idx.op == "slice" and _int(idx.args[0]) and cval(idx.args[0]) < 0 and idx.args[1] is NONE and idx.args[2] is NONE:
        return mk("tuple", tuple(_sub(base, const(i)) for i in range(cval(idx.args[0]), 0)))
    if base.op == "attr" and base.args[1] == "shape":
        r = rank_of(base.args[0])
        if _int(idx) and cval(idx) < 0 and r is not None:
            idx = const(cval(idx) + r)
        if _DIMS and _int(idx):
            d = dim_of(base.args[0], cval(idx))
            if d is not None:
                return const(d)
        if idx.op == "slice" and all(a is NONE or _int(a) for a in idx.args) and r is not None:
            s = slice(*[None if a is NONE else cval(a) for a in idx.args])
            return mk("tuple", tuple(mk("sub", base, const(i)) for i in range(r)[s]))
        if idx.op == "slice" and _int(idx.args[0]) and cval(idx.args[0]) < 0 and idx.args[1] is NONE and idx.args[2] is NONE:
            return mk("tuple", tuple(mk("sub", base, const(i)) for i in range(cval(idx.args[0]), 0)))
        return mk("sub", base, idx)
    if base.op == "sub" and base.args[1].op == "slice" and _int(idx) and cval(idx) >= 0:
        a, b, c = base.args[1].args
        if c is NONE and (a is NONE or (_int(a) and cval(a) >= 0)) and base.args[0].op != "attr":
            return _sub(base.args[0], const((0 if a is NONE else cval(a)) + cval(idx)))
    if idx is NONE or idx.op == "tuple" and NONE in idx.args[0]:
        r = _new_axes(base, list(idx.args[0]) if idx.op == "tuple" else [idx])
        if r is not None:
            return r
    idx2 = _idx_norm(base, idx)
    if idx2 is None:
        return base
    return mk("sub", base, idx2)


def _new_axes(base, items):
    """x[..., None, ...] as unsqueeze of the remaining index"""
    ell = const(Ellipsis)
    rest = [i for i in items if i is not NONE]
    if any(not (i is ell or i.op == "slice" or _int(i)) for i in rest):
        return None
    r = base if not rest else _sub(base, mk("tuple", tuple(rest)) if len(rest) > 1 else rest[0])
    e = items.index(ell) if ell in items else None
    pos, todo = 0, []
    for i, y in enumerate(items):
        if e is not None and i > e:
            break
        if y is NONE:
            todo.append(pos)
            pos += 1
        elif y.op == "slice":
            pos += 1
    for d in todo:
        r = mkcall("t:unsqueeze", (), (("dim", const(d)), ("x", r)))
    if e is not None:
        pos, todo = -1, []
        for y in reversed(items[e + 1:]):
            if y is NONE:
                todo.append(pos)
                pos -= 1
            elif y.op == "slice":
                pos -= 1
        for d in todo:
            r = mkcall("t:unsqueeze", (), (("dim", const(d)), ("x", r)))
    return r


def _close(k, *parts):
    """height-canonical bound variable for binder bodies"""
    def hh(a):
        if isinstance(a, Node):
            return a.h
        if isinstance(a, tuple):
            return max([hh(x) for x in a], default=0)
        return 0
    h = max(hh(p) for p in parts) + 1
    b = sym("$b%d" % h)

    def sb(a):
        if isinstance(a, Node):
            return T.subst(a, {k: b})
        return tuple(sb(x) for x in a)
    return [sb(p) for p in parts]


def cmap(count, k, cond, items):
    """the list of items(k) for k in 0..count-1 with cond(k)"""
    if cond is FALSE:
        return mk("list", ())
    if is_num(count) and cval(count) == 0:
        return mk("list", ())
    if cond is TRUE and len(items) == 1 and items[0].op == "sub" and items[0].args[1] is k and \
            not T.free_has(items[0].args[0], k) and count is T.length(items[0].args[0]):
        return items[0].args[0]
    if count.op == "ite":
        return lift(lambda c: cmap(c, k, cond, items), count)
    ats = {a for a in T.atoms_of(cond) if not T.free_has(a, k)}
    for i in items:
        ats |= {a for a in T.atoms_of(i) if not T.free_has(a, k)}
    if ats and len(ats) <= 4:
        a = min(ats, key=T.atom_order)
        return ite(atom(a), cmap(count, k, T.restrict(cond, a, True), [T.restrict(i, a, True) for i in items]),
                   cmap(count, k, T.restrict(cond, a, False), [T.restrict(i, a, False) for i in items]))
    # flatten single inner list per element
    cond2, items2 = _close(k, cond, tuple(items))
    return mk("cmap", count, cond2, items2)


def open_cmap(n):
    """(count, k, cond, items) of a cmap node with a fresh index variable k"""
    count, cond, items = n.args
    h = max([cond.h] + [x.h for x in items]) + 1
    b, k = sym("$b%d" % h), fresh("k")
    return count, k, T.subst(cond, {b: k}), tuple(T.subst(x, {b: k}) for x in items)


UNIQUE_KEYED = ("named_parameters", "named_buffers", "named_modules", "named_children")


def dict_part(d, part):
    """keys/values/items of a dict comprehension whose keys are distinct by construction"""
    if d.op != "dictof" or d.args[0].op != "cmap":
        return None
    count, k, cond, items = open_cmap(d.args[0])
    if len(items) != 1 or items[0].op != "tuple" or len(items[0].args[0]) != 2:
        return None
    key, val = items[0].args[0]
    if not _injective(k, key):
        return None
    return cmap(count, k, cond, ({"keys": key, "values": val, "items": items[0]}[part],))


def _injective(k, key):
    """distinct indices k give distinct keys"""
    return key is k or (key.op == "sub" and key.args[1] is const(0) and key.args[0].op == "sub" and key.args[0].args[1] is k and _unique_source(key.args[0].args[0])) \
        or (key.op == "keyat" and key.args[1] is k)


def key_set(x):
    """(count, k, cond, key) when x is the set of the distinct keys(k), k < count, with cond(k)"""
    if x.op == "setof":
        x = x.args[0]
    if x.op != "cmap":
        return None
    count, k, cond, items = open_cmap(x)
    if len(items) != 1 or not _injective(k, items[0]):
        return None
    return count, k, cond, items[0]


def key_sets(a, b):
    """(count, k, cond a, cond b, key) of two sets of keys drawn from the same source"""
    if a.op == "set" and not a.args[0] or b.op == "set" and not b.args[0]:
        e = a.op == "set" and not a.args[0]
        x = key_set(b if e else a)
        return x and ((x[0], x[1], FALSE, x[2], x[3]) if e else (x[0], x[1], x[2], FALSE, x[3]))
    x, y = key_set(a), key_set(b)
    if x is None or y is None or x[0] is not y[0] or x[3] is not T.subst(y[3], {y[1]: x[1]}):
        return None
    return x[0], x[1], x[2], T.subst(y[2], {y[1]: x[1]}), x[3]


SET_OPS = {"union": b_or, "intersection": b_and, "difference": lambda p, q: b_and(p, b_not(q)), "symmetric_difference": lambda p, q: ite(p, b_not(q), q)}
SET_TESTS = {"issubset": lambda p, q: b_and(p, b_not(q)), "issuperset": lambda p, q: b_and(q, b_not(p)), "isdisjoint": b_and, "equal": lambda p, q: ite(p, b_not(q), q)}
SETISH = ("set", "setof", "keys", "cmap")


def set_op(name, a, b):
    """union, intersection, ... of two sets of keys of one source; tests hold when no key falsifies them"""
    a, b = [mk("set", ()) if x.op == "list" and not x.args[0] else x for x in (a, b)]
    if a.op == "set" and b.op == "set" and not any(x.op == "star" for x in a.args[0] + b.args[0]) and not (a.args[0] and b.args[0]):
        if name in SET_TESTS:
            return {"issubset": not a.args[0], "issuperset": not b.args[0], "isdisjoint": True, "equal": a is b}[name] and TRUE or FALSE
        return {"union": a if a.args[0] else b, "intersection": mk("set", ()), "difference": a, "symmetric_difference": a if a.args[0] else b}[name]
    r = key_sets(a, b)
    if r is None:
        return None
    count, k, p, q, key = r
    if name in SET_TESTS:
        return b_not(any_(count, k, SET_TESTS[name](p, q)))
    c = SET_OPS[name](p, q)
    if c is FALSE:
        return mk("set", ())
    return lift(lambda m: mk("setof", m), cmap(count, k, c, (key,)))


def sums_equal0(d):
    """d == 0 for a linear combination of counts over one source; None when it is not of that form"""
    if d.op != "poly":
        terms = [(d, 1)]
    else:
        terms = []
        for m, c in d.args:
            if len(m) != 1 or m[0][1] != 1:
                return None
            terms.append((m[0][0], c))
    count, body, k = None, const(0), fresh("k")
    for t, c in terms:
        if t.op == "fn" and t.args[0] == "sum" and t.args[1].op == "cmap" and t.args[1].args[1] is TRUE and len(t.args[1].args[2]) == 1:
            n, kk, _, items = open_cmap(t.args[1])
            e = T.subst(items[0], {kk: k})
            if not all(is_num(x) for x in _leaves(e)):
                return None
        else:
            n, e = t, const(1)
        if count is not None and n is not count:
            return None
        count = n
        body = T.add(body, T.mul(const(c), e))
    vs = [cval(x) for x in _leaves(body)]
    if len(terms) == 1 and terms[0][0].op != "fn":
        return None
    if all(v >= 0 for v in vs) or all(v <= 0 for v in vs):
        return b_not(any_(count, k, b_not(T.eq(body, const(0)))))
    return None


T.key_set = key_set


BOOL_ATTRS = ("requires_grad", "training", "is_leaf", "is_cuda")


def _unique_source(x):
    return x.op == "call" and isinstance(x.args[0], Node) and x.args[0].op == "attr" and x.args[0].args[1] in UNIQUE_KEYED


def any_(count, k, cond):
    if cond is FALSE:
        return FALSE
    if is_num(count) and cval(count) == 0:
        return FALSE
    if not T.free_has(cond, k):
        return b_and(cond, b_not(T.eq(count, const(0))))
    (c2,) = _close(k, cond)
    return atom(mk("any", count, c2))


def ng(x):
    return lift(_ng, x)


def _ng(x):
    if x.op in ("const", "ext", "ng", "class", "func", "closure", "fstr", "len", "ndim", "lam", "sym_int", "slice", "dict"):
        return x
    if is_boolean(x):
        return x
    if x.op in ("tuple", "list"):
        return mk(x.op, tuple(_ng(i) for i in x.args[0]))
    if x.op == "record":
        return mk("record", x.args[0], tuple((f, _ng(v)) for f, v in x.args[1]))
    if x.op == "star":
        return mk("star", _ng(x.args[0]))
    if x.op in ("attr", "sub") and _shapeish(x):
        return x
    if x.op == "poly" and all(_shapeish(a) for m, _ in x.args for a, _e in m):
        return x
    if x.op in ("floordiv", "ceildiv", "mod"):
        return x
    return mk("ng", x)


def _shapeish(x):
    if x.op == "attr":
        return x.args[1] in ("shape", "device", "dtype", "ndim")
    if x.op == "sub":
        return _shapeish(x.args[0])
    return x.op in ("len", "ndim", "const", "floordiv", "ceildiv", "mod")


def mkcall(f, args, kwargs):
    """uninterpreted application with the few algebraic identities that need no lifting"""
    if (isinstance(f, str) and f.startswith("t:")) or (not isinstance(f, str) and f.op == "ext" and f.args[0].startswith(("torch.nn.", "torch.stack", "torch.cat"))):
        # sequence arguments of tensor functions: list or tuple alike
        if any(a.op == "list" for a in args) or any(v.op == "list" for _, v in kwargs):
            args = tuple(mk("tuple", a.args[0]) if a.op == "list" else a for a in args)
            kwargs = tuple((k, mk("tuple", v.args[0]) if v.op == "list" else v) for k, v in kwargs)
    if isinstance(f, str) and f[2:] in DIM_ARGS:
        kw = dict(kwargs)
        kw2 = dim_norm(f, kw)
        if kw2 is not kw:
            dflt = kb.TENSOR_SIGS.get(f[2:])
            for k in [k for k in kw2 if dflt is not None and k in dflt.defaults and isinstance(dflt.defaults[k], ast.Constant) and kw2[k] is const(dflt.defaults[k].value)]:
                del kw2[k]
            kwargs = tuple((k, kw2[k]) for k, _ in kwargs if k in kw2)
    if f in ("t:permute", "t:unfold", "t:grid_sample", "t:conv2d"):
        kw = dict(kwargs)
        sh = kw.get("shape")
        if f == "t:permute" and _plain(sh) and len(sh.args[0]) > 1 and "x" in kw:
            learn(kw["x"], len(sh.args[0]))
        elif f == "t:unfold" and "kernel_size" in kw or f == "t:conv2d":
            learn(kw.get("x"), 4)
        elif f == "t:grid_sample":
            learn(kw.get("x"), 4)
            learn(kw.get("grid"), 4)
    if f == "t:unsqueeze":
        kw = dict(kwargs)
        x, b = kw.get("x"), kw.get("dim")
        if x is not None and b is not None and _int(b) and cval(b) >= 0 and x.op == "call" and x.args[0] == "t:unsqueeze":
            k2 = dict(x.args[2])
            a = k2.get("dim")
            if a is not None and _int(a) and cval(a) >= cval(b):
                # inserted axes in ascending order
                return mkcall("t:unsqueeze", (), (("dim", const(cval(a) + 1)), ("x", mkcall("t:unsqueeze", (), (("dim", b), ("x", k2["x"]))))))
    if f == "t:transpose":
        # exchanging two dimensions is a permutation of all of them
        kw = dict(kwargs)
        r = rank_of(kw["x"]) if "x" in kw else None
        a, b = kw.get("dim0"), kw.get("dim1")
        if r is not None and a is not None and b is not None and _int(a) and _int(b) and 0 <= cval(a) < r and 0 <= cval(b) < r:
            p = list(range(r))
            p[cval(a)], p[cval(b)] = p[cval(b)], p[cval(a)]
            return mkcall("t:permute", (), (("shape", mk("tuple", tuple(const(i) for i in p))), ("x", kw["x"])))
    if f == "t:permute":
        kw = dict(kwargs)
        sh, x = kw.get("shape"), kw.get("x")
        if _plain(sh) and x is not None and all(_int(i) and 0 <= cval(i) < len(sh.args[0]) for i in sh.args[0]):
            p = [cval(i) for i in sh.args[0]]
            if x.op == "call" and x.args[0] == "t:permute":
                q = dict(x.args[2]).get("shape")
                if _plain(q) and len(q.args[0]) == len(p):
                    return mkcall("t:permute", (), (("shape", mk("tuple", tuple(q.args[0][i] for i in p))), ("x", dict(x.args[2])["x"])))
            if p == list(range(len(p))):
                return x
    if f == "t:pad":
        kw = dict(kwargs)
        p = kw.get("pad")
        if p is not None and p.op in ("tuple", "list") and all(is_num(q) and cval(q) == 0 for q in p.args[0]):
            return kw["x"]
    elif f in CASTS and not args and len(kwargs) == 1 and kwargs[0][0] == "x":
        return mkcall("t:to", (), (("arg0", CASTS[f]),) + kwargs)
    elif f == "t:to":
        kw = dict(kwargs)
        d = kw.get("arg0")
        if d is not None and d.op == "call" and d.args[0] is mk("ext", "torch.device") and len(d.args[1]) == 1 and not d.args[2]:
            kw["arg0"] = d.args[1][0]
            kwargs = tuple(sorted(kw.items(), key=lambda t: t[0]))
    elif isinstance(f, str) and f[2:] in kb.SHAPE_METHODS and kwargs:
        kw = dict(kwargs)
        sh = kw.get("shape")
        if sh is not None and sh.op == "tuple" and len(sh.args[0]) == 1 and sh.args[0][0].op in ("tuple", "list"):
            kw["shape"] = mk("tuple", sh.args[0][0].args[0])
            kwargs = tuple((k, kw[k]) for k, _ in kwargs)
    return mk("call", f, args, kwargs)


CASTS = {"t:float": mk("ext", "torch.float32"), "t:double": mk("ext", "torch.float64"), "t:half": mk("ext", "torch.float16"),
         "t:int": mk("ext", "torch.int32"), "t:long": mk("ext", "torch.int64"), "t:bool": mk("ext", "torch.bool"), "t:byte": mk("ext", "torch.uint8"),
         "t:cpu": const("cpu")}


def _re_call(f, args, kwargs):
    flat = ([f] if isinstance(f, Node) else []) + list(args) + [v for _, v in kwargs]
    ks = [k for k, _ in kwargs]
    n = len(args)
    o = 1 if isinstance(f, Node) else 0
    if any(x.op == "ite" for x in flat):
        return lift(lambda *xs: mkcall(xs[0] if o else f, tuple(xs[o:o + n]), tuple(zip(ks, xs[o + n:]))), *flat)
    return mkcall(f, args, kwargs)


T.REBIND.update({
    "cmap": lambda a, vs: cmap(a[0], vs[0], a[1], list(a[2])),
    "any": lambda a, vs: any_(a[0], vs[0], truth(a[1])),
})
T.REBUILD.update({
    "attr": attr_, "sub": sub, "ng": ng, "call": _re_call,
    "cmap": lambda c, cond, items: mk("cmap", c, cond, items),
    "record": lambda q, fs: mk("record", q, fs),
})


# ------------------------------------------------------------------ state

ALLOC, ALLOC_K = [None], []         # allocation mode: counter, and the loops being summarised
MUTATORS = ("append", "extend", "insert", "pop", "add", "update", "clear", "remove", "sort", "reverse", "popitem", "setdefault", "add_module", "register_module", "discard", "__setitem__")


class Frame:
    __slots__ = ("fdef", "env", "module", "cls", "rets", "closure", "mutated", "params", "selfobj", "loops", "gen", "nogd", "exc_n", "hidden", "alias")

    def __init__(self, fdef, module, cls):
        self.fdef, self.module, self.cls = fdef, module, cls
        self.env = {}
        self.rets = []
        self.closure = None
        self.mutated = set()
        self.params = []
        self.loops = []
        self.gen = False
        self.nogd = 0
        self.selfobj = None
        self.alias = {}         # local name -> alias group; absent: unknown


class Snap:
    __slots__ = ("pc", "env", "heap", "ver", "val")

    def __init__(self, pc, env, heap, ver, val=None):
        self.pc, self.env, self.heap, self.ver, self.val = pc, env, heap, ver, val


def _gradless(x):
    return x.op in ("const", "ng", "ext") or (x.op == "attr" and x.args[1] == "data") or is_boolean(x) or \
        (x.op == "sym" and x.args[0].startswith("ctor.")) or \
        (x.op == "call" and isinstance(x.args[0], Node) and x.args[0].op == "attr" and x.args[0].args[1] == "detach")


def backing_attr(cls, name):
    """attribute behind a read-only public property that just returns it"""
    f = cls.find(name)
    if f is None or not f.is_property or cls.find(name + "=setter") is not None:
        return name
    return _just_returns(cls, f, 3) or name


def _just_returns(cls, f, depth):
    env = {}

    def val(e):
        while isinstance(e, ast.Name) and e.id in env:
            e = env[e.id]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
            return e.attr
        if isinstance(e, ast.Call) and not e.args and not e.keywords and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and depth:
            g = cls.find(e.func.attr)
            return _just_returns(cls, g, depth - 1) if g is not None else None
        return None
    for x in f.node.body:
        if isinstance(x, (ast.Pass, ast.Expr)):
            continue
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            env[x.targets[0].id] = x.value
            continue
        if not any(isinstance(y, (ast.Return, ast.Raise, ast.Yield)) for y in ast.walk(x)):
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id in env:
                    return None
            continue
        return val(x.value) if isinstance(x, ast.Return) and x.value is not None else None
    return None


def _mutate(old, new):
    """storage `old` becomes `new`, told of the outermost container"""
    while old.op == "sub" and old.args[1].op not in ("slice", "tuple", "bool") and old.args[0].op not in ("cmap", "ite"):
        new = mk("store", old.args[0], old.args[1], new)
        old = old.args[0]
    return mk("mutate", old, new)


class Interp:
    def __init__(self, repo, mode="fold", spec=False, target_cls=None):
        self.repo = repo
        self.mode = mode
        self.spec = spec
        self.heap = {}
        self.ver = {}
        self.pc = TRUE            # relative to the current frame / loop body
        self.base = TRUE          # absolute condition of the enclosing context
        self.effects = []         # (abs guard, node, loc)
        self.raises = []          # (abs guard, exc name, loc)
        self.frame = None
        self.depth = 0
        self.stack = []
        self.closures = {}
        self.objclass = {}
        self.funcs = {}
        self.initheaps = {}
        self.loc = None
        self.unknowns = []
        self.bounded = []
        self.self_sym = sym("self")
        self.stable_cache = {}
        self.analysed = set()
        self.callsites = 0
        self.in_init = False
        self.const_memo = {}
        self.assumes = []
        self.fixed_ctor = {}
        self.lam_params = set()

    # ---------------------------------------------------------- helpers
    def unknown(self, what, node=None):
        loc = (self.frame.module.relpath if self.frame else "?", getattr(node, "lineno", 0))
        self.unknowns.append((what, loc))
        return mk("unknown", what, len(self.unknowns) if not self.spec else -len(self.unknowns))

    def guard(self):
        return b_and(self.base, self.pc)

    def snap(self, val=None):
        return Snap(self.pc, dict(self.frame.env), dict(self.heap), dict(self.ver), val)

    def merge_into(self, c, s):
        """current := s where c else current   (c: condition of snapshot s, relative)"""
        if self.pc is FALSE:
            self.frame.env = dict(s.env)
            self.heap = dict(s.heap)
            self.ver = dict(s.ver)
            return
        self.frame.env = self.merge_dicts(c, s.env, self.frame.env)
        self.heap = self.merge_dicts(c, s.heap, self.heap)
        self.ver = self.merge_dicts(c, s.ver, self.ver)

    UNDEF = mk("undef")

    def merge_dicts(self, c, a, b):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k), b.get(k)
            if x is y:
                out[k] = x
            elif x is None:
                out[k] = self._heap_default(k, c, y, False)
            elif y is None:
                out[k] = self._heap_default(k, c, x, True)
            else:
                out[k] = ite(c, x, y)
        return out

    def _heap_default(self, k, c, v, when_true):
        if isinstance(k, tuple) and k and k[0] == "attr":
            old = self.raw_attr(T._by_id[k[1]], k[2])
        elif isinstance(k, tuple):
            old = mk("ver0")
        else:
            old = self.UNDEF
        return ite(c, v, old) if when_true else ite(c, old, v)

    # ---------------------------------------------------------- branches
    def branch(self, c, f_true, f_false):
        """run f_true under c and f_false under not c; returns ite of results"""
        c = truth(c)
        if c is TRUE:
            return f_true()
        if c is FALSE:
            return f_false()
        pc0 = self.pc
        p1 = b_and(pc0, c)
        p2 = b_and(pc0, b_not(c))
        if p2 is FALSE:
            return f_true()
        if p1 is FALSE:
            return f_false()
        env0, heap0, ver0 = dict(self.frame.env), dict(self.heap), dict(self.ver)
        self.pc = p1
        v1 = f_true()
        s1 = self.snap()
        self.frame.env, self.heap, self.ver = env0, heap0, ver0
        self.pc = p2
        v2 = f_false()
        p1e, p2e = s1.pc, self.pc
        if p2e is FALSE:
            self.frame.env, self.heap, self.ver = s1.env, s1.heap, s1.ver
            self.pc = p1e
            return v1
        if p1e is FALSE:
            return v2
        self.frame.env = self.merge_dicts(c, s1.env, self.frame.env)
        self.heap = self.merge_dicts(c, s1.heap, self.heap)
        self.ver = self.merge_dicts(c, s1.ver, self.ver)
        self.pc = b_or(p1e, p2e)
        if isinstance(v1, Node) and isinstance(v2, Node):
            return ite(c, v1, v2)
        return None

    # ---------------------------------------------------------- functions
    def run_function(self, fdef, bound, selfobj=None, cls=None):
        """inline a repository function with bound parameter dict; returns its value node"""
        if self.depth > MAX_DEPTH or self.stack.count(fdef.qual) >= (3 if "<locals>" in fdef.qual or fdef.name == "<lambda>" else 2):
            return None
        self.analysed.add(fdef.qual)
        fr = Frame(fdef, fdef.module, fdef.cls)
        fr.env = dict(bound)
        fr.params = list(bound)
        fr.closure = fdef.closure
        fr.selfobj = selfobj
        da = fdef.node.args
        dpos = [p.arg for p in da.posonlyargs + da.args]
        for p, d in list(zip(dpos[len(dpos) - len(da.defaults):] if da.defaults else [], da.defaults)) + list(zip([p.arg for p in da.kwonlyargs], da.kw_defaults)):
            if isinstance(d, (ast.List, ast.Dict, ast.Set)) or (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("list", "dict", "set")):
                if bound.get(p) is not None and bound[p] is self.eval_in(fdef.module, d, fdef):
                    fr.alias[p] = "global:default:%s:%s" % (fdef.name, p)
        saved = (self.frame, self.pc, self.base, self.loc)
        self.base = self.guard()
        self.pc = TRUE
        self.frame = fr
        self.depth += 1
        self.stack.append(fdef.qual)
        try:
            if isinstance(fdef.node, ast.Lambda):
                v = self.eval(fdef.node.body)
                fr.rets.append(self.snap(v))
                self.pc = FALSE
            else:
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(fdef.node)):
                    fr.gen = True
                    fr.env["%y"] = mk("list", ())
                nog = [d for d in fdef.decorators() if "no_grad" in d or "inference_mode" in d]
                if nog:
                    fr.nogd += 1
                self.block(fdef.node.body)
                if self.pc is not FALSE:
                    v = fr.env["%y"] if fr.gen else NONE
                    fr.rets.append(self.snap(v))
        finally:
            self.depth -= 1
            self.stack.pop()
            outer, outer_pc, outer_base, self.loc = saved
        # merge return states
        rets = [r for r in fr.rets if r.pc is not FALSE]
        if fr.gen:
            for r in rets:
                r.val = r.env.get("%y", r.val)
        if not rets:
            self.last_env, self.last_mutated = fr.env, fr.mutated
            self.frame, self.base = outer, outer_base
            self.pc = FALSE
            return NONE
        val = rets[-1].val
        heap, ver, env, pc = rets[-1].heap, rets[-1].ver, rets[-1].env, rets[-1].pc
        for r in reversed(rets[:-1]):
            val = ite(r.pc, r.val, val)
            heap = self.merge_dicts(r.pc, r.heap, heap)
            ver = self.merge_dicts(r.pc, r.ver, ver)
            env = self.merge_dicts(r.pc, {k: v for k, v in r.env.items()}, env)
            pc = b_or(pc, r.pc)
        self.heap, self.ver = heap, ver
        self.frame, self.base = outer, outer_base
        self.pc = b_and(outer_pc, pc)
        self.last_env, self.last_mutated = env, fr.mutated
        return val

    def bind(self, fdef, args, kwargs, selfobj=None):
        """bind evaluated args to parameters -> dict or None"""
        a = fdef.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if selfobj is not None:
            args = [selfobj] + args
        if any(x.op == "star" for x in args):
            return None
        rest = kwargs.get(None)
        if rest is not None:
            kwargs = {k: v for k, v in kwargs.items() if k is not None}
            names = pos[len(args):] + [p.arg for p in a.kwonlyargs]
            if a.kwarg is None or any(p not in kwargs for p in names):
                return None
        if len(args) > len(pos) and a.vararg is None:
            return None
        for p, v in zip(pos, args):
            out[p] = v
        if a.vararg is not None:
            out[a.vararg.arg] = mk("tuple", tuple(args[len(pos):]))
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = []
        for k, v in kwargs.items():
            if k in out and k in pos:
                return None
            if k in pos or k in kwonly:
                out[k] = v
            elif a.kwarg is not None:
                extra.append((const(k), v))
            else:
                return None
        if a.kwarg is not None:
            out[a.kwarg.arg] = mk("dict", tuple(extra)) if rest is None else rest if not extra else mk("dict", tuple(extra) + ((mk("star", rest), rest),))
        nd = len(a.defaults)
        for p, d in zip(pos[len(pos) - nd:] if nd else [], a.defaults):
            if p not in out:
                out[p] = self.eval_in(fdef.module, d, fdef)
        for p, d in zip(kwonly, a.kw_defaults):
            if p not in out and d is not None:
                out[p] = self.eval_in(fdef.module, d, fdef)
        for p in pos + kwonly:
            if p not in out:
                return None
        return out

    def eval_in(self, module, expr, fdef=None):
        """evaluate an expression in a module's global scope (defaults, constants)"""
        saved = (self.frame, self.pc, self.base)
        fr = Frame(fdef, module, fdef.cls if fdef else None)
        fr.closure = fdef.closure if fdef else None
        self.frame = fr
        self.pc = TRUE
        try:
            return self.eval(expr)
        finally:
            self.frame, self.pc, self.base = saved

    # ---------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            if self.pc is FALSE:
                return
            self.stmt(s)

    def stmt(self, s):
        self.loc = (self.frame.module.relpath, getattr(s, "lineno", 0))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown("stmt " + type(s).__name__, s)
            return
        m(s)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            m = self.repo.module(a.name if a.asname else a.name.split(".")[0], self.frame.module.project)
            self.frame.env[a.asname or a.name.split(".")[0]] = self.wrap(m) if m else mk("ext", a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s):
        tmp = Module.__new__(Module)
        tmp.__dict__.update(self.frame.module.__dict__)
        tmp.names = {}
        Module._scan(tmp, [s])
        for n in tmp.names:
            e = self.repo.entity(tmp, n)
            self.frame.env[n] = self.wrap(e) if e is not None else mk("ext", n)

    def s_Expr(self, s):
        e = s.value
        if isinstance(e, ast.Constant):
            return
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            self.eval(e)
            return
        if isinstance(e, ast.Call):
            self.call_stmt(e)
            return
        self.eval(e)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.pc is FALSE:
            return
        if self.frame.nogd:
            v = ng(v)
        self.frame.rets.append(self.snap(v))
        self.pc = FALSE

    def exc_name(self, e):
        if e is None:
            return "reraise"
        f = e.func if isinstance(e, ast.Call) else e
        ent = None
        try:
            ent = self.repo.resolve_expr(self.frame.module, f)
        except Exception:
            pass
        if isinstance(ent, ClassDef):
            return ent.name
        if isinstance(f, ast.Attribute):
            return f.attr
        if isinstance(f, ast.Name):
            v = self.frame.env.get(f.id)
            if v is not None and v.op == "excval":
                return v.args[0]
            # helper returning an exception object
            if isinstance(ent, FuncDef):
                for x in ast.walk(ent.node):
                    if isinstance(x, ast.Return) and x.value is not None:
                        return self.exc_name(x.value)
            return f.id
        return "exception"

    def s_Raise(self, s):
        n = self.exc_name(s.exc)
        if s.exc is not None and isinstance(s.exc, ast.Name):
            v = self.frame.env.get(s.exc.id)
            if v is not None and v.op == "call" and isinstance(v.args[0], Node) and v.args[0].op == "ext":
                n = v.args[0].args[0].split(".")[-1]
        self.do_raise(self.pc, n)
        self.pc = FALSE

    def do_raise(self, cond, name):
        g = b_and(self.base, b_and(self.pc, cond))
        if g is not FALSE:
            self.raises.append((g, name, self.loc))

    def s_Assert(self, s):
        c = truth(self.eval(s.test))
        self.do_raise(b_not(c), "AssertionError")
        self.pc = b_and(self.pc, c)

    def s_If(self, s):
        c = truth(self.eval(s.test))
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_Match(self, s):
        subj = self.eval(s.subject)

        def pat(p):
            if isinstance(p, ast.MatchValue):
                return T.eq(subj, self.eval(p.value))
            if isinstance(p, ast.MatchSingleton):
                return T.eq(subj, const(p.value))
            if isinstance(p, ast.MatchOr):
                r = FALSE
                for q in p.patterns:
                    r = b_or(r, pat(q))
                return r
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                return TRUE
            raise Unsupported("match pattern")

        def go(cases):
            if not cases:
                return
            c = cases[0]
            try:
                t = pat(c.pattern)
            except Unsupported:
                t = atom(mk("truth", self.unknown("match", s)))
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                self.frame.env[c.pattern.name] = subj
            if c.guard is not None:
                t = b_and(t, truth(self.eval(c.guard)))
            self.branch(t, lambda: self.block(c.body), lambda: go(cases[1:]))
        go(s.cases)

    def s_FunctionDef(self, s):
        f = FuncDef(self.frame.module, s, None, qual=self.frame.module.name + ".<locals>." + s.name, closure=self.frame)
        v = self.mk_closure(f)
        for d in reversed(s.decorator_list):
            txt = ast.unparse(d)
            if "wraps" in txt or "no_grad" in txt or "abstract" in txt:
                continue
            dv = self.eval(d)
            v = self.call(dv, [v], {}, d)
        self.frame.env[s.name] = v

    def s_ClassDef(self, s):
        c = ClassDef(self.frame.module, s)
        self.frame.env[s.name] = self.wrap(c)

    def mk_closure(self, f):
        i = len(self.closures)
        self.closures[i] = f
        f.closure = self.frame
        return mk("closure", i, id(self))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                i = self.eval(t.slice)
                self.assign_path(t.value, mk("del", b, i), mutate=True)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)
        self.note_alias([t.id for t in s.targets if isinstance(t, ast.Name)], s.value)

    def note_alias(self, names, value):
        """which local names share one mutable object"""
        if not names:
            return
        al, fr = self.frame.alias, self.frame
        if isinstance(value, ast.Name):
            if value.id in fr.env:
                if value.id not in al:
                    return
                g = al[value.id]
            else:
                g = self.global_group(value.id)
                if g is None:
                    return
        elif isinstance(value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)):
            self.n_alias = getattr(self, "n_alias", 0) + 1
            g = self.n_alias
        else:
            return
        for n in names:
            al[n] = g

    def global_group(self, name):
        """alias group of a name bound at module level (imported names: in their home module), None if it is not"""
        fr = self.frame.closure
        while fr is not None:
            if name in fr.env:
                return None
            fr = fr.closure
        ent = self.repo.entity(self.frame.module, name)
        if isinstance(ent, tuple) and ent[0] == "assign":
            return "global:%s:%d" % (ent[1].name, ent[2].lineno)
        return None

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))
            if isinstance(s.target, ast.Name):
                self.note_alias([s.target.id], s.value)

    def s_AugAssign(self, s):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.eval(load)
        v = self.eval(s.value)
        r = self.binop(s.op, cur, v)
        if isinstance(t, ast.Name):
            ro = self.alias_root(cur)
            if ro is not None and ro.op in ("sym", "attr") and not self.scalarish(cur):
                self.effect(ro, mk("inplace", type(s.op).__name__, ro, cur, r))
                self.frame.mutated.add(t.id)
            self.frame.env[t.id] = r
        else:
            self.assign(t, r)

    def scalarish(self, n):
        return n.op in ("len", "ndim") or T.is_num(n) or _shapeish(n)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame.env[t.id] = v
            self.frame.alias.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            nm = t.attr
            if o.op == "ns":
                ents = dict(o.args[0])
                ents[nm] = v
                self.assign_path(t.value, mk("ns", tuple(sorted(ents.items()))), mutate=True, old=o)
                return
            if self.spec and o.id in self.objclass:
                nm = backing_attr(self.objclass[o.id], self.spec_attr(self.objclass[o.id], nm))
            self.setattr(o, nm, v)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            i = self.eval_index(t.slice)
            self.assign_path(t.value, self.store(b, i, v), mutate=True, old=b)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unknown("assign target", t)

    def store(self, b, i, v):
        if b.op == "dict":
            ents = [e for e in b.args[0]]
            if is_const(i) or i.op in ("ext", "class"):
                for j, (k, _) in enumerate(ents):
                    if k is i and not any(q.op == "star" for q, _ in ents[j:]):
                        ents[j] = (i, v)
                        return mk("dict", tuple(ents))
                return mk("dict", tuple(ents + [(i, v)]))
            return mk("dict", tuple(ents + [(i, v)]))
        if b.op == "list" and _int(i) and not any(x.op == "star" for x in b.args[0]):
            items = list(b.args[0])
            if -len(items) <= cval(i) < len(items):
                items[cval(i)] = v
                return mk("list", tuple(items))
        if i.op == "ite" and is_boolean(i):
            i = mk("bool", i)
        if b.op == "ite":
            return lift(lambda bb: self.store(bb, i, v), b)
        if i.op == "bool" and v.op != "ite":
            # x[m] = f(x[m]) with f elementwise is where(m, f(x), x)
            w = T.subst(v, {mk("sub", b, i): b})
            if is_num(v) or (v.op == "poly" and w is not v and not T.occurs(i, w) and all(a is b or is_num(a) or a.op == "ext" for m, _ in w.args for a, _ in m)):
                return self.tcall("where", [i.args[0], w, b], {})
        return mk("store", b, _idx_norm(b, i) or i, v)

    def assign_path(self, expr, newval, mutate=False, old=None):
        """rebind the storage location named by expr to newval (in-place mutation)"""
        if isinstance(expr, ast.Name):
            old = old if old is not None else self.frame.env.get(expr.id)
            g = self.frame.alias.get(expr.id) if expr.id in self.frame.env else self.global_group(expr.id)
            if isinstance(g, str):
                self.effect(mk("ext", g), _mutate(old if old is not None else NONE, newval))
            home = self.frame
            while home is not None and expr.id not in home.env:
                home = home.closure
            home = home or self.frame
            home.env[expr.id] = newval
            home.mutated.add(expr.id)
            if old is not None:
                if self.through_alias(old, newval):
                    self.rebind_aliases(old, newval, self.frame.alias.get(expr.id))
                    return
                ro = self.alias_root(old)
                if ro is not None:
                    self.effect(ro, _mutate(old, newval))
                self.rebind_aliases(old, newval, self.frame.alias.get(expr.id))
        elif isinstance(expr, ast.Attribute):
            o = self.eval(expr.value)
            if o.op == "ns":
                ents = dict(o.args[0])
                ents[expr.attr] = newval
                self.assign_path(expr.value, mk("ns", tuple(sorted(ents.items()))), mutate=True, old=o)
            elif self.is_obj(o):
                self.setattr(o, expr.attr, newval)
            else:
                cur = self.eval(expr)
                ro = self.alias_root(cur)
                self.effect(ro or o, _mutate(cur, newval))
        elif isinstance(expr, ast.Subscript):
            b = self.eval(expr.value)
            i = self.eval_index(expr.slice)
            self.assign_path(expr.value, self.store(b, i, newval), mutate=True, old=b)
        elif isinstance(expr, ast.IfExp):
            c = truth(self.eval(expr.test))
            self.branch(c, lambda: self.assign_path(expr.body, newval, mutate), lambda: self.assign_path(expr.orelse, newval, mutate))
        elif isinstance(expr, ast.Call):
            v = self.eval(expr)
            ro = self.alias_root(v)
            if ro is not None:
                self.effect(ro, _mutate(v, newval))
        else:
            self.unknown("mutation target", expr)

    def through_alias(self, old, new):
        """a local name for an attribute of a known object: mutate the attribute"""
        def own(n):
            return n.op == "attr" and self.is_obj(n.args[0]) and self.heap.get(("attr", n.args[0].id, n.args[1]), n) is n

        def rec(o, n):
            if o.op == "ite":
                same = n.op == "ite" and n.args[0] is o.args[0]
                self.branch(atom(o.args[0]), lambda: rec(o.args[1], n.args[1] if same else n), lambda: rec(o.args[2], n.args[2] if same else n))
            else:
                self.setattr(o.args[0], o.args[1], n)
        if all(own(x) for x in _leaves(old)):
            rec(old, new)
            return True
        for k, v in self.heap.items():
            if v is old and k[0] == "attr" and k[1] in self.objclass and v.op in ("list", "store") and v.args[0] and T.occurs(mk("attr", T._by_id[k[1]], k[2]), v):
                self.setattr(T._by_id[k[1]], k[2], new)
                return True
        return False

    def rebind_aliases(self, old, new, group=None):
        known = self.frame.alias
        if old.op in ("list", "dict", "cmap", "store", "mlist", "set"):
            vague = old.op in ("dict", "cmap", "store") or (old.op == "list" and bool(old.args[0]))
            for k, v in list(self.frame.env.items()):
                if v is old:
                    g = known.get(k)
                    if (g == group) if (g is not None and group is not None) else vague:
                        self.frame.env[k] = new

    def unpack(self, elts, v):
        n = len(elts)
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.op == "ite" and T.leaves(v) <= 16 and not stars:
            for i, e in enumerate(elts):
                self.assign(e, lift(lambda x: self.unpack_elem(x, i, n), v))
            return
        if stars:
            i = stars[0]
            for j in range(i):
                self.assign(elts[j], self.unpack_elem(v, j, None))
            tail = n - i - 1
            sl = mk("slice", const(i) if i else NONE, const(-tail) if tail else NONE, NONE)
            if v.op in ("tuple", "list") and not any(x.op == "star" for x in v.args[0]):
                self.assign(elts[i], mk("list", tuple(v.args[0][i:len(v.args[0]) - tail])))
            else:
                self.assign(elts[i], sub(v, sl))
            for j in range(tail):
                self.assign(elts[i + 1 + j], self.unpack_elem(v, j - tail, None))
            return
        for i, e in enumerate(elts):
            self.assign(e, self.unpack_elem(v, i, n))

    def unpack_elem(self, v, i, n):
        if v.op == "attr" and v.args[1] == "shape" and n is not None:
            _RANKS.setdefault(v.args[0].id, n)
        if v.op == "sub" and v.args[1].op == "slice" and v.args[0].op == "attr" and v.args[0].args[1] == "shape" and n is not None:
            a, b, c = v.args[1].args
            if _int(a) and cval(a) < 0 and b is NONE:
                return sub(v.args[0], const(cval(a) + i))
        if v.op == "sub" and v.args[1].op == "slice" and n is not None:
            a, b, c = v.args[1].args
            if _int(a) and cval(a) == -n and b is NONE and c is NONE:
                return sub(v.args[0], const(i - n))
        return sub(v, const(i))

    def is_obj(self, o):
        return o.id in self.objclass

    def setattr(self, o, name, v):
        if name == "data" and o.op == "call" and o.args[0] == "t:with_data":
            x = dict(o.args[2])["x"]
            self.heap.pop(("attr", x.args[0].id, x.args[1]), None)
            return self.setattr(x, name, v)
        if o.op == "ite":
            def rec(n):
                if n.op == "ite":
                    self.branch(atom(n.args[0]), lambda: rec(n.args[1]), lambda: rec(n.args[2]))
                else:
                    self.setattr(n, name, v)
            rec(o)
            return
        if self.is_obj(o):
            c = self.objclass[o.id]
            st = None
            for k in c.mro():
                if isinstance(k, ClassDef) and name + "=setter" in k.methods:
                    st = k.methods[name + "=setter"]
                    break
            if st is not None:
                b = self.bind(st, [v], {}, selfobj=o)
                if b is not None:
                    self.run_function(st, b, selfobj=o)
                    return
            self.heap[("attr", o.id, name)] = v
        else:
            self.heap[("attr", o.id, name)] = v
            self.effect(o, mk("setattr", o, name, v))
            if name == "data" and o.op == "attr" and self.is_obj(o.args[0]) and ("attr", o.args[0].id, o.args[1]) not in self.heap:
                # another storage behind the same parameter: later readers see it
                w = mk("call", "t:with_data", (), (("data", v), ("x", o)))
                self.heap[("attr", o.args[0].id, o.args[1])] = w
                for k, x in self.frame.env.items():
                    if x is o:
                        self.frame.env[k] = w

    # effects ----------------------------------------------------
    def alias_root(self, n):
        """the parameter / attribute whose storage n shares, or None for a fresh value"""
        while True:
            if n.op == "sym":
                return n if not n.args[0].startswith(("%", "$")) or n.id in self.lam_params else None
            if n.op == "attr":
                if n.args[1] in ("shape", "device", "dtype"):
                    return None
                return n
            if n.op == "sub":
                n = n.args[0]
                continue
            if n.op == "ng":
                n = n.args[0]
                continue
            if n.op == "store":
                n = n.args[0]
                continue
            if n.op == "call" and n.args[0] in kb.ALIAS_FNS:
                x = dict(n.args[2]).get("x")
                if x is None and n.args[1]:
                    x = n.args[1][0]
                if x is None:
                    return None
                n = x
                continue
            if n.op == "call" and n.args[0] in ("getattr", mk("ext", "getattr")) and n.args[1]:
                n = n.args[1][0]
                continue
            return None

    def effect_root(self, n):
        while True:
            if n.op == "attr" and n.args[1] not in ("data", "grad"):
                return n
            if n.op in ("attr", "sub", "ng", "store"):
                n = n.args[0]
                continue
            if n.op == "call":
                if isinstance(n.args[0], Node) and n.args[0].op == "attr":
                    return n
            return n

    def effect(self, root, node):
        g = self.guard()
        if g is FALSE:
            return
        if node.op == "setattr" and self.effects:
            # overwritten at once: nothing can have observed the first value
            i = len(self.effects) - 1
            while i > 0 and b_and(self.effects[i][0], g) is FALSE:
                i -= 1
            h, ro, last, at = self.effects[i]
            v = self.ver.get(("ver", root.id))
            if ro is root and last.op == "setattr" and last.args[:2] == node.args[:2] and v is not None and v.op == "v" and v.args[1] is last and not T.occurs(v, node.args[2]) and b_and(b_not(h), g) is FALSE:
                self.effects[i] = (b_and(h, b_not(g)), ro, last, at)
                self.ver[("ver", root.id)] = v.args[0]
        self.effects.append((g, root, node, self.loc))
        if node.op == "call" and isinstance(node.args[0], Node) and node.args[0].op == "attr" and node.args[0].args[1] == "requires_grad_":
            return              # does not change what later calls compute
        k = ("ver", root.id)
        old = self.ver.get(k)
        self.ver[k] = mk("v", old if old is not None else mk("ver0"), node)

    def version_of(self, recv):
        out = []
        n = recv
        seen = 0
        while n is not None and seen < 12:
            v = self.ver.get(("ver", n.id))
            if v is not None:
                out.append(v)
            if n.op in ("attr", "sub"):
                n = n.args[0]
            else:
                break
            seen += 1
        return tuple(out)

    # loops -------------------------------------------------------
    def iteration(self, it, node=None):
        """('concrete', [elems]) or ('sym', count, elemfn)"""
        if it.op == "call" and it.args[0] is mk("ext", "open"):
            return self.iteration(mk("call", mk("attr", it, "readlines"), (), ()), node)
        if it.op == "mlist":
            return self.iteration(it.args[0], node)
        if it.op in ("tuple", "list", "set") and not any(x.op == "star" for x in it.args[0]):
            return ("concrete", list(it.args[0]))
        if it.op == "dict" and not any(k.op == "star" for k, _ in it.args[0]):
            return ("concrete", [k for k, _ in it.args[0]])
        if it.op == "record":
            return ("concrete", [v for _, v in it.args[1]])
        if it.op == "const" and isinstance(cval(it), str) and len(cval(it)) <= MAX_CONCRETE:
            return ("concrete", [const(ch) for ch in cval(it)])
        if it.op == "range":
            a, b, s = it.args
            if all(_int(x) for x in (a, b, s)) and cval(s) != 0 and len(range(cval(a), cval(b), cval(s))) <= MAX_CONCRETE:
                return ("concrete", [const(i) for i in range(cval(a), cval(b), cval(s))])
            cnt = T.range_count(it)
            if _int(cnt) and 0 <= cval(cnt) <= MAX_CONCRETE:
                return ("concrete", [T.add(a, T.mul(s, const(i))) for i in range(cval(cnt))])
            return ("sym", cnt, lambda k: T.add(a, T.mul(s, k)))
        if it.op == "enumerate":
            inner = self.iteration(it.args[0])
            st = it.args[1]
            if inner[0] == "concrete":
                return ("concrete", [mk("tuple", (T.add(st, const(i)), e)) for i, e in enumerate(inner[1])])
            return ("sym", inner[1], lambda k: mk("tuple", (T.add(st, k), inner[2](k))))
        if it.op == "zip":
            parts = [self.iteration(x) for x in it.args[0]]
            if not parts:
                return ("concrete", [])
            conc = [p for p in parts if p[0] == "concrete"]
            if conc:
                n = min(len(p[1]) for p in conc)
                # zip with a literal sequence: assume the others are at least as long
                return ("concrete", [mk("tuple", tuple(p[1][i] if p[0] == "concrete" else p[2](const(i)) for p in parts)) for i in range(n)])
            cnt = T.minmax("min", [p[1] for p in parts])
            return ("sym", cnt, lambda k: mk("tuple", tuple(p[2](k) for p in parts)))
        if it.op == "reversed":
            inner = self.iteration(it.args[0])
            if inner[0] == "concrete":
                return ("concrete", inner[1][::-1])
            return ("sym", inner[1], lambda k: inner[2](T.sub_(T.sub_(inner[1], const(1)), k)))
        if it.op == "items":
            d = it.args[0]
            if d.op == "dict" and not any(k.op == "star" for k, _ in d.args[0]):
                return ("concrete", [mk("tuple", (k, v)) for k, v in d.args[0]])
            return ("sym", T.length(d), lambda k: mk("tuple", (mk("keyat", d, k), sub(d, mk("keyat", d, k)))))
        if it.op == "values":
            d = it.args[0]
            if d.op == "dict" and not any(k.op == "star" for k, _ in d.args[0]):
                return ("concrete", [v for k, v in d.args[0]])
            return ("sym", T.length(d), lambda k: sub(d, mk("keyat", d, k)))
        if it.op == "keys":
            d = it.args[0]
            if d.op == "dict" and not any(k.op == "star" for k, _ in d.args[0]):
                return ("concrete", [k for k, v in d.args[0]])
            return ("sym", T.length(d), lambda k: mk("keyat", d, k))
        if it.op == "cmap" and it.args[1] is TRUE and len(it.args[2]) == 1 and it.args[2][0].op != "star":
            if _int(it.args[0]) and cval(it.args[0]) <= MAX_CONCRETE:
                return ("concrete", [sub(it, const(i)) for i in range(cval(it.args[0]))])
            return ("sym", it.args[0], lambda k: sub(it, k))
        ln = T.length(it)
        if _TYPES and sized(it) is not None and sized(it) <= MAX_CONCRETE:
            ln = const(sized(it))
        if _int(ln) and cval(ln) <= MAX_CONCRETE:
            return ("concrete", [sub(it, const(i)) for i in range(cval(ln))])
        return ("sym", ln, lambda k: sub(it, k))

    def s_For(self, s):
        it = self.eval(s.iter)
        if it.op == "ite" and T.leaves(it) <= 8 and all(self._conc_iterable(l) for l in _leaves(it)):
            def rec(n):
                if n.op == "ite":
                    self.branch(atom(n.args[0]), lambda: rec(n.args[1]), lambda: rec(n.args[2]))
                else:
                    self.run_for(s, n)
            rec(it)
            return
        self.run_for(s, it)

    def _conc_iterable(self, n):
        return self.iteration(n)[0] == "concrete"

    def run_for(self, s, it):
        if it.op == "cmap" and it.args[1] is not TRUE and len(it.args[2]) == 1 and it.args[2][0].op != "star" and self.mode == "fold":
            count, k0, pre, items = open_cmap(it)
            if self.loop_fold(s, count, lambda k: T.subst(items[0], {k0: k}), lambda k: truth(T.subst(pre, {k0: k}))):
                return
        spec = self.iteration(it, s)
        if spec[0] == "concrete":
            self.loop_unrolled(s, [(TRUE, e) for e in spec[1]])
            return
        _, count, elem = spec
        if self.mode == "fold":
            if self.loop_fold(s, count, elem):
                return
        self.bounded.append((self.frame.module.relpath, s.lineno))
        self.loop_unrolled(s, [(T.lt(const(i), count), elem(const(i))) for i in range(UNROLL)])

    def loop_unrolled(self, s, iters):
        fr = self.frame
        fr.loops.append([[], []])     # [breaks, continues]
        exits = []
        for cond, e in iters:
            if self.pc is FALSE:
                break
            if cond is not TRUE:
                # leave the loop where cond is false
                out = b_and(self.pc, b_not(cond))
                if out is not FALSE:
                    sn = self.snap()
                    sn.pc = out
                    exits.append(sn)
                self.pc = b_and(self.pc, cond)
                if self.pc is FALSE:
                    break
            if isinstance(s, ast.For):
                self.assign(s.target, e)
            self.block(s.body)
            conts = fr.loops[-1][1]
            fr.loops[-1][1] = []
            self.join(conts)
        breaks = fr.loops.pop()[0]
        self.join(exits)
        if s.orelse:
            self.block(s.orelse)
        self.join(breaks)

    def join(self, snaps):
        for sn in reversed(snaps):
            if sn.pc is FALSE:
                continue
            self.merge_into(sn.pc, sn)
            self.pc = b_or(self.pc, sn.pc)

    def s_Break(self, s):
        self.frame.loops[-1][0].append(self.snap())
        self.pc = FALSE

    def s_Continue(self, s):
        self.frame.loops[-1][1].append(self.snap())
        self.pc = FALSE

    def loop_fold(self, s, count, elem, cond=None):
        """summarise a counted loop; returns False if the summary is not expressible"""
        fr = self.frame
        names = assigned_names(s)
        state0 = (dict(fr.env), dict(self.heap), dict(self.ver), self.pc, self.base,
                  len(self.effects), len(self.raises), len(self.unknowns), set(fr.mutated), len(fr.rets), len(fr.loops))
        carried_n = [n for n in names if n in fr.env]
        carried_h = []

        def restore():
            fr.env, self.heap, self.ver, self.pc, self.base = dict(state0[0]), dict(state0[1]), dict(state0[2]), state0[3], state0[4]
            eff, rai = [e for e in self.effects[state0[5]:] if e[0] is not FALSE], self.raises[state0[6]:]
            del self.effects[state0[5]:]
            del self.raises[state0[6]:]
            del self.unknowns[state0[7]:]
            ex = fr.rets[state0[9]:]
            del fr.rets[state0[9]:]
            del fr.loops[state0[10]:]
            return eff, rai, ex

        for attempt in range(6):
            k = fresh("k")
            ALLOC_K.append(k)
            symn = {n: fresh("c") for n in carried_n}
            symh = {h: fresh("h") for h in carried_h}
            # module lists stay module lists while their contents are unknown
            ml = {x for x in list(symn) + list(symh) if (state0[0] if x in symn else state0[1])[x].op == "mlist"}
            fr.env.update({n: mk("mlist", v) if n in ml else v for n, v in symn.items()})
            self.heap.update({n: mk("mlist", v) if n in ml else v for n, v in symh.items()})
            self.base = self.guard()
            self.pc = TRUE
            fr.loops.append([[], []])
            if cond is not None:
                c = cond(k)
                sn = self.snap()
                sn.pc = b_not(c)
                fr.loops[-1][1].append(sn)
                self.pc = c
            if isinstance(s, ast.For):
                self.assign(s.target, elem(k))
            try:
                self.block(s.body)
            finally:
                ALLOC_K.pop()
            lp = fr.loops.pop()
            self.join(lp[1])
            breaks = lp[0]
            env1, heap1, pc1 = dict(fr.env), dict(self.heap), self.pc
            ver1 = dict(self.ver)
            if any((env1 if n in symn else heap1)[n].op != "mlist" for n in ml):
                restore()
                return False
            new_n = [n for n in env1 if n in state0[0] and env1[n] is not (symn.get(n) or state0[0][n]) and n not in symn]
            new_h = [h for h in heap1 if heap1[h] is not (symh.get(h) or state0[1].get(h)) and h not in symh]
            eff, rai, rets = restore()
            if not new_n and not new_h:
                break
            carried_n += new_n
            carried_h += new_h
            for h in new_h:
                if h not in state0[1]:
                    # attribute first written inside the loop: start from its symbolic value
                    o = T._by_id[h[1]]
                    state0[1][h] = self.raw_attr(o, h[2])
                    self.heap[h] = state0[1][h]
        else:
            return False
        # iteration-local raising removes the iteration path; pc1 is the condition of surviving an iteration
        rel = {}
        def un(key, v):
            return v.args[0] if key in ml else v

        def re(key, v):
            return mk("mlist", v) if key in ml else v
        vars_ = [("n", n, symn[n], un(n, state0[0][n]), un(n, env1.get(n, self.UNDEF))) for n in carried_n] + \
                [("h", h, symh[h], un(h, state0[1][h]), un(h, heap1.get(h, self.UNDEF))) for h in carried_h]
        locals_ = [n for n in env1 if n not in state0[0]]
        # the loop target and other loop-local names keep their last value
        S = {v[2]: v for v in vars_}
        # 1. induction variables
        subs = {}
        for kind, key, sy, init, nxt in vars_:
            a = mk("eq", sy, NONE)
            if not any(T.occurs(a, v[4]) for v in vars_) and not any(T.occurs(a, e[2]) or T.occurs(a, e[0]) for e in eff):
                continue
            ok = True
            for c, leaf in _leaf_conds(nxt):
                if b_and(c, atom(a)) is not FALSE and T.subst(leaf, {sy: NONE}) is not NONE:
                    ok = False
                if b_and(c, b_not(atom(a))) is not FALSE and not (leaf is sy or leaf.op in ("list", "tuple", "cmap", "poly") or (leaf.op == "sub" and leaf.args[1].op == "slice") or T._never_none(leaf)):
                    ok = False
            if ok:
                subs[a] = T.eq(init, NONE)
        for v in vars_:
            kind, key, sy, init, nxt = v
            d = T.sub_(nxt, sy) if nxt.op != "ite" else None
            if d is not None and is_num(d) and not is_num(nxt):
                subs[sy] = T.add(init, T.mul(d, k))
                rel[(kind, key)] = T.add(init, T.mul(d, count))
            elif nxt is sy:
                subs[sy] = init
                rel[(kind, key)] = init
        base_abs = b_and(state0[4], state0[3])

        def sb(n):
            return T.subst(n, subs) if subs else n
        rest = []
        for v in vars_:
            kind, key, sy, init, nxt = v
            if (kind, key) in rel:
                continue
            rest.append((kind, key, sy, init, sb(nxt)))
        # names read before being written in the iteration? those whose symbol occurs somewhere
        all_terms = [r[4] for r in rest] + [sb(e[2]) for e in eff] + [sb(e[0]) for e in eff] + [sb(r[0]) for r in rai]
        used = set()
        for t in all_terms:
            used |= T.free_syms(t)
        rsyms = [r[2] for r in rest]

        def has_carried(n):
            fs = T.free_syms(n)
            return any(x.id in fs for x in rsyms)
        exits = [("ret", r) for r in rets] + [("brk", b) for b in breaks]
        if exits:
            if eff or rai or pc1 is FALSE or any(r[4] is not r[2] for r in rest):
                return False
            E = FALSE
            for _, sn in exits:
                c = sb(sn.pc)
                if has_carried(c):
                    return False
                E = b_or(E, c)
            anyE = any_(count, k, E)
            if T.free_has(E, k):
                (Ec,) = _close(k, E)
                kst = mk("first", count, Ec)
            else:
                kst = const(0)
            m = dict(subs)
            m[k] = kst
            for kind, key, sy, init, nxt in rest:
                m[sy] = init
            P = dict(subs)
            fr.env, self.heap, self.ver = dict(state0[0]), dict(state0[1]), dict(state0[2])
            self.base = state0[4]
            bsn = []
            for kd, sn in exits:
                c = sb(sn.pc)
                c = TRUE if c is E else T.truth(T.subst(c, m))
                env = {n: (T.subst(v, m) if n not in state0[0] or v is not state0[0][n] else v) for n, v in sn.env.items()}
                heap = {n: (T.subst(v, m) if v is not state0[1].get(n) else v) for n, v in sn.heap.items()}
                ns = Snap(b_and(state0[3], b_and(anyE, c)), env, heap, dict(state0[2]), T.subst(sn.val, m) if sn.val is not None else None)
                if kd == "ret":
                    fr.rets.append(ns)
                else:
                    bsn.append(ns)
            for (kind, key), v in rel.items():
                (fr.env if kind == "n" else self.heap)[key] = re(key, v)
            self.pc = b_and(state0[3], b_not(anyE))
            if s.orelse:
                self.block(s.orelse)
            self.join(bsn)
            return True
        # 2. patterns
        general = []
        for kind, key, sy, init, nxt in rest:
            val = None
            own = T.free_has(nxt, sy)
            if sy.id not in used or not own and not any(T.free_has(o[4], sy) for o in rest if o[2] is not sy) and \
                    not any(T.free_has(sb(e[2]), sy) or T.free_has(sb(e[0]), sy) for e in eff) and \
                    not any(T.free_has(sb(r[0]), sy) for r in rai):
                if not has_carried(nxt):
                    val = self.last_value(count, k, nxt, init)
            if val is None and own:
                val = self.accum_pattern(sy, init, nxt, count, k, has_carried)
            if val is None:
                general.append((kind, key, sy, init, nxt))
            else:
                rel[(kind, key)] = val
        # raises / effects depending on carried state cannot be summarised
        for g, root, node, loc in eff:
            if has_carried(sb(node)) or has_carried(sb(g)):
                return False
        for g, name, loc in rai:
            if has_carried(sb(g)):
                return False
        if general:
            outs = self.fold_nodes(count, k, general)
            if outs is None:
                return False
            rel.update(outs)
        # commit
        fr.env, self.heap, self.ver = dict(state0[0]), dict(state0[1]), dict(state0[2])
        for (kind, key), v in rel.items():
            if kind == "n":
                fr.env[key] = re(key, v)
            else:
                self.heap[key] = re(key, v)
        for n in locals_:
            v = sb(env1[n])
            if not has_carried(v):
                fr.env[n] = self.last_value(count, k, v, self.UNDEF)
        for g, root, node, loc in eff:
            g = sb(g)
            node = sb(node)
            root = sb(root)
            M = params_requires_grad(node, k, count)
            if M is not None and g is base_abs:
                node = mk("call", mk("attr", M[0], "requires_grad_"), (M[1],), ())
                self.effects.append((base_abs, M[0], node, loc))
                continue
            # strip the loop-invariant part is unnecessary: guards are absolute
            g2, n2 = _close(k, g, node)
            r2 = root if not T.free_has(root, k) else mk("eachroot", _close(k, root)[0])
            self.effects.append((base_abs, r2, mk("foreach", count, g2, n2), loc))
            kk = ("ver", r2.id)
            self.ver[kk] = mk("v", self.ver.get(kk) or mk("ver0"), n2)
        anyr = FALSE
        for g, name, loc in rai:
            a = any_(count, k, sb(g))
            # guards are absolute; their loop-invariant prefix is implied
            self.raises.append((b_and(base_abs, a), name, loc))
            anyr = b_or(anyr, a)
        self.pc = b_and(state0[3], b_not(anyr))
        self.base = state0[4]
        fr.mutated |= state0[8]
        if s.orelse:
            self.block(s.orelse)
        return True

    def last_value(self, count, k, v, init):
        if not T.free_has(v, k):
            if is_num(count) and cval(count) > 0:
                return v
            return ite(T.eq(count, const(0)), init, v) if init is not self.UNDEF else v
        last = T.subst(v, {k: T.sub_(count, const(1))})
        if init is self.UNDEF:
            return last
        return ite(T.eq(count, const(0)), init, last)

    def accum_pattern(self, sy, init, nxt, count, k, has_carried):
        # conditional append
        cond, app = TRUE, nxt
        if nxt.op == "ite":
            lv = list(_leaf_conds(nxt))
            if len(lv) > 40:
                return None
            changed = [l for l in set(x for _, x in lv) if l is not sy]
            if len(changed) == 1 and any(x is sy for _, x in lv):
                app = changed[0]
                cond = FALSE
                for c, x in lv:
                    if x is app:
                        cond = b_or(cond, c)
                if has_carried(cond):
                    return None
            elif all(T.free_has(x, sy) or x is sy for x in set(y for _, y in lv)):
                # different increments per branch: sum of conditional increments
                incs = []
                for c, x in lv:
                    d = T.sub_(x, sy) if x.op in ("poly", "sym") or x is sy else None
                    if d is None or has_carried(d) or has_carried(c):
                        return None
                    incs.append((c, d))
                e = const(0)
                for c, d in incs:
                    e = ite(c, d, e)
                return T.add(init, self.sum_of(cmap(count, k, TRUE, (e,))))
            else:
                return None
        if cond is not TRUE and not T.free_has(app, sy) and not has_carried(app) and not T.free_has(app, k):
            return ite(any_(count, k, cond), app, init)
        if app.op == "mlist" and app.args[0].op == "list":
            items = app.args[0].args[0]
            if items and items[0].op == "star" and items[0].args[0] is mk("unml", sy) and not any(has_carried(x) for x in items[1:]):
                m = cmap(count, k, cond, items[1:])
                i0 = init.args[0] if init.op == "mlist" else mk("unml", init)
                return lift(lambda mm: mk("mlist", T.mkseq("list", (mk("star", i0), mk("star", mm)))), m)
        if app.op == "list":
            items = app.args[0]
            if items and items[0].op == "star" and items[0].args[0] is sy and not any(has_carried(x) for x in items[1:]):
                m = cmap(count, k, cond, items[1:])
                return lift(lambda i0, mm: T.mkseq("list", (mk("star", i0), mk("star", mm))) if i0 is not mk("list", ()) or mm.op in ("dict", "tuple", "const", "set") else mm, init, m)
            return None
        if app.op == "cmap":
            return None
        if app.op == "store" and app.args[0] is sy and not has_carried(app.args[1]) and not has_carried(app.args[2]):
            i, v = app.args[1], app.args[2]
            if init.op == "dict" and not init.args[0]:
                return lift(lambda m: mk("dictof", m), cmap(count, k, cond, (T.seq("tuple", (i, v)),)))
            if i is k and cond is TRUE and init.op in ("list", "cmap") and T.length(init) is count:
                return cmap(count, k, TRUE, (v,))
        if app.op == "poly":
            p = dict(app.args)
            if p.get(((sy, 1),)) == 1:
                d = T.sub_(app, sy)
                if not has_carried(d):
                    e = d if cond is TRUE else ite(cond, d, const(0))
                    return T.add(init, self.sum_of(cmap(count, k, TRUE, (e,))))
        # boolean accumulators
        return None

    def sum_of(self, lst):
        return lift(self._sum_of, lst)

    def _sum_of(self, lst):
        if lst.op == "cmap":
            lst = mk("cmap", lst.args[0], lst.args[1], tuple(ite(i, const(1), const(0)) if is_boolean(i) and not is_boolconst(i) else i for i in lst.args[2]))
            if lst.args[1] is not TRUE and len(lst.args[2]) == 1 and lst.args[2][0].op != "star":
                lst = mk("cmap", lst.args[0], TRUE, (ite(lst.args[1], lst.args[2][0], const(0)),))
        return mk("fn", "sum", lst)

    def fold_nodes(self, count, k, general, depth=0):
        """canonical simultaneous recurrences, loop-invariant tests hoisted"""
        bad = {k.id} | {g[2].id for g in general}
        ats = set()
        for g in general:
            ats |= {a for a in T.atoms_of(g[4]) if not (T.free_syms(a) & bad)}
            ats |= T.atoms_of(g[3])
        ats |= T.atoms_of(count)
        if ats and depth < 6:
            a = min(ats, key=T.atom_order)
            hi = self.fold_nodes(T.restrict(count, a, True), k, [(x, y, s_, T.restrict(i, a, True), T.restrict(n, a, True)) for x, y, s_, i, n in general], depth + 1)
            lo = self.fold_nodes(T.restrict(count, a, False), k, [(x, y, s_, T.restrict(i, a, False), T.restrict(n, a, False)) for x, y, s_, i, n in general], depth + 1)
            return {q: ite(atom(a), hi[q], lo[q]) for q in hi}
        bysym = {g[2]: g for g in general}

        def deps(start):
            seen, todo = set(), [start]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                fs = T.free_syms(bysym[x][4])
                for y in bysym:
                    if y.id in fs and y not in seen:
                        todo.append(y)
            return seen
        sig = {s_: g[3].key for s_, g in bysym.items()}
        for _ in range(3):
            sig = {s_: T.subst(g[4], {y: sym("σ" + sig[y]) for y in bysym} | {k: sym("$kk")}).key for s_, g in bysym.items()}
        outs = {}
        for kind, key, sy, init, nxt in general:
            grp = sorted(deps(sy), key=lambda y: (y is not sy, sig[y]))
            h = max([bysym[y][4].h for y in grp] + [bysym[y][3].h for y in grp]) + 1
            m = {y: sym("$c%d_%d" % (h, i)) for i, y in enumerate(grp)}
            m[k] = sym("$b%d" % h)
            if nxt is sy:
                outs[(kind, key)] = init
                continue
            if not (T.free_syms(nxt) & bad):
                outs[(kind, key)] = self.last_value(count, k, nxt, init)
                continue
            body = tuple((bysym[y][3], T.subst(bysym[y][4], m)) for y in grp)
            outs[(kind, key)] = mk("fold", count, body)
        return outs

    def while_as_for(self, s):
        """`while i < n: ...; i += c` as a loop over range(i, n, c)"""
        last = s.body[-1]
        if s.orelse or len(s.body) < 2 or not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name)) or last.target.id not in self.frame.env:
            return False
        count = self.counted_while(s)
        t = s.test
        if count is None or not isinstance(t.left, ast.Name) or t.left.id != last.target.id:
            return False
        v = t.left.id
        step = last.value if isinstance(last.op, ast.Add) else ast.UnaryOp(ast.USub(), last.value)
        bound = t.comparators[0]
        if isinstance(t.ops[0], (ast.LtE, ast.GtE)):
            bound = ast.BinOp(bound, ast.Add() if isinstance(t.ops[0], ast.LtE) else ast.Sub(), ast.Constant(1))
        end = T.add(self.frame.env[v], T.mul(self.eval(step), count if is_num(count) and cval(count) >= 0 else T.minmax("max", [count, const(0)])))
        self.frame.env["%end"] = end
        fin = ast.Assign([ast.Name(v, ast.Store())], ast.Name("%end", ast.Load()))
        brk = any(isinstance(x, ast.Break) for x in walk_loop(s))
        loop = ast.For(ast.Name(v, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Name(v, ast.Load()), bound, step], []), s.body[:-1], [fin] if brk else [], None)
        for x in (loop, fin):
            ast.fix_missing_locations(ast.copy_location(x, s))
        self.s_For(loop)
        if not brk:
            self.s_Assign(fin)
        self.frame.env.pop("%end", None)
        return True

    def s_While(self, s):
        if self.while_as_for(s):
            return
        if self.mode == "fold" and not s.orelse and not any(isinstance(x, (ast.Break, ast.Return)) for x in walk_loop(s)):
            r = self.counted_while(s)
            if r is not None:
                count = r
                if self.loop_fold(s, count, lambda k: None):
                    return
        self.bounded.append((self.frame.module.relpath, s.lineno))
        fr = self.frame
        fr.loops.append([[], []])
        exits = []
        for i in range(UNROLL + 1):
            if self.pc is FALSE:
                break
            c = truth(self.eval(s.test))
            out = b_and(self.pc, b_not(c))
            if out is not FALSE:
                sn = self.snap()
                sn.pc = out
                exits.append(sn)
            self.pc = b_and(self.pc, c)
            if i == UNROLL:
                self.pc = FALSE if exits or fr.loops[-1][0] or fr.rets else self.pc
                break
            self.block(s.body)
            conts = fr.loops[-1][1]
            fr.loops[-1][1] = []
            self.join(conts)
        breaks = fr.loops.pop()[0]
        self.join(exits)
        self.join(breaks)

    def counted_while(self, s):
        """trip count of `while i < n` with a top-level constant increment of i"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        names = assigned_names(s)
        steps = {}
        for st in s.body:
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.op, (ast.Add, ast.Sub)):
                steps.setdefault(st.target.id, []).append(st)
        l, r, op = t.left, t.comparators[0], t.ops[0]
        for var, bound, flip in ((l, r, False), (r, l, True)):
            if isinstance(var, ast.Name) and var.id in steps and len(steps[var.id]) == 1:
                n_assign = sum(1 for x in walk_loop(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == var.id)
                if n_assign != 1:
                    continue
                if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(bound)) or touches(s, bound):
                    continue
                if any(isinstance(x, ast.Continue) for x in walk_loop(s)):
                    continue
                st = steps[var.id][0]
                d = self.eval(st.value)
                if isinstance(st.op, ast.Sub):
                    d = T.neg(d)
                i0, n = self.eval(var), self.eval(bound)
                o = type(op).__name__
                if flip:
                    o = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(o, o)
                if not is_num(d):
                    if o == "Lt":
                        return T.ceildiv(T.sub_(n, i0), d)
                    return None
                if o == "Lt" and cval(d) > 0:
                    return T.ceildiv(T.sub_(n, i0), d)
                if o == "LtE" and cval(d) > 0:
                    return T.ceildiv(T.add(T.sub_(n, i0), const(1)), d)
                if o == "Gt" and cval(d) < 0:
                    return T.ceildiv(T.sub_(i0, n), T.neg(d))
                if o == "GtE" and cval(d) < 0:
                    return T.ceildiv(T.add(T.sub_(i0, n), const(1)), T.neg(d))
        return None

    def s_With(self, s):
        nog = 0
        for item in s.items:
            txt = ast.unparse(item.context_expr)
            f = item.context_expr.func if isinstance(item.context_expr, ast.Call) else item.context_expr
            ent = self.repo.resolve_expr(self.frame.module, f) if isinstance(f, (ast.Name, ast.Attribute)) else None
            nm = ent.name if isinstance(ent, Ext) else txt
            if nm in ("torch.no_grad", "torch.inference_mode", "torch.autograd.no_grad"):
                nog += 1
            else:
                v = self.eval(item.context_expr)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, mk("enter", v) if not (v.op == "call" and v.args[0] in (mk("ext", "open"), mk("ext", "io.BytesIO"))) else v)
        if not nog:
            self.block(s.body)
            return
        env0, heap0 = dict(self.frame.env), dict(self.heap)
        self.frame.nogd += 1
        try:
            self.block(s.body)
        finally:
            self.frame.nogd -= 1
        for n, v in list(self.frame.env.items()):
            if v is not env0.get(n):
                self.frame.env[n] = ng(v)
        for n, v in list(self.heap.items()):
            if v is not heap0.get(n):
                self.heap[n] = ng(v)

    s_AsyncWith = s_With

    def s_Try(self, s):
        pre = self.snap()
        nr, nret, neff = len(self.raises), len(self.frame.rets), len(self.effects)
        self.block(s.body)
        # explicit raises of the body that a handler catches
        names = []
        for h in s.handlers:
            t = h.type
            if t is None:
                names.append(["BaseException"])
            else:
                names.append([self.exc_name(x) for x in (t.elts if isinstance(t, ast.Tuple) else [t])])
        caught = FALSE
        if s.handlers:
            keep = []
            catch = [FALSE] * len(s.handlers)
            for g, n, loc in self.raises[nr:]:
                for i, ns in enumerate(names):
                    if n in ns or "Exception" in ns or "BaseException" in ns:
                        catch[i] = b_or(catch[i], g)
                        break
                else:
                    keep.append((g, n, loc))
            self.raises[nr:] = keep
            if self.pc is not FALSE:
                self.block(s.orelse)
            done = self.snap()
            new = [v for n, v in self.frame.env.items() if v is not pre.env.get(n)]
            new += [v for n, v in self.heap.items() if v is not pre.heap.get(n)]
            new += [r.val for r in self.frame.rets[nret:] if r.val is not None]
            new += [n for q, _, n, _ in self.effects[neff:] if q is not FALSE]
            body_src = self.fallible(new)
            nbody = len(self.frame.rets)
            for i, h in enumerate(s.handlers):
                a = atom(mk("exc", ",".join(names[i]), *body_src))
                c = b_or(a, catch[i])
                hp = b_and(pre.pc, c)
                self.frame.env, self.heap, self.ver = dict(pre.env), dict(pre.heap), dict(pre.ver)
                # locals assigned before the exception are unknown; keep pre-state
                self.pc = hp
                if h.name:
                    self.frame.env[h.name] = mk("excval", names[i][0])
                self.block(h.body)
                hs = self.snap()
                self.frame.env, self.heap, self.ver, self.pc = dict(done.env), dict(done.heap), dict(done.ver), b_and(done.pc, b_not(a))
                if hs.pc is not FALSE:
                    self.merge_into(hs.pc, hs)
                    self.pc = b_or(self.pc, hs.pc)
                done = self.snap()
                for r in self.frame.rets[nret:nbody]:
                    r.pc = b_and(r.pc, b_not(a))
        elif self.pc is not FALSE:
            self.block(s.orelse)
        if s.finalbody:
            if self.pc is FALSE:
                p = self.pc
                self.pc = pre.pc
                self.block(s.finalbody)
                self.pc = p
            else:
                self.block(s.finalbody)

    def fallible(self, vals):
        """the outermost computations among the values that can raise"""
        seen, tops, inner = set(), {}, set()

        def walk(n, top):
            if n.id in seen and (top or n.id in inner):
                return
            seen.add(n.id)
            can = n.op in ("call", "attr", "sub", "bound") and not (n.op == "attr" and n.args[1] in ("shape", "device", "dtype"))
            if can:
                if top:
                    tops[n.id] = n
                else:
                    inner.add(n.id)
                top = False
            for c in T.children(n):
                walk(c, top)
        for v in vals:
            walk(v, True)
        return tuple(sorted((T.box(n) for i, n in tops.items() if i not in inner), key=lambda n: n.key))

    # ---------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown("expr " + type(e).__name__, e)
        l0 = self.loc
        if hasattr(e, "lineno") and self.frame is not None:
            self.loc = (self.frame.module.relpath, e.lineno)
        v = m(e)
        self.loc = l0
        return v

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def lookup(self, name, e=None):
        fr = self.frame
        while fr is not None:
            if name in fr.env:
                return fr.env[name]
            fr = fr.closure
        ent = self.repo.entity(self.frame.module, name)
        if ent is not None:
            return self.wrap(ent)
        if name in ("True", "False", "None"):
            return const({"True": True, "False": False, "None": None}[name])
        return mk("ext", name)

    def wrap(self, ent):
        if isinstance(ent, Ext):
            n = ent.name
            n = kb.EXT_ALIASES.get(n, n)
            if n == "math.inf":
                return const(float("inf"))
            return mk("ext", n)
        if isinstance(ent, FuncDef):
            if ent.qual not in self.funcs or ent.closure is not None:
                self.funcs[ent.qual] = ent
            return mk("func", ent.qual)
        if isinstance(ent, ClassDef):
            self.funcs[ent.qual] = ent
            return mk("class", ent.qual)
        if isinstance(ent, Module):
            self.funcs["mod:" + ent.name] = ent
            return mk("mod", ent.name)
        if isinstance(ent, tuple) and ent[0] == "assign":
            k = (ent[1].name, id(ent[2]))
            if k in self.const_memo:
                return self.const_memo[k]
            self.const_memo[k] = mk("ext", "recursive")
            v = self.eval_in(ent[1], ent[2])
            self.const_memo[k] = v
            return v
        raise Unsupported("entity %r" % (ent,))

    def e_Attribute(self, e):
        b = self.eval(e.value)
        return self.getattr(b, e.attr, e)

    def getattr(self, b, name, e=None):
        if b.op == "ite":
            return lift(lambda x: self.getattr(x, name, e), b)
        if name == "nbytes" and (b.op == "call" and b.args[0] is mk("ext", "pickle.dumps") or b is const(b"")):
            return T.length(b)
        if b.op == "mod":
            ent = self.repo.member(self.funcs["mod:" + b.args[0]], name)
            return self.wrap(ent) if ent is not None else mk("ext", b.args[0] + "." + name)
        if b.op == "ext":
            n = b.args[0] + "." + name
            n = kb.EXT_ALIASES.get(n, n)
            if n == "math.inf":
                return const(float("inf"))
            return mk("ext", n)
        if b.op == "class":
            c = self.funcs[b.args[0]]
            if name in ("__name__", "__class__"):
                return mk("attr", b, name)
            ent = self.repo.member(c, name)
            if ent is None:
                return mk("attr", b, name)
            if not isinstance(ent, FuncDef):
                ms = self.enum_members(c)
                if ms and name in ms:
                    return ms[name]
            if isinstance(ent, FuncDef) and ent.is_classmethod:
                self.funcs[ent.qual] = ent
                return mk("bound", b, ent.qual)
            return self.wrap(ent)
        if b.op == "super":
            obj, cq = b.args
            cur = self.funcs[cq]
            oc = self.objclass.get(obj.id) or (self.funcs[obj.args[0]] if obj.op == "class" else cur)
            f = oc.find(name, after=cur)
            if f is not None:
                self.funcs[f.qual] = f
                if f.is_property:
                    return self.inline(f, [], {}, obj)
                return mk("bound", obj, f.qual)
            return mk("attr", mk("superof", obj), name)
        if self.is_obj(b):
            return self.obj_attr(b, name)
        if b.op == "record":
            for f, v in b.args[1]:
                if f == name:
                    return v
            c = self.funcs.get(b.args[0])
            if c is not None:
                f = c.find(name)
                if f is not None:
                    self.funcs[f.qual] = f
                    if f.is_property:
                        return self.inline(f, [], {}, b)
                    return mk("bound", b, f.qual)
                a = c.find_assign(name)
                if a is not None:
                    return self.eval_in(a[0].module, a[1])
        if b.op == "ns":
            for f, v in b.args[0]:
                if f == name:
                    return v
        if b.op == "call" and b.args[0] == "t:with_data":
            kw = dict(b.args[2])
            return kw["data"] if name == "data" else self.getattr(kw["x"], name, e)
        if name == "value" and b.op == "enum":
            return b.args[2]
        if name == "name" and b.op == "enum":
            return const(b.args[1])
        if name == "value" and b.op == "const":
            return b
        h = self.heap.get(("attr", b.id, name))
        if h is not None:
            return h
        return _attr(b, name)

    def enum_members(self, c):
        """name -> value term of an Enum class (IntEnum members are their values), or None"""
        eb = set(b.split(".")[-1] for b in c.ext_bases())
        if not eb & {"Enum", "IntEnum", "StrEnum"}:
            return None
        out = {}
        plain = not (eb & {"IntEnum", "StrEnum", "int", "str"})
        for k in reversed(c.mro()):
            if not isinstance(k, ClassDef):
                continue
            for n, x in k.assigns.items():
                if not n.startswith("_"):
                    v = self.eval_in(k.module, x)
                    if v.op == "call" and "auto" in str(v.args[0]):
                        v = const(len(out) + 1)
                    out[n] = mk("enum", c.qual, n, v) if plain else v
        return out

    # objects -------------------------------------------------------
    def raw_attr(self, o, name):
        """value of attribute name of object o ignoring stores of this run"""
        h = self.heap.pop(("attr", o.id, name), None)
        try:
            return self.getattr(o, name)
        finally:
            if h is not None:
                self.heap[("attr", o.id, name)] = h

    def spec_attr(self, c, name):
        """the name a private attribute of the specification has in the repository now"""
        if not name.startswith("_") or name.endswith("__"):
            return name
        n = c.current_attr(name)
        if n is None or (c.find(name) is None and any(isinstance(k, ClassDef) and name in k.base_entry().get("methods", {}) for k in c.mro())):
            raise AnchorError("%s.%s is no longer there" % (c.qual, name))
        return n

    def obj_attr(self, o, name):
        if self.spec:
            name = self.spec_attr(self.objclass[o.id], name)
        h = self.heap.get(("attr", o.id, name))
        if h is not None:
            return h
        c = self.objclass[o.id]
        f = c.find(name)
        if f is not None:
            self.funcs[f.qual] = f
            if f.is_property:
                r = self.inline(f, [], {}, o)
                return r if r is not None else mk("attr", o, name)
            if f.is_static:
                return mk("func", f.qual)
            if f.is_classmethod:
                self.funcs[c.qual] = c
                return mk("bound", mk("class", c.qual), f.qual)
            return mk("bound", o, f.qual)
        if name == "__class__":
            self.funcs[c.qual] = c
            return mk("class", c.qual)
        iv = self.init_value(o, c, name)
        if iv is not None:
            return iv
        if not (self.in_init and o is self.self_sym) and name not in self.unstable_attrs(c) and name in self.stored_attrs(c):
            raw = self.init_heap(o, c).get(name)
            if raw is not None and raw.op == "mlist":
                n = mk("attr", o, name)
                ln = T.length(raw)
                if value_like(ln) and is_num(ln):
                    T.LEN_FACTS[n.id] = ln
                else:
                    T.LEN_FACTS.pop(n.id, None)
                return n
        if name == "training" or self.bool_attr(c, name):
            return atom(mk("truth", mk("attr", o, name)))
        a = c.find_assign(name)
        if a is not None and name not in self.unstable_attrs(c):
            return self.eval_in(a[0].module, a[1])
        return mk("attr", o, name)

    def init_value(self, o, c, name):
        if self.in_init and o is self.self_sym:
            return None
        if name in self.unstable_attrs(c) or name not in self.stored_attrs(c):
            return None
        hp = self.init_heap(o, c)
        v = hp.get(name)
        if v is None:
            return None
        if not value_like(v):
            return None
        return v

    def is_module(self, n):
        """known to be a network part (moved in place), not a tensor"""
        if n.op == "superof":
            n = n.args[0]
        if self.is_obj(n):
            return any(b.endswith("Module") or b.endswith("CompressionModel") for b in self.objclass[n.id].ext_bases())
        if n.op != "attr" or not self.is_obj(n.args[0]) or (self.in_init and n.args[0] is self.self_sym):
            return False
        raw = self.init_heap(n.args[0], self.objclass[n.args[0].id]).get(n.args[1])
        return raw is not None and all(self._module_value(x) for x in _leaves(raw))

    def _module_value(self, x):
        if x.op == "mlist":
            return True
        if x.op == "newobj":
            c = self.funcs.get(x.args[0])
            return isinstance(c, ClassDef) and any(b.endswith("Module") for b in c.ext_bases())
        return x.op == "call" and isinstance(x.args[0], Node) and x.args[0].op == "ext" and x.args[0].args[0].startswith(("torch.nn.", "compressai.")) \
            and x.args[0].args[0].split(".")[-1][:1].isupper() and not x.args[0].args[0].endswith("Parameter")

    def sub_class(self, n):
        """class of the project object a stable attribute of self is built as"""
        if n.op != "attr" or not self.is_obj(n.args[0]):
            return None
        c = self.objclass[n.args[0].id]
        self.unstable_attrs(c)
        if n.args[1] in self.stable_cache[("reassigned", c.qual)] or n.args[1] not in self.stored_attrs(c) or (self.in_init and n.args[0] is self.self_sym):
            return None
        raw = self.init_heap(n.args[0], c).get(n.args[1])
        r = self.funcs.get(raw.args[0]) if raw is not None and raw.op == "newobj" else None
        return r if isinstance(r, ClassDef) else None

    def ext_sig(self, n, method):
        """signature of a method of the external object a stable attribute of self is built as"""
        if n.op != "attr" or not self.is_obj(n.args[0]) or (self.in_init and n.args[0] is self.self_sym):
            return None
        c = self.objclass[n.args[0].id]
        self.unstable_attrs(c)
        if n.args[1] in self.stable_cache[("reassigned", c.qual)] or n.args[1] not in self.stored_attrs(c):
            return None
        raw = self.init_heap(n.args[0], c).get(n.args[1])
        if raw is None or raw.op != "call" or not isinstance(raw.args[0], Node) or raw.args[0].op != "ext":
            return None
        return kb.METHOD_SIGS.get((raw.args[0].args[0], method))

    def by_sig(self, n, method, args, kwargs):
        """arguments under their parameter names when the signature is known"""
        sig = self.ext_sig(n, method)
        b = self.sig_bind(sig, args, kwargs) if sig is not None else None
        return ([], b) if b is not None else (args, kwargs)

    def stored_attrs(self, c):
        """names assigned as attributes anywhere in the class hierarchy"""
        k = ("stored", c.qual)
        if k not in self.stable_cache:
            out = set()
            for kl in c.mro():
                if isinstance(kl, ClassDef):
                    for f in kl.methods.values():
                        for x in ast.walk(f.node):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                out.add(x.attr)
                            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                                out.add(x.value)
            self.stable_cache[k] = out
        return self.stable_cache[k]

    def init_heap(self, o, c):
        k = (o.id, c.qual)
        if k in self.initheaps:
            return self.initheaps[k]
        self.initheaps[k] = {}
        f = c.find("__init__")
        if f is None:
            return {}
        sub_i = Interp(self.repo, self.mode, self.spec)
        sub_i.funcs = self.funcs
        sub_i.analysed = self.analysed
        sub_i.objclass = dict(self.objclass)
        sub_i.closures = self.closures
        sub_i.initheaps = self.initheaps
        sub_i.in_init = True
        sub_i.no_inline = self.no_inline
        sub_i.self_sym = o
        sub_i.stack = list(self.stack)
        sub_i.depth = self.depth + 1
        sub_i.objclass[o.id] = c
        a = f.node.args
        bound = {}
        given = dict(o.args[1]) if o.op == "newobj" else None
        for i, p in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            if i == 0:
                bound[p.arg] = o
            elif given is not None and p.arg in given:
                bound[p.arg] = given[p.arg]
            else:
                bound[p.arg] = self.ctor_sym(p.arg) if given is None else sym("ctor." + p.arg)
        if a.vararg:
            bound[a.vararg.arg] = sym("ctor.*" + a.vararg.arg)
        if a.kwarg:
            bound[a.kwarg.arg] = sym("ctor.**" + a.kwarg.arg)
        hooks = list(T._on_make)
        T._on_make.clear()
        try:
            sub_i.run_function(f, bound, selfobj=o)
        except Unsupported:
            pass
        finally:
            T._on_make.extend(hooks)
        out = {key[2]: v for key, v in sub_i.heap.items() if key[0] == "attr" and key[1] == o.id}
        self.initheaps[k] = out
        return out

    def ctor_sym(self, name):
        v = self.fixed_ctor.get(name)
        return v if v is not None else sym("ctor." + name)

    def bool_attr(self, c, name):
        """every assignment to the attribute in its class stores a literal boolean"""
        k = ("bool", c.qual, name)
        if k not in self.stable_cache:
            vals = []
            for kl in c.mro():
                if not isinstance(kl, ClassDef):
                    continue
                if name in kl.assigns:
                    vals.append(kl.assigns[name])
                for f in kl.methods.values():
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name for t in x.targets):
                            vals.append(x.value)
                        elif isinstance(x, (ast.AnnAssign, ast.AugAssign)) and isinstance(x.target, ast.Attribute) and x.target.attr == name and x.value is not None:
                            vals.append(x.value)
            self.stable_cache[k] = bool(vals) and all(
                (isinstance(v, ast.Constant) and isinstance(v.value, bool)) or
                (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)) or isinstance(v, ast.Compare) for v in vals)
        return self.stable_cache[k]

    def unstable_attrs(self, c):
        if c.qual in self.stable_cache:
            return self.stable_cache[c.qual]
        meths = {}
        for k in reversed([k for k in c.mro() if isinstance(k, ClassDef)]):
            for n, f in k.methods.items():
                meths[(k.qual, n)] = f
        calls = {}
        for key, f in meths.items():
            calls[key] = set(x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                             and isinstance(x.func.value, ast.Name) and x.func.value.id == "self")
        init_only = {"__init__", "__post_init__"}
        changed = True
        while changed:
            changed = False
            for n in set(k[1] for k in meths):
                if n in init_only or not n.startswith("_"):
                    continue
                callers = [k for k in meths if n in calls[k]]
                if callers and all(k[1] in init_only for k in callers):
                    init_only.add(n)
                    changed = True
        out = set()
        again = self.stable_cache[("reassigned", c.qual)] = set()
        for (q, n), f in meths.items():
            if n in init_only:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    out.add(x.attr)
                    again.add(x.attr)
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute) and \
                        isinstance(x.value.value, ast.Name) and x.value.value.id == "self":
                    out.add(x.value.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "pop", "insert", "clear", "update", "add") \
                        and isinstance(x.func.value, ast.Attribute) and isinstance(x.func.value.value, ast.Name) and x.func.value.value.id == "self":
                    out.add(x.func.value.attr)
        self.stable_cache[c.qual] = out
        return out

    # operators -----------------------------------------------------
    def binop(self, op, a, b):
        o = type(op).__name__
        if o in ("BitAnd", "BitOr", "BitXor") and is_boolean(a) and is_boolean(b):
            return {"BitAnd": b_and, "BitOr": b_or}.get(o, lambda x, y: ite(x, b_not(y), y))(a, b)
        a, b = unbool(a), unbool(b)
        if o in ("Sub", "BitAnd", "BitOr", "BitXor") and a.op in SETISH and b.op in SETISH and {"set", "setof"} & {a.op, b.op}:
            nm = {"Sub": "difference", "BitAnd": "intersection", "BitOr": "union", "BitXor": "symmetric_difference"}[o]
            r = set_op(nm, a, b)
            return r if r is not None else self.opaque("setop:" + nm, [a, b], {})
        if o in ("Add", "Sub", "Mult", "Div"):
            if a.op == "call" and a.args[0] in ("t:repeat", "t:expand", "t:expand_as"):
                a = broadcast(a, b)
            elif b.op == "call" and b.args[0] in ("t:repeat", "t:expand", "t:expand_as"):
                b = broadcast(b, a)
        if o == "Add":
            return T.add(a, b)
        if o == "Sub":
            return T.sub_(a, b)
        if o == "Mult":
            return T.mul(a, b)
        if o == "Div":
            return T.div(a, b)
        if o == "FloorDiv":
            return T.floordiv(a, b)
        if o == "Mod":
            return T.mod(a, b)
        if o == "Pow":
            return T.pow_(a, b)
        if o == "MatMult":
            return self.tcall("matmul", [a, b], {})
        if o == "BitOr" and all(x.op == "dict" for x in _leaves(a)):
            return lift(self.dict_update, a, b)
        if o in ("LShift", "RShift", "BitAnd", "BitOr", "BitXor"):
            if is_num(a) and is_num(b):
                x, y = cval(a), cval(b)
                try:
                    return const({"LShift": lambda: x << y, "RShift": lambda: x >> y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}[o]())
                except Exception:
                    pass
            if o == "LShift" and is_num(b) and isinstance(cval(b), int) and 0 <= cval(b) <= 64:
                return T.mul(a, const(2 ** cval(b)))
            if o == "LShift" and is_num(a) and cval(a) == 1:
                return T.pow_(const(2), b)
            if o == "RShift" and is_num(b) and isinstance(cval(b), int) and 0 <= cval(b) <= 64:
                return T.floordiv(a, const(2 ** cval(b)))
            if o in ("BitAnd", "BitOr", "BitXor"):
                return lift(lambda x, y: mk("bit", o, tuple(sorted((x, y), key=lambda n: n.key))), a, b)
            return lift(lambda x, y: mk("shift", o, x, y), a, b)
        return self.unknown("binop " + o)

    def e_BinOp(self, e):
        a, b = self.eval(e.left), self.eval(e.right)
        return self.binop(e.op, a, b)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return b_not(truth(v))
        if isinstance(e.op, ast.USub):
            return T.neg(unbool(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if is_boolean(v):
                return b_not(v)
            return lift(lambda x: mk("invert", x), v)

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0])

        def go(v, rest):
            if not rest:
                return v
            t = truth(v)
            if not is_and and v.op == "sym" and len(rest) == 1 and isinstance(rest[0], (ast.Dict, ast.List, ast.Tuple)) and not (getattr(rest[0], "elts", None) or getattr(rest[0], "keys", None)):
                # xs or []: an empty container is as good as another
                a = type_of(v)
                h = (type_args(a)[0] or ast.unparse(a[0]).split(".")[-1]) if a else None
                if h in (("Dict", "dict", "Mapping", "MutableMapping") if isinstance(rest[0], ast.Dict) else ("List", "list", "Sequence", "Tuple", "tuple", "Iterable")):
                    t = b_not(T.eq(v, NONE))
            if is_and:
                r = self.branch(t, lambda: go(self.eval(rest[0]), rest[1:]), lambda: v)
            else:
                r = self.branch(t, lambda: v, lambda: go(self.eval(rest[0]), rest[1:]))
            return r
        return go(v, e.values[1:])

    def e_IfExp(self, e):
        c = truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_Compare(self, e):
        l = self.eval(e.left)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            v = self.eval(c)
            r = b_and(r, self.compare(op, l, v))
            l = v
        return r

    def compare(self, op, a, b):
        o = type(op).__name__
        if o in ("In", "NotIn"):
            bb = b
            if bb.op in ("keys",):
                bb = bb.args[0]
            r = T.contains(a, bb)
            return r if o == "In" else b_not(r)
        if o in ("Eq", "Is"):
            return truth(self.equal(a, b))
        if o in ("NotEq", "IsNot"):
            return b_not(self.equal(a, b))
        if a.op in SETISH and b.op in SETISH and "setof" in (a.op, b.op):
            r = set_op("issubset" if o in ("LtE", "Lt") else "issuperset", a, b)
            if r is not None:
                return r if o in ("LtE", "GtE") else b_and(r, b_not(self.equal(a, b)))
        a, b = unbool(a), unbool(b)
        if o == "Lt":
            return T.lt(a, b)
        if o == "Gt":
            return T.lt(b, a)
        if o == "LtE":
            return T.le(a, b)
        if o == "GtE":
            return T.le(b, a)

    def equal(self, a, b):
        if all(x.op == "call" and x.args[0] == "sorted" and len(x.args[1]) == 1 and not x.args[2] for x in (a, b)):
            x, y = [z.args[1][0] if z.args[1][0].op != "keys" else z.args[1][0].args[0] for z in (a, b)]
            r = set_op("equal", x, y) if all(z.op == "set" and not z.args[0] or key_set(z) for z in (x, y)) else None
            if r is not None:
                return r
        for x, y in ((a, b), (b, a)):
            if x.op == "attr" and x.args[1] == "type" and x.args[0].op == "attr" and x.args[0].args[1] == "device" and y is const("cpu"):
                return self.equal(x.args[0], mk("call", mk("ext", "torch.device"), (const("cpu"),), ()))
        for x, y in ((a, b), (b, a)):
            if is_boolconst(y) and x.op == "sym":
                t = _TYPES.get(x.id)
                if t is not None and isinstance(t[0], ast.Name) and t[0].id == "bool":
                    return truth(x) if y is TRUE else b_not(truth(x))
        if is_boolconst(b) and a.op == "attr" and a.args[1] in BOOL_ATTRS:
            return truth(a) if b is TRUE else b_not(truth(a))
        if is_boolconst(a) and b.op == "attr" and b.args[1] in BOOL_ATTRS:
            return self.equal(b, a)
        if a.op in SETISH and b.op in SETISH and "setof" in (a.op, b.op):
            r = set_op("equal", a, b)
            if r is not None:
                return r
        r = T.eq(a, b)
        if r.op == "ite" and r.args[1] is TRUE and r.args[2] is FALSE and r.args[0].op == "eq0":
            q = sums_equal0(r.args[0].args[0])
            if q is not None:
                return q
        return r

    def e_Tuple(self, e):
        return T.seq("tuple", [self.eval_star(x) for x in e.elts])

    def e_List(self, e):
        return T.seq("list", [self.eval_star(x) for x in e.elts])

    def e_Set(self, e):
        return mk("set", tuple(sorted((self.eval_star(x) for x in e.elts), key=lambda n: n.key)))

    def eval_star(self, x):
        if isinstance(x, ast.Starred):
            return self.mkstar(self.eval(x.value))
        return self.eval(x)

    def mkstar(self, v):
        it = v
        if it.op == "record":
            return mk("star", mk("tuple", tuple(x for _, x in it.args[1])))
        if it.op in ("range", "enumerate", "zip", "reversed", "items", "values", "keys", "dict"):
            sp = self.iteration(it)
            if sp[0] == "concrete":
                return mk("star", mk("list", tuple(sp[1])))
        return mk("star", v)

    def e_Starred(self, e):
        return self.mkstar(self.eval(e.value))

    def e_Dict(self, e):
        r = mk("dict", ())
        for k, v in zip(e.keys, e.values):
            if k is None:
                r = lift(self.dict_update, r, self.eval(v))
            else:
                kk, vv = self.eval(k), self.eval(v)
                r = lift(lambda d: self.store(d, kk, vv), r) if any(x is kk for x, _ in r.args[0]) or r.op != "dict" else mk("dict", r.args[0] + ((kk, vv),))
        return r

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value)
                spec = ast.unparse(v.format_spec) if v.format_spec is not None else ""
                if spec or (v.conversion not in (-1, 115)):
                    if isinstance(v.format_spec, ast.JoinedStr) and all(isinstance(z, ast.Constant) for z in v.format_spec.values) and is_num(x) and v.conversion == -1:
                        fs = "".join(z.value for z in v.format_spec.values)
                        try:
                            parts.append(const(format(cval(x) if isinstance(cval(x), int) else float(cval(x)), fs)))
                            continue
                        except Exception:
                            pass
                    x = mk("fmt", x, spec, v.conversion)
                parts.append(x)
        return T.fstr(parts)

    def e_Subscript(self, e):
        b = self.eval(e.value)
        i = self.eval_index(e.slice)
        if b.op == "class":
            ms = self.enum_members(self.funcs[b.args[0]])
            if ms:
                names = list(ms)
                self.do_raise(b_not(T.contains(i, mk("tuple", tuple(const(n) for n in names)))), "KeyError")
                r = ms[names[-1]]
                for n in reversed(names[:-1]):
                    r = T.ite(T.eq(i, const(n)), ms[n], r)
                return r
        if b.op == "class" or (b.op == "ext" and b.args[0].split(".")[0] in ("typing", "Optional", "List", "Union", "Tuple", "Dict")):
            return b
        if b.op in ("enumerate", "zip", "reversed") and _int(i):
            sp = self.iteration(b)
            if sp[0] == "concrete":
                return sub(mk("list", tuple(sp[1])), i)
        if i.op == "ite" and is_boolean(i) and b.op not in ("dict", "list", "tuple", "cmap", "const"):
            i = mk("bool", i)       # boolean mask
        return sub(b, i)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s)
        return self.eval(s)

    def e_Slice(self, s):
        xs = [self.eval(x) if x is not None else NONE for x in (s.lower, s.upper, s.step)]
        return lift(lambda *a: mk("slice", *a), *xs)

    def e_Lambda(self, e):
        f = FuncDef(self.frame.module, e, None, qual=self.frame.module.name + ".<locals>.<lambda>", closure=self.frame)
        return self.mk_closure(f)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        fr = self.frame
        fr.env["%y"] = T.add(fr.env["%y"], mk("list", (v,)))
        return mk("sent")

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        fr = self.frame
        fr.env["%y"] = T.mkseq("list", (mk("star", fr.env["%y"]), mk("star", v)))
        return NONE

    # comprehensions --------------------------------------------------
    def e_ListComp(self, e):
        return self.comp(e.generators, lambda: (self.eval(e.elt),))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        return mk("setof", self.comp(e.generators, lambda: (self.eval(e.elt),)))

    def e_DictComp(self, e):
        l = self.comp(e.generators, lambda: (T.seq("tuple", (self.eval(e.key), self.eval(e.value))),))
        if l.op == "list" and all(x.op == "tuple" for x in l.args[0]):
            return mk("dict", tuple((x.args[0][0], x.args[0][1]) for x in l.args[0]))
        return lift(lambda m: mk("dictof", m), l)

    def comp(self, gens, body):
        saved = dict(self.frame.env)
        bound = set(x.id for g in gens for x in ast.walk(g.target) if isinstance(x, ast.Name))
        try:
            r = self._comp(gens, body)
        finally:
            for n in bound:
                if n in saved:
                    self.frame.env[n] = saved[n]
                else:
                    self.frame.env.pop(n, None)
        return r

    def _comp(self, gens, body):
        if not gens:
            return mk("list", tuple(body()))
        g = gens[0]
        it = self.eval(g.iter)
        if it.op == "ite" and T.leaves(it) <= 8 and all(self._conc_iterable(l) for l in _leaves(it)):
            def rec(n):
                if n.op == "ite":
                    return self.branch(atom(n.args[0]), lambda: rec(n.args[1]), lambda: rec(n.args[2]))
                return self._comp_iter(g, n, gens, body)
            return rec(it)
        return self._comp_iter(g, it, gens, body)

    def _comp_iter(self, g, it, gens, body):
        pre = TRUE
        if it.op == "dictof":
            it = dict_part(it, "keys") or it
        if it.op == "cmap" and it.args[1] is not TRUE and len(it.args[2]) == 1 and it.args[2][0].op != "star" and self.mode != "unroll":
            count, k, pre, items = open_cmap(it)
            self.assign(g.target, items[0])
            cond = pre
            for c in g.ifs:
                cond = b_and(cond, truth(self.eval(c)))
            pc0 = self.pc
            self.pc = b_and(pc0, cond)
            inner = self._comp(gens[1:], body)
            if self.pc is b_and(pc0, cond):
                self.pc = pc0
            if inner.op == "list":
                return cmap(count, k, cond, inner.args[0])
            return cmap(count, k, cond, (mk("star", inner),))
        sp = self.iteration(it)

        def one(elem):
            self.assign(g.target, elem)
            cond = TRUE
            for c in g.ifs:
                cond = b_and(cond, truth(self.eval(c)))
            if cond is FALSE:
                return cond, mk("list", ())
            pc0 = self.pc
            self.pc = b_and(pc0, cond)
            inner = self._comp(gens[1:], body)
            if self.pc is b_and(pc0, cond):
                self.pc = pc0
            return cond, inner
        if sp[0] == "concrete":
            acc = mk("list", ())
            for x in sp[1]:
                c, inner = one(x)
                acc = ite(c, T.add(acc, inner), acc)
            return acc
        _, count, elem = sp
        if self.mode == "unroll":
            acc = mk("list", ())
            done = TRUE
            for i in range(UNROLL):
                here = b_and(done, T.lt(const(i), count))
                c, inner = one(elem(const(i)))
                acc = ite(b_and(here, c), T.add(acc, inner), acc)
                done = here
            return acc
        k = fresh("k")
        nr = len(self.raises)
        pc0, base0 = self.pc, self.base
        self.base, self.pc = self.guard(), TRUE
        ALLOC_K.append(k)
        try:
            c, inner = one(elem(k))
        finally:
            ALLOC_K.pop()
        self.pc, self.base = pc0, base0
        rai = self.raises[nr:]
        del self.raises[nr:]
        for gd, n, loc in rai:
            a = any_(count, k, gd)
            self.raises.append((b_and(self.guard(), a), n, loc))
            self.pc = b_and(self.pc, b_not(a))
        items = inner.args[0] if inner.op == "list" else (mk("star", inner),)
        return cmap(count, k, c, items)

    # calls -----------------------------------------------------------
    def eval_args(self, e):
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                st = self.mkstar(self.eval(a.value))
                y = st.args[0]
                if y.op == "ite" and all(z.op in ("list", "tuple") for z in _leaves(y)) and len(set(len(z.args[0]) for z in _leaves(y))) == 1:
                    n = len(next(iter(_leaves(y))).args[0])
                    args.extend(sub(y, const(i)) for i in range(n))
                elif y.op in ("list", "tuple"):
                    args.extend(y.args[0])
                else:
                    args.append(st)
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if v.op == "dict" and all(is_const(kk) for kk, _ in v.args[0]):
                    for kk, vv in v.args[0]:
                        kwargs[cval(kk)] = vv
                else:
                    kwargs[None] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def e_Call(self, e):
        return self.do_call(e, discarded=False)

    def call_stmt(self, e):
        return self.do_call(e, discarded=True)

    def do_call(self, e, discarded):
        self.callsites += 1
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in self.frame.env:
            fr = self.frame
            while fr is not None and fr.cls is None and fr.closure is not None:
                fr = fr.closure
            selfobj = fr.selfobj if fr.selfobj is not None else fr.env.get("self", fr.env.get("cls"))
            self.funcs[fr.cls.qual] = fr.cls
            return mk("super", selfobj, fr.cls.qual)
        if isinstance(f, ast.Attribute):
            recv = self.eval(f.value)
            args, kwargs = self.eval_args(e)
            return self.method_call(recv, f.attr, args, kwargs, e, discarded)
        fn = self.eval(f)
        args, kwargs = self.eval_args(e)
        r = self.call(fn, args, kwargs, e, discarded)
        return r

    # -- method calls
    def autograd_apply(self, c, args):
        """torch.autograd.Function.apply: the forward value, tagged with what backward returns for a symbolic incoming gradient"""
        fw, bw = c.find("forward"), c.find("backward")
        if fw is None or bw is None or self.depth > 12:
            return None
        ctx, g = sym("$ctx"), sym("$grad")
        for k in [k for k in self.heap if k[0] == "attr" and k[1] == ctx.id]:
            del self.heap[k]
        ne = len(self.effects)
        val = self.inline(fw, [ctx] + list(args), {}, None)
        if val is None:
            return None
        if not all(_gradless(a) for a in args):
            grad = self.inline(bw, [ctx, g], {}, None)
            if grad is None:
                return None
            val = lift(lambda v, d: mk("call", "autograd", (v, d), ()), val, grad)
        self.effects[ne:] = [x for x in self.effects[ne:] if x[1] is not ctx]
        for k in [k for k in self.heap if k[0] == "attr" and k[1] == ctx.id]:
            del self.heap[k]
        return val

    def method_call(self, recv, name, args, kwargs, e, discarded):
        if recv.op == "class" and name == "apply" and not kwargs:
            c = self.funcs.get(recv.args[0])
            if c is not None and any(b.endswith("autograd.Function") or b.endswith("autograd.function.Function") for b in c.ext_bases()):
                r = self.autograd_apply(c, args)
                if r is not None:
                    return r
        if recv.op == "call" and recv.args[0] is mk("ext", "io.BytesIO") and name in ("getbuffer", "getvalue", "tell", "__len__") and not args and not recv.args[1]:
            c = self.heap.get(("attr", recv.id, "$content"), const(b""))
            return T.length(c) if name == "tell" else c
        if recv.op == "sym" and recv is sym("$ctx") and name == "save_for_backward":
            self.heap[("attr", recv.id, "saved_tensors")] = mk("tuple", tuple(args))
            return NONE
        if name == "unbind" and recv.op not in ("ext", "class", "mod"):
            d = args[0] if args else kwargs.get("dim", const(0))
            if d is const(0):
                return recv
            if _int(d) and cval(d) > 0 and recv.op != "ite":
                return mk("call", "t:unbind", (), (("dim", d), ("x", recv)))
        if recv.op == "ite":
            lv = list(_leaves(recv))
            if len(lv) <= 8:
                def rec(n):
                    if n.op == "ite":
                        return self.branch(atom(n.args[0]), lambda: rec(n.args[1]), lambda: rec(n.args[2]))
                    return self.method_call(n, name, args, kwargs, e, discarded)
                if is_boolean(recv):
                    pass
                elif name in ("append", "extend", "insert", "pop", "add", "update", "clear", "remove", "sort", "reverse") or \
                        (name.endswith("_") and not name.endswith("__")):
                    pass
                else:
                    return rec(recv)
        # list / dict mutation through a name
        if recv.op in ("mod", "ext", "class", "super") or self.is_obj(recv):
            if not (recv.op == "ext" and False):
                fn = self.getattr(recv, name, e)
                if fn.op == "attr" and self.is_obj(recv):
                    return self.opaque_method(fn.args[0], fn.args[1], args, kwargs, e, discarded)
                if fn.op == "attr" and fn.args[0].op == "superof":
                    return self.opaque_method(fn.args[0], name, args, kwargs, e, discarded)
                return self.call(fn, args, kwargs, e, discarded)
        if recv.op == "record":
            fn = self.getattr(recv, name, e)
            if fn.op == "bound":
                return self.call(fn, args, kwargs, e, discarded)
            if name == "_replace":
                d = dict(kwargs)
                return mk("record", recv.args[0], tuple((f, d.get(f, v)) for f, v in recv.args[1]))
            if name == "_asdict":
                return mk("dict", tuple((const(f), v) for f, v in recv.args[1]))
            if fn.op != "attr":
                return self.call(fn, args, kwargs, e, discarded)
        r = self.container_method(recv, name, args, kwargs, e)
        if r is not None:
            return r
        h = self.heap.get(("attr", recv.id, name))
        if h is not None:
            return self.call(h, args, kwargs, e, discarded)
        return self.opaque_method(recv, name, args, kwargs, e, discarded)

    def container_method(self, recv, name, args, kwargs, e):
        f = e.func
        isname = isinstance(f, ast.Attribute)
        base = f.value if isname else None
        listy = recv.op in ("list", "cmap") or (recv.op == "ite" and all(x.op in ("list", "cmap") for x in _leaves(recv)))
        if name in ("append", "extend") and len(args) == 1 and isname and recv.op == "mlist":
            new = mk("mlist", T.mkseq("list", (mk("star", recv.args[0]), args[0] if name == "append" else self.mkstar(args[0]))))
            self.assign_path(base, new, mutate=True, old=recv)
            return NONE
        if name in ("add_module", "register_module") and len(args) == 2 and isname and recv.op == "mlist":
            self.assign_path(base, mk("mlist", T.mkseq("list", (mk("star", recv.args[0]), args[1]))), mutate=True, old=recv)
            return NONE
        if name == "insert" and len(args) == 2 and isname and recv.op == "mlist" and _int(args[0]) and cval(args[0]) == 0:
            self.assign_path(base, mk("mlist", T.mkseq("list", (args[1], mk("star", recv.args[0])))), mutate=True, old=recv)
            return NONE
        if name == "append" and len(args) == 1 and isname:
            # append to a list value, or to a list-like attribute / parameter
            new = lift(lambda r: T.mkseq("list", (mk("star", r), args[0])), recv) if recv.op == "ite" else T.mkseq("list", (mk("star", recv), args[0]))
            if listy or recv.op in ("sym",) or (recv.op == "attr"):
                if recv.op == "attr" and not self.rebindable(base):
                    return None
                self.assign_path(base, new, mutate=True, old=recv)
                return NONE
            if recv.op == "call" or recv.op == "sub" or recv.op == "newobj":
                return None
            self.assign_path(base, new, mutate=True, old=recv)
            return NONE
        if name == "extend" and len(args) == 1 and (listy or recv.op in ("sym", "attr")):
            self.assign_path(base, T.seq("list", (mk("star", recv), self.mkstar(args[0]))), mutate=True, old=recv)
            return NONE
        if name == "insert" and len(args) == 2 and recv.op == "list" and _int(args[0]) and not any(x.op == "star" for x in recv.args[0]):
            items = list(recv.args[0])
            items.insert(cval(args[0]), args[1])
            self.assign_path(base, mk("list", tuple(items)), mutate=True, old=recv)
            return NONE
        if name == "insert" and len(args) == 2 and _int(args[0]) and cval(args[0]) == 0 and listy:
            self.assign_path(base, T.mkseq("list", (args[1], mk("star", recv))), mutate=True, old=recv)
            return NONE
        if name == "pop" and recv.op != "dict" and not kwargs and len(args) <= 1 and (listy or recv.op in ("sym", "tuple", "sub", "call")) and (not args or _int(args[0])):
            i = cval(args[0]) if args else -1
            val = sub(recv, const(i))
            if recv.op == "list" and not any(x.op == "star" for x in recv.args[0]) and recv.args[0]:
                items = list(recv.args[0])
                items.pop(i)
                new = mk("list", tuple(items))
            elif i == -1:
                new = sub(recv, mk("slice", NONE, const(-1), NONE))
            elif i == 0:
                new = sub(recv, mk("slice", const(1), NONE, NONE))
            else:
                new = mk("del", recv, const(i))
            self.assign_path(base, new, mutate=True, old=recv)
            return val
        if name == "copy" and not args and recv.op in ("list", "dict", "tuple", "cmap"):
            return recv
        if name == "copy" and not args:
            return mk("copy", recv)
        if name == "reverse" and not args and listy:
            self.assign_path(base, self.reversed_list(recv), mutate=True, old=recv)
            return NONE
        if name == "sort" and recv.op in ("list", "cmap", "call", "ext") and isname and not isinstance(base, ast.Call):
            if recv.op in ("list", "cmap") or (recv.op == "call"):
                kw = tuple(sorted(kwargs.items(), key=lambda t: t[0]))
                if recv.op == "call" and "t:" in str(recv.args[0]):
                    return None
                self.assign_path(base, self.opaque("sorted", [recv], dict(kw)), mutate=True, old=recv)
                return NONE
        if name == "update" and len(args) <= 1 and None not in kwargs and isname and all(x.op == "dict" for x in _leaves(recv)):
            d = recv
            if args:
                d = lift(self.dict_update, d, args[0])
            for k, v in kwargs.items():
                d = lift(lambda x: self.store(x, const(k), v), d)
            self.assign_path(base, d, mutate=True, old=recv)
            return NONE
        if recv.op == "dict" and not any(k.op == "star" for k, _ in recv.args[0]):
            ents = recv.args[0]
            if name == "items" and not args:
                return mk("list", tuple(mk("tuple", (k, v)) for k, v in ents))
            if name == "keys" and not args:
                return mk("list", tuple(k for k, v in ents))
            if name == "values" and not args:
                return mk("list", tuple(v for k, v in ents))
            if name == "get" and args:
                dflt = args[1] if len(args) > 1 else NONE
                r = dflt
                for k, v in ents:
                    r = ite(T.eq(args[0], k), v, r)
                return r
            if name == "pop" and args and is_const(args[0]):
                for k, v in ents:
                    if k is args[0]:
                        self.assign_path(base, mk("dict", tuple(x for x in ents if x[0] is not k)), mutate=True, old=recv)
                        return v
        if name in ("items", "keys", "values") and not args and recv.op not in ("class",):
            r = dict_part(recv, name)
            return r if r is not None else mk(name, recv)
        if recv.op == "set" or recv.op == "setof":
            if name in SET_OPS or name in SET_TESTS:
                r = set_op(name, recv, args[0].args[0] if args[0].op == "keys" else args[0]) if len(args) == 1 and not kwargs else None
                return r if r is not None else self.opaque("setop:" + name, [recv] + list(args), kwargs)
            if name == "add" and len(args) == 1 and recv.op == "set":
                self.assign_path(base, mk("set", tuple(sorted(set(recv.args[0]) | {args[0]}, key=lambda n: n.key))), mutate=True, old=recv)
                return NONE
        if recv.op == "const" and isinstance(cval(recv), str):
            if name == "format":
                txt = cval(recv)
                import re
                if not kwargs and all(is_const(x) and isinstance(cval(x), (int, str)) for x in args):
                    try:
                        return const(txt.format(*[cval(x) for x in args]))
                    except (ValueError, IndexError, KeyError, AttributeError):
                        pass
                if re.fullmatch(r"(?:[^{}]|\{\}|\{[A-Za-z_]\w*\}|\{\d\})*", txt):
                    parts, i = [], 0
                    ok = True
                    for piece in re.split(r"(\{\w*\})", txt):
                        if piece.startswith("{"):
                            key = piece[1:-1]
                            if key == "":
                                if i < len(args):
                                    parts.append(args[i])
                                    i += 1
                                else:
                                    ok = False
                            elif key.isdigit():
                                parts.append(args[int(key)]) if int(key) < len(args) else None
                            elif key in kwargs:
                                parts.append(kwargs[key])
                            else:
                                ok = False
                        else:
                            parts.append(const(piece))
                    if ok:
                        return T.fstr(parts)
            if all(is_const(a) for a in args) and not kwargs and name in (
                    "lower", "upper", "strip", "startswith", "endswith", "replace", "split", "join", "zfill", "rstrip", "lstrip"):
                try:
                    r = getattr(cval(recv), name)(*[cval(a) for a in args])
                    if isinstance(r, list):
                        return mk("list", tuple(const(x) for x in r))
                    return const(r)
                except Exception:
                    pass
            if name == "join" and len(args) == 1 and args[0].op in ("list", "tuple") and not any(x.op == "star" for x in args[0].args[0]):
                parts = []
                for i, a in enumerate(args[0].args[0]):
                    if i:
                        parts.append(recv)
                    parts.append(a)
                return T.fstr(parts) if parts else const("")
        if name == "joinpath":
            r = recv
            for a in args:
                r = lift(T.path_join, r, a)
            return r
        return None

    def dict_update(self, d, a):
        """{**d, **a}"""
        if a.op == "copy":
            a = a.args[0]
        if a.op == "dict":
            for k, v in a.args[0]:
                d = mk("dict", d.args[0] + ((k, v),)) if k.op == "star" else self.store(d, k, v)
            return d
        return mk("dict", d.args[0] + ((mk("star", a), a),))

    def rebindable(self, base):
        if isinstance(base, ast.Name):
            return True
        if isinstance(base, ast.Attribute):
            o = self.eval(base.value)
            return self.is_obj(o)
        return False

    def reversed_list(self, v):
        sp = self.iteration(mk("reversed", v))
        if sp[0] == "concrete":
            return mk("list", tuple(sp[1]))
        if self.mode == "unroll":
            acc = mk("list", ())
            done = TRUE
            for i in range(UNROLL):
                done = b_and(done, T.lt(const(i), sp[1]))
                acc = ite(done, T.add(acc, mk("list", (sp[2](const(i)),))), acc)
            return acc
        k = fresh("k")
        return cmap(sp[1], k, TRUE, (sp[2](k),))

    def opaque_method(self, recv, name, args, kwargs, e, discarded):
        """method of an object outside the repository (tensor, torch module, ...)"""
        recv0 = recv
        inplace = name.endswith("_") and not name.endswith("__") and not name.startswith("_")
        nm = name[:-1] if inplace and name not in ("requires_grad_", "apply_") else name
        fname = kb.ALIASES.get(nm, nm)
        tensorish = fname in kb.TENSOR_SIGS or fname in kb.UNARY or fname in kb.OPAQUE_METHODS or fname in kb.SHAPE_METHODS or \
            fname in ("abs", "neg", "pow", "square", "add", "sub", "mul", "div", "clamp_min", "clamp_max", "maximum", "minimum", "max", "min",
                      "size", "dim", "where", "lt", "gt", "le", "ge", "eq", "ne", "logical_and", "logical_or", "logical_not", "floor_divide",
                      "to", "type", "count_nonzero", "add_", "relu", "unfold", "copy", "fill", "zero", "uniform", "normal", "tanh", "requires_grad", "masked_fill")
        if fname in ("copy", "type", "where", "requires_grad") and not inplace:
            tensorish = fname in ("where", "type")
        if recv.op in ("fstr", "path") or (recv.op == "const" and isinstance(cval(recv), str)):
            tensorish = False
        if fname in ("log", "sum", "max", "min", "test", "split", "sort", "add", "size", "all", "any", "norm", "dropout", "unfold", "fold") and recv.op == "attr" and recv.args[1] in ("trainer",):
            tensorish = False
        if self.is_obj(recv) or recv.op == "superof":
            tensorish = False
        if tensorish and inplace:
            r = self.tcall(fname, [recv] + list(args), dict(kwargs)) if fname not in ("uniform", "normal", "fill", "zero", "copy") else \
                self.opaque("t:" + fname, [recv] + list(args), kwargs)
            base = e.func.value
            if recv.op == "attr" and recv.args[1] == "data" and recv.args[0].op == "attr" and self.is_obj(recv.args[0].args[0]):
                self.setattr(recv.args[0], "data", r)
                if isinstance(base, ast.Name):
                    self.frame.env[base.id] = r
            elif isinstance(base, (ast.Name,)):
                self.assign_path(base, r, mutate=True, old=recv)
            else:
                ro = self.alias_root(recv)
                if ro is not None:
                    self.effect(ro, _mutate(recv, r))
                    if isinstance(base, ast.Attribute):
                        o = self.eval(base.value)
                        if self.is_obj(o):
                            self.heap[("attr", o.id, base.attr)] = r
            return r
        if tensorish:
            if fname == "to" and recv.op in ("attr", "sym") and (discarded or self.is_module(recv)):
                discarded = True
            else:
                return self.tcall(fname, [recv] + list(args), dict(kwargs))
        if name == "update" and len(args) == 1 and not kwargs and args[0].op in ("list", "tuple", "set") and args[0].args[0] and \
                all(is_const(x) and isinstance(cval(x), str) and len(cval(x)) != 2 for x in args[0].args[0]):
            # only a set takes a list of strings
            for x in args[0].args[0]:
                self.opaque_method(recv, "add", [x], {}, e, True)
            return NONE
        # generic method
        args = [self.arg(a) for a in args]
        kwargs = {k: self.arg(v) for k, v in kwargs.items()}
        args, kwargs = self.by_sig(attr_(recv, name), "", args, kwargs) if self.is_obj(recv) else self.by_sig(recv, name, args, kwargs)
        ver = self.version_of(recv) if name not in STRUCTURAL else ()
        fnode = attr_(recv, name)
        if recv.op == "ite":
            fnode = mk("attr", T.box(recv), name)
        node = self.opaque_node(fnode, args, kwargs, ver)
        if name == "__init__" and recv.op == "superof":
            if args or kwargs:
                bases = self.objclass[recv.args[0].id].ext_bases() if self.is_obj(recv.args[0]) else []
                for b in bases:
                    sig = kb.CTOR_SIGS.get(b)
                    bd = self.sig_bind(sig, args, kwargs) if sig is not None else None
                    if bd is not None:
                        node = self.opaque_node(fnode, [], bd)
                        break
                self.effect(fnode, node)
            return node
        if name == "register_buffer" and self.is_obj(recv) and args and is_const(args[0]):
            v = kwargs.get("tensor", args[1] if len(args) > 1 else NONE)
            pers = kwargs.get("persistent", args[2] if len(args) > 2 else TRUE)
            self.heap[("attr", recv.id, cval(args[0]))] = lift(lambda w: mk("buffer", w, pers), v)
            return NONE
        if name == "register_parameter" and self.is_obj(recv) and args and is_const(args[0]):
            self.heap[("attr", recv.id, cval(args[0]))] = args[1] if len(args) > 1 else NONE
            return NONE
        if name == "add_module" and self.is_obj(recv) and len(args) == 2 and is_const(args[0]):
            self.heap[("attr", recv.id, cval(args[0]))] = args[1]
            return NONE
        if name in kb.IMPURE or discarded or (inplace and name != "__") or (name in ("to", "cpu", "cuda") and self.is_module(recv)):
            if not self.ignored(fnode, name):
                self.effect(self.effect_root(recv), node)
                if name in ("train", "eval", "requires_grad_") or (name == "to" and self.is_module(recv)):
                    return recv.args[0] if recv.op == "superof" else recv
        return node

    def ignored(self, fnode, name):
        txt = T.show(fnode, 4)
        if "logger" in txt or name in ("info", "warning", "warn", "debug", "set_description"):
            return True
        return False

    def arg(self, v):
        """value passed to an uninterpreted function"""
        if v.op == "closure":
            return self.lamify(v)
        if is_boolean(v) and not is_boolconst(v):
            return mk("bool", v)
        if v.op in ("bound", "func"):
            f = self.funcs[v.args[1] if v.op == "bound" else v.args[0]]
            if isinstance(f, FuncDef) and self.should_inline(f) and not (f.node.args.vararg or f.node.args.kwarg):
                r = self.lamify(v, f, v.args[0] if v.op == "bound" else None)
                if r.op != "lamrec":
                    return r
        if v.op == "partial" and v.args[0].op in ("closure", "bound", "func"):
            w = v.args[0]
            f = self.closures[w.args[0]] if w.op == "closure" else self.funcs[w.args[1] if w.op == "bound" else w.args[0]]
            if isinstance(f, FuncDef) and (w.op == "closure" or self.should_inline(f)) and not (f.node.args.vararg or f.node.args.kwarg):
                r = self.lamify(w, f, w.args[0] if w.op == "bound" else None, v.args[1], dict(v.args[2]))
                if r is not None and r.op != "lamrec":
                    return r
        if v.op == "bound":
            return mk("attr", v.args[0], self.funcs[v.args[1]].name)
        return v

    def lamify(self, v, f=None, so=None, pargs=(), pkw=None):
        """a function value as a lambda term (bound receiver and partial arguments filled in)"""
        if f is None:
            f = self.closures[v.args[0]]
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        given = {}
        if so is not None and ps:
            given[ps.pop(0)] = so
        for x in pargs:
            if not ps:
                return None
            given[ps.pop(0)] = x
        for k, x in (pkw or {}).items():
            if k not in ps:
                return None
            ps.remove(k)
            given[k] = x
        syms = [fresh("l") for _ in ps]
        bound = dict(given, **dict(zip(ps, syms)))
        nd = len(a.defaults)
        if a.vararg:
            bound[a.vararg.arg] = fresh("lv")
            syms.append(bound[a.vararg.arg])
        if a.kwarg:
            bound[a.kwarg.arg] = fresh("lk")
            syms.append(bound[a.kwarg.arg])
        self.lam_params.update(x.id for x in syms)
        ne, nr = len(self.effects), len(self.raises)
        pc, base, heap, ver = self.pc, self.base, dict(self.heap), dict(self.ver)
        self.pc = self.base = TRUE
        r = self.run_function(f, bound, selfobj=so)
        live = self.pc
        self.pc, self.base, self.heap, self.ver = pc, base, heap, ver
        eff = [e for e in self.effects[ne:] if e[0] is not FALSE]
        del self.effects[ne:]
        rai = self.raises[nr:]
        del self.raises[nr:]
        if r is None:
            return mk("lamrec", f.name)
        r = r if live is not FALSE else mk("noreturn")
        for g, n, _ in reversed(rai):
            r = ite(g, mk("raise", n), r)
        seqs = {}
        for g, root, n, _ in eff:
            cur = seqs.get(root.key, mk("nil"))
            seqs[root.key] = ite(g, T.map_leaves(lambda q, n=n: mk("then", q, mk("eff", n)), cur), cur)
        extra = tuple(x for x in seqs.values() if x.op != "nil")
        h = max([r.h] + [x.h for x in extra]) + 1
        m = {s: sym("$p%d_%d" % (h, i)) for i, s in enumerate(syms)}
        return mk("lam", len(ps), T.subst(r, m), tuple(sorted((T.subst(x, m) for x in extra), key=lambda x: x.key)))

    def opaque_node(self, fnode, args, kwargs, ver=()):
        """lifted uninterpreted application"""
        ks = sorted((k if k is not None else "**") for k in kwargs)
        vals = [kwargs[k if k != "**" else None] for k in ks]
        if ver:
            ks = ks + ["@v%d" % i for i in range(len(ver))]
            vals = vals + [T.box(v) for v in ver]
        n = len(args)

        def f(*xs):
            fn = xs[0]
            return mkcall(fn, tuple(xs[1:1 + n]), tuple(zip(ks, xs[1 + n:])))
        if isinstance(fnode, str):
            return lift(lambda *xs: mkcall(fnode, tuple(xs[:n]), tuple(zip(ks, xs[n:]))), *(list(args) + vals))
        return lift(f, fnode, *(list(args) + vals))

    def opaque(self, fname, args, kwargs):
        return self.opaque_node(fname, [self.arg(a) for a in args], {k: self.arg(v) for k, v in kwargs.items()})

    # -- tensor functions
    def sig_bind(self, sig, args, kwargs):
        """-> dict of non-default args by name, or None"""
        if any(a.op == "star" for a in args) or None in kwargs:
            return None
        out = {}
        if sig.vararg:
            i = len(sig.params)
            for p, a in zip(sig.params, args):
                out[p] = a
            rest = args[i:]
            if len(rest) == 1 and rest[0].op in ("tuple", "list"):
                rest = list(rest[0].args[0])
            out[sig.vararg] = mk("tuple", tuple(rest))
        else:
            if len(args) > len(sig.params):
                return None
            for p, a in zip(sig.params, args):
                out[p] = a
        for k, v in kwargs.items():
            if k == "input" and "x" in sig.params and "x" not in out:
                k = "x"
            elif k == "axis" and "dim" in sig.params:
                k = "dim"
            elif k == "size" and sig.vararg == "size" and v.op in ("tuple", "list"):
                v = mk("tuple", v.args[0])
            if k in out and not (sig.vararg == k and not out[k].args[0]):
                return None
            out[k] = v
        for p, d in sig.defaults.items():
            if p in out:
                dv = self.const_default(d)
                if dv is out[p]:
                    del out[p]
        return out

    def const_default(self, d):
        try:
            return self.eval(d)
        except Exception:
            return None

    def tcall(self, name, args, kwargs):
        """torch function / tensor method in canonical form"""
        name = kb.ALIASES.get(name, name)
        kwargs = {("x" if k in ("input", "self") else k): v for k, v in kwargs.items()}
        if "x" in kwargs and name not in ("einsum",):
            args = [kwargs.pop("x")] + list(args)
        n = len(args)
        A = [unbool(a) for a in args] if name not in ("any", "all", "where", "logical_and", "logical_or", "logical_not") else list(args)
        if name in ("abs",) and n == 1:
            return T.call1("abs", A[0])
        if name == "neg" and n == 1:
            return T.neg(A[0])
        if name in ("add", "sub", "mul", "div", "floor_divide", "remainder", "pow") and n == 2:
            if not kwargs:
                return {"add": T.add, "sub": T.sub_, "mul": T.mul, "div": T.div, "floor_divide": T.floordiv, "remainder": T.mod, "pow": T.pow_}[name](A[0], A[1])
            if name in ("add", "sub") and set(kwargs) == {"alpha"}:
                t = T.mul(kwargs["alpha"], A[1])
                return T.add(A[0], t) if name == "add" else T.sub_(A[0], t)
            if name == "div" and set(kwargs) == {"rounding_mode"} and kwargs["rounding_mode"] is const("floor"):
                return T.floordiv(A[0], A[1])
        if name == "square" and n == 1:
            return T.pow_(A[0], const(2))
        if name == "sqrt" and n == 1:
            return T.pow_(A[0], const(0.5))
        if name == "rsqrt" and n == 1:
            return T.pow_(A[0], const(-0.5))
        if name == "reciprocal" and n == 1:
            return T.pow_(A[0], const(-1))
        if name == "relu" and n == 1:
            return T.minmax("max", [A[0], const(0)])
        if name == "clamp":
            b = self.sig_bind(kb.TENSOR_SIGS["clamp"], A, kwargs)
            if b is not None:
                r = b["x"]
                if "min" in b:
                    r = T.minmax("max", [r, b["min"]])
                if "max" in b:
                    r = T.minmax("min", [r, b["max"]])
                return r
        if name in ("clamp_min", "clamp_max") and n + len(kwargs) == 2:
            o = A[1] if n == 2 else list(kwargs.values())[0]
            return T.minmax("max" if name == "clamp_min" else "min", [A[0], o])
        if name in ("maximum", "minimum") and n == 2 and not kwargs:
            return T.minmax(name[:3], A)
        if name in ("max", "min") and n == 2 and not kwargs and not (is_num(A[1])):
            return T.minmax(name, A)
        if name == "count_nonzero" and n == 1 and not kwargs:
            return self.tcall("sum", [self.compare(ast.NotEq(), A[0], const(0))], {})
        if name in ("lt", "gt", "le", "ge", "eq", "ne") and n == 2 and not kwargs:
            op = {"lt": ast.Lt, "gt": ast.Gt, "le": ast.LtE, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq}[name]()
            return self.compare(op, A[0], A[1])
        if name in ("logical_and", "logical_or") and n == 2:
            return (b_and if name == "logical_and" else b_or)(truth(A[0]), truth(A[1]))
        if name == "logical_not" and n == 1:
            return b_not(truth(A[0]))
        if name == "where" and n + len(kwargs) == 3:
            b = {}
            for p, a in zip(("condition", "x", "other"), args):
                b[p] = a
            b.update(kwargs)
            try:
                c, x, y = truth(b["condition"]), unbool(b["x"]), unbool(b["other"])
            except KeyError:
                c = None
            if c is not None:
                if c is TRUE:
                    return x
                if c is FALSE:
                    return y
                if x is y:
                    return x
                if c.op == "ite" and c.args[1] is FALSE:       # canonical polarity
                    c, x, y = b_not(c), y, x
                return lift(lambda p, q: mk("where", mk("bool", c), p, q), x, y)
        if name == "where" and n == 2 and "x" in kwargs:
            pass
        if name in ("contiguous", "clone") and n == 1:
            return A[0]
        if name == "detach" and n == 1:
            return ng(A[0])
        if name == "size":
            sh = attr_(A[0], "shape")
            if n == 2:
                return sub(sh, A[1])
            if "dim" in kwargs:
                return sub(sh, kwargs["dim"])
            return sh
        if name == "dim" and n == 1 and not kwargs:
            return lift(lambda x: mk("ndim", x), A[0])
        if name in ("tanh", "sigmoid", "exp", "log", "log1p", "expm1", "round", "floor", "ceil", "sin", "cos", "tan", "erf", "erfc", "atanh",
                    "trunc", "sign", "isnan", "isinf", "log2", "log10") and n == 1 and not kwargs:
            return T.call1(name, A[0])
        if name in kb.SHAPE_METHODS and n >= 1:
            if n == 2 and A[1].op in ("tuple", "list"):
                rest = A[1].args[0]
            elif n == 1 and kwargs and len(kwargs) == 1:
                v = list(kwargs.values())[0]
                kwargs = {}
                rest = v.args[0] if v.op in ("tuple", "list") else (v,)
            else:
                rest = tuple(A[1:])
                fl = []
                for a in rest:
                    if a.op == "star" and a.args[0].op in ("tuple", "list"):
                        fl.extend(a.args[0].args[0])
                    else:
                        fl.append(a)
                rest = tuple(fl)
            if len(rest) == 1 and rest[0].op == "star" and not kwargs:
                rest = (rest[0].args[0],)
            if name == "reshape" and len(rest) == 1 and _int(rest[0]) and cval(rest[0]) == -1:
                return self.opaque_node("t:flatten", [], {"x": A[0]})
            if name == "reshape" and len(rest) == 2 and _int(rest[1]) and cval(rest[1]) == -1 and rest[0] is sub(attr_(A[0], "shape"), const(0)):
                return self.opaque_node("t:flatten", [], {"x": A[0], "start_dim": const(1)})
            return self.opaque_node("t:" + name, [], dict({"x": A[0], "shape": T.seq("tuple", rest)}, **{k: self.arg(v) for k, v in kwargs.items()}))
        if name == "to":
            # x.to(dtype/device): argument order-insensitive
            b = {"x": A[0]}
            for i, a in enumerate(A[1:]):
                b["arg%d" % i] = self.arg(a)
            for k, v in kwargs.items():
                b["arg%d" % (len(b) - 1)] = self.arg(v)
            return self.opaque_node("t:to", [], b)
        if name in ("matmul", "mm", "bmm") and n == 2:
            return self.opaque_node("t:matmul", [], {"x": self.arg(A[0]), "other": self.arg(A[1])})
        if name in ("amax", "amin") and n <= 3:
            b = self.sig_bind(kb.TENSOR_SIGS["max"], A, kwargs)
            if b is not None and ("dim" not in b or _int(b["dim"])):
                r = self.opaque_node("t:" + name[1:], [], {k: self.arg(v) for k, v in b.items()})
                return sub(r, const(0)) if "dim" in b else r
        sig = kb.TENSOR_SIGS.get(name)
        if sig is not None:
            b = self.sig_bind(sig, A, kwargs)
            if b is not None and name == "mse_loss" and set(b) == {"x", "target"}:
                return self.tcall("mean", [T.pow_(T.sub_(b["x"], b["target"]), const(2))], {})
            if b is not None:
                return self.opaque_node("t:" + name, [], {k: self.arg(v) for k, v in b.items()})
        if n >= 1:
            d = {"x": self.arg(A[0])}
            d.update({k: self.arg(v) for k, v in kwargs.items()})
            return self.opaque_node("t:" + name, [self.arg(a) for a in A[1:]], d)
        return self.opaque("t:" + name, A, kwargs)

    # -- general calls
    def inline(self, f, args, kwargs, selfobj):
        b = self.bind(f, args, kwargs, selfobj)
        if b is None:
            return None
        return self.run_function(f, b, selfobj=selfobj)

    def writeback(self, e, f, bound, selfobj):
        """propagate in-place mutation of arguments back to the caller's names"""
        env, mutated = self.last_env, self.last_mutated
        if not mutated or e is None or not isinstance(e, ast.Call):
            return
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        if selfobj is not None and pos:
            pos = pos[1:]
        pairs = list(zip(pos, e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]
        for p, ex in pairs:
            if p in mutated and isinstance(ex, ast.Name) and p in env and env[p] is not bound.get(p):
                if ex.id in self.frame.env:
                    self.frame.env[ex.id] = env[p]
                    self.frame.mutated.add(ex.id)

    def call(self, fn, args, kwargs, e=None, discarded=False):
        if fn.op == "ite":
            def rec(n):
                if n.op == "ite":
                    return self.branch(atom(n.args[0]), lambda: rec(n.args[1]), lambda: rec(n.args[2]))
                return self.call(n, args, kwargs, e, discarded)
            return rec(fn)
        if fn.op == "closure":
            f = self.closures[fn.args[0]]
            b = self.bind(f, args, kwargs)
            if b is not None:
                r = self.run_function(f, b)
                if r is not None:
                    self.writeback(e, f, b, None)
                    return r
            return self.opaque(mk("func", f.qual), args, kwargs)
        if fn.op in ("func", "bound"):
            if fn.op == "func":
                f, so = self.funcs[fn.args[0]], None
            else:
                f, so = self.funcs[fn.args[1]], fn.args[0]
            if self.should_inline(f):
                b = self.bind(f, args, kwargs, so)
                if b is not None:
                    r = self.run_function(f, b, selfobj=so)
                    if r is not None:
                        self.writeback(e, f, b, so)
                        return r
            b = self.bind(f, args, kwargs, so)
            if b is not None:
                node = self.opaque_node(mk("func", f.qual), [], {k: self.arg(v) for k, v in b.items()})
            else:
                node = self.opaque(mk("func", f.qual), ([so] if so is not None else []) + list(args), kwargs)
            if discarded or not any(isinstance(x, ast.Return) and x.value is not None for x in walk_own(f.node)):
                self.effect(so if so is not None else mk("func", f.qual), node)
            self.changed_args(e, f, so, node)
            return self.allocated(node)
        if fn.op == "class":
            return self.allocated(self.instantiate(self.funcs[fn.args[0]], args, kwargs, e))
        if fn.op == "ext":
            return self.allocated(self.ext_call(fn.args[0], args, kwargs, e, discarded))
        if fn.op == "lam":
            n, body, extra = fn.args
            if len(args) == n and not kwargs and not extra:
                return T.subst(body, {sym("$p%d_%d" % (T.level_of("lam", fn.args), i)): a for i, a in enumerate(args)})
        if fn.op == "partial":
            f0, a0, k0 = fn.args
            kw = dict(k0)
            kw.update(kwargs)
            return self.call(f0, list(a0) + list(args), kw, e, discarded)
        if self.is_obj(fn):
            c = self.objclass[fn.id]
            f = c.find("__call__") or c.find("forward")
            if f is not None:
                r = self.inline(f, args, kwargs, fn)
                if r is not None:
                    return r
        if fn.op == "attr" and e is not None and not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute)) and (fn.args[1] not in MUTATORS or self.is_obj(fn.args[0])):
            return self.method_call(fn.args[0], fn.args[1], args, kwargs, e, discarded)
        # uninterpreted callable (sub-module, parameter, ...)
        ver = self.version_of(fn)
        args, kwargs = self.by_sig(fn, "", args, kwargs)
        node = self.opaque_node(fn, [self.arg(a) for a in args], {k: self.arg(v) for k, v in kwargs.items()}, ver)
        if discarded:
            self.effect(self.effect_root(fn), node)
        return self.allocated(node)

    def changed_args(self, e, f, so, node):
        """arguments an uninterpreted repository function changes in place have another value afterwards"""
        if not isinstance(e, ast.Call):
            return
        ch = aliases.summary(self.repo, f)[0]
        if not ch:
            return
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args][1 if so is not None else 0:]
        for p, ex in list(zip(pos, e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]:
            if p in ch and isinstance(ex, ast.Name):
                self.assign_path(ex, mk("changed", node, p), mutate=True)

    def should_inline(self, f):
        if f.qual in self.no_inline:
            return False
        return True

    no_inline = frozenset()

    def thin_subclass(self, c):
        """class adding nothing to an external class but constructor arguments -> its __init__, or None"""
        f = c.methods.get("__init__")
        if f is None or len(c.methods) != 1 or c.assigns or len(c.bases()) != 1 or not isinstance(c.bases()[0], str):
            return None
        body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Call) and ast.unparse(body[0].value.func) == "super().__init__":
            return f, body[0].value
        return None

    def allocated(self, n):
        """in allocation mode, tag objects that hold parameters with the evaluation that made them"""
        if ALLOC[0] is None or not isinstance(n, Node):
            return n
        ALLOC[0] += 1
        tag = ("%id", mk("alloc", ALLOC[0], *ALLOC_K))

        def f(x):
            if x.op == "newobj" and "%id" not in dict(x.args[1]):
                y = mk("newobj", x.args[0], (tag,) + x.args[1])
                if x.id in self.objclass:
                    self.objclass[y.id] = self.objclass[x.id]
                return y
            if x.op == "call" and isinstance(x.args[0], Node) and x.args[0].op == "ext" and len(x.args) == 3 and "%id" not in dict(x.args[2]):
                q = x.args[0].args[0].split(".")
                if q[0] in ("torch", "compressai") and q[-1][:1].isupper() and q[-1] not in kb.STATELESS:
                    return mk("call", x.args[0], x.args[1], (tag,) + x.args[2])
            if x.op == "call" and isinstance(x.args[0], Node) and x.args[0].op == "func" and x.args[0].args[0].split(".")[-1].lstrip("_").startswith(("make_", "build_", "create_")) and \
                    len(x.args) == 3 and "%id" not in dict(x.args[2]):
                return mk("call", x.args[0], x.args[1], (tag,) + x.args[2])
            if x.op == "call" and isinstance(x.args[0], Node) and x.args[0].op == "sym" and x.args[0].args[0].startswith("ctor.") and len(x.args) == 3 and "%id" not in dict(x.args[2]) and \
                    any(w in x.args[0].args[0] for w in ("norm", "layer", "block", "conv", "module")):
                return mk("call", x.args[0], x.args[1], (tag,) + x.args[2])
            return x
        return T.map_leaves(f, n)

    def instantiate(self, c, args, kwargs, e):
        th = self.thin_subclass(c)
        if th is not None and c.qual not in self.no_inline and c.bases()[0].split(".")[-1] not in ("object", "Module", "Function", "Exception", "ABC"):
            f, call = th
            b = self.bind(f, args, kwargs, sym("$thin"))
            if b is not None:
                fr = Frame(f, f.module, c)
                fr.env = dict(b)
                saved, self.frame = self.frame, fr
                try:
                    a2, k2 = self.eval_args(call)
                finally:
                    self.frame = saved
                return self.ext_call(kb.EXT_ALIASES.get(c.bases()[0], c.bases()[0]), a2, k2, e, False)
        fields = c.record_fields()
        if fields is not None:
            if any(a.op == "star" for a in args) or None in kwargs or len(args) > len(fields):
                return self.opaque(mk("class", c.qual), args, kwargs)
            vals = {}
            for (n, _, _), v in zip(fields, args):
                vals[n] = v
            vals.update(kwargs)
            out = []
            for n, d, dc in fields:
                if n in vals:
                    out.append((n, vals[n]))
                elif d is not None:
                    out.append((n, self.eval_in(dc.module, d)))
                else:
                    return self.opaque(mk("class", c.qual), args, kwargs)
            rec = self.mk_record(c, out)
            pi = c.find("__post_init__")
            if pi is not None:
                o = mk("newobj", c.qual, tuple(out))
                self.objclass[o.id] = c
                for n, v in out:
                    self.heap[("attr", o.id, n)] = v
                self.inline(pi, [], {}, o)
                rec = self.mk_record(c, [(n, self.heap[("attr", o.id, n)]) for n, _ in out])
            return rec
        f = c.find("__init__")
        if f is not None:
            b = self.bind(f, args, kwargs, mk("selfarg"))
            if b is not None:
                b.pop(next(iter(b)), None) if next(iter(b), None) == (f.node.args.posonlyargs + f.node.args.args)[0].arg else None
                ks = sorted(b)

                def build(*xs):
                    n = mk("newobj", c.qual, tuple(zip(ks, xs)))
                    self.objclass[n.id] = c
                    return n
                self.funcs[c.qual] = c
                return lift(build, *[self.arg(b[k]) for k in ks])
        return self.opaque(mk("class", c.qual), args, kwargs)

    def mk_record(self, c, out):
        self.funcs[c.qual] = c
        return mk("record", c.qual, tuple(out))

    TORCHNS = ("torch.", "torch.nn.functional.", "torch.Tensor.", "torch.special.")

    def ext_call(self, name, args, kwargs, e, discarded):
        name = kb.EXT_ALIASES.get(name, name)
        if any(name == p or (p.endswith(".") and name.startswith(p)) for p in kb.IGNORED_CALLS):
            return NONE
        b = self.builtin(name, args, kwargs, e)
        if b is not None:
            return b
        short = name.split(".")[-1]
        ns = name[: -len(short)]
        if ns in ("math.", "numpy."):
            if short in ("log", "exp", "cos", "sin", "tan", "ceil", "floor", "log2", "log10", "log1p", "tanh", "erf", "abs", "fabs", "round") and len(args) == 1 and not kwargs:
                return T.call1({"fabs": "abs"}.get(short, short), unbool(args[0]))
            if short == "log" and len(args) == 2:
                return T.div(T.call1("log", args[0]), T.call1("log", args[1]))
            if short == "sqrt":
                return T.pow_(args[0], const(0.5))
            if short == "pow" and len(args) == 2:
                return T.pow_(args[0], args[1])
        if ns == "operator." and len(args) == 2:
            ops = {"add": ast.Add(), "sub": ast.Sub(), "mul": ast.Mult(), "truediv": ast.Div(), "floordiv": ast.FloorDiv(), "mod": ast.Mod()}
            if short in ops:
                return self.binop(ops[short], *args)
        if name in ("torch.nn.Module", "types.SimpleNamespace") and not args:
            return mk("ns", tuple(sorted(kwargs.items())))
        if name in ("functools.partial", "partial") and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if name in ("copy.copy", "copy.deepcopy"):
            return mk("copy", args[0]) if args[0].op not in ("list", "dict", "tuple") else args[0]
        if name in ("pathlib.Path", "os.path.join", "pathlib.PurePath") and not kwargs:
            if len(args) == 1 and name != "os.path.join":
                return mk("path", (args[0],)) if args[0].op != "path" else args[0]
            if args and not any(a.op == "star" for a in args):
                r = args[0]
                for a in args[1:]:
                    r = lift(T.path_join, r, a)
                return r
        if name == "torch.Size" and len(args) == 1 and args[0].op in ("list", "tuple"):
            return mk("tuple", args[0].args[0])
        if name in ("collections.OrderedDict",) and len(args) == 1 and args[0].op in ("list", "tuple") and all(x.op == "tuple" for x in args[0].args[0]):
            return mk("dict", tuple((x.args[0][0], x.args[0][1]) for x in args[0].args[0]))
        if name in ("typing.cast",) and len(args) == 2:
            return args[1]
        if name == "pickle.dump" and len(args) == 2 and not kwargs and args[1].op == "call" and args[1].args[0] is mk("ext", "io.BytesIO") and not args[1].args[1]:
            k = ("attr", args[1].id, "$content")
            if k not in self.heap:
                self.heap[k] = mk("call", mk("ext", "pickle.dumps"), (args[0],), ())
                return NONE
        if ns in self.TORCHNS or (ns == "numpy." and short in ("clip", "mean", "sum", "prod", "stack", "where", "square", "maximum", "minimum", "max", "min", "abs")):
            known = short in kb.TENSOR_SIGS or short in kb.UNARY or short in kb.OPAQUE_METHODS or short in kb.SHAPE_METHODS or short in kb.ALIASES or \
                short in ("abs", "neg", "pow", "square", "add", "sub", "mul", "div", "clamp_min", "clamp_max", "maximum", "minimum", "max", "min",
                          "where", "lt", "gt", "le", "ge", "eq", "ne", "logical_and", "logical_or", "logical_not", "floor_divide", "any", "all", "count_nonzero")
            if known and name not in kb.CTOR_SIGS:
                return self.tcall(short, args, kwargs)
        if name == "torch.nn.init.constant_" or ns == "torch.nn.init.":
            if args:
                ro = self.alias_root(args[0])
                node = self.opaque(mk("ext", name), args, kwargs)
                self.effect(ro if ro is not None else args[0], node)
                return node
        sig = kb.CTOR_SIGS.get(name)
        if sig is not None:
            bd = self.sig_bind(sig, args, kwargs)
            if bd is not None and name in ("torch.zeros", "torch.ones", "torch.empty") and set(bd) == {"size", "dtype", "device"} and \
                    all(bd[k].op == "attr" and bd[k].args[1] == k for k in ("dtype", "device")) and bd["dtype"].args[0] is bd["device"].args[0]:
                return self.tcall("new_" + short, [bd["dtype"].args[0], bd["size"]], {})
            if bd is not None and "size" in bd and bd["size"].op == "list" and name.startswith("torch."):
                bd["size"] = mk("tuple", bd["size"].args[0])
            if bd is not None:
                node = self.opaque_node(mk("ext", name), [], {k: self.arg(v) for k, v in bd.items()})
                if discarded:
                    self.effect(mk("ext", name), node)
                return node
        if name == "torch.nn.ModuleList" and not kwargs and len(args) <= 1:
            return lift(lambda x: mk("mlist", x), self.to_list(args[0], "list") if args else mk("list", ()))
        if name in ("torch.nn.Sequential", "torch.nn.ModuleList") and not kwargs:
            args = [mk("list", tuple(args))] if name.endswith("Sequential") else args
            if name.endswith("Sequential"):
                lst = T.seq("list", list(args[0].args[0])) if not any(a.op == "star" for a in args[0].args[0]) else T.mkseq("list", args[0].args[0])
                return self.opaque_node(mk("ext", name), [lst], {})
        if name == "len":
            return T.length(args[0])
        node = self.opaque(mk("ext", name), args, kwargs)
        if (discarded and short not in kb.PURE_BUILTINS) or short in ("rmtree", "urlretrieve", "download_url", "makedirs", "download_and_extract_archive") or ns == "shutil." or (ns == "os." and short in ("rename", "replace", "remove", "unlink", "mkdir", "rmdir")):
            root = self.effect_root(args[0]) if args and args[0].op in ("attr", "sym", "sub") and ns not in ("os.", "shutil.") else mk("ext", name)
            self.effect(root, node)
        return node

    def builtin(self, name, args, kwargs, e):
        if "." in name:
            if name in ("builtins.len",):
                name = "len"
            elif name in ("tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.std.tqdm") and args:
                return args[0]
            elif name == "tqdm.trange":
                return self.builtin("range", args, {}, e)
            elif name == "itertools.chain" and not kwargs:
                return T.mkseq("list", tuple(self.mkstar(a) for a in args))
            elif name == "itertools.tee" and args:
                k = args[1] if len(args) > 1 else kwargs.get("n", const(2))
                return mk("tuple", (args[0],) * cval(k)) if _int(k) else None
            elif name == "itertools.chain.from_iterable" and len(args) == 1 and args[0].op in ("list", "tuple"):
                return T.mkseq("list", tuple(self.mkstar(a) for a in args[0].args[0]))
            else:
                return None
        n = len(args)
        if any(a.op == "star" for a in args) and name not in ("max", "min", "zip", "dict"):
            return None
        if name == "len" and n == 1:
            return T.length(args[0])
        if name == "range" and 1 <= n <= 3:
            a = const(0) if n == 1 else args[0]
            b = args[0] if n == 1 else args[1]
            s = args[2] if n == 3 else const(1)
            return lift(lambda x, y, z: mk("range", x, y, z), a, b, s)
        if name == "enumerate":
            st = args[1] if n > 1 else kwargs.get("start", const(0))
            if args[0].op == "ite" and not all(self._conc_iterable(x) for x in _leaves(args[0])):
                return mk("enumerate", args[0], st)
            return lift(lambda x: mk("enumerate", x, st), args[0])
        if name == "zip":
            if any(a.op == "star" for a in args):
                if n == 1 and args[0].args[0].op == "cmap":
                    m = args[0].args[0]
                    if m.args[1] is TRUE and len(m.args[2]) == 1 and m.args[2][0].op == "tuple":
                        w = len(m.args[2][0].args[0])
                        return mk("list", tuple(mk("cmap", m.args[0], TRUE, (m.args[2][0].args[0][i],)) for i in range(w)))
                return None
            return mk("zip", tuple(args))
        if name == "reversed" and n == 1:
            return lift(lambda x: mk("reversed", x), args[0])
        if name in ("list", "tuple", "iter") and n <= 1:
            if n == 0:
                return mk("list" if name == "list" else "tuple", ())
            return lift(lambda x: self.to_list(x, name), args[0])
        if name == "next" and n in (1, 2) and not kwargs and isinstance(e, ast.Call) and e.args and isinstance(e.args[0], (ast.Call, ast.GeneratorExp)):
            # the first element of an iterator nobody else holds
            x = args[0]
            if x.op in ("list", "tuple") and not any(i.op == "star" for i in x.args[0]):
                if x.args[0]:
                    return x.args[0][0]
                if n == 2:
                    return args[1]
            elif x.op == "cmap" and len(x.args[2]) == 1 and x.args[2][0].op != "star":
                b = T.bound_vars(x)[0][0]
                some = any_(x.args[0], b, x.args[1])
                i = const(0) if x.args[1] is TRUE else mk("first", x.args[0], x.args[1])
                v = T.subst(x.args[2][0], {b: i})
                if n == 2:
                    return ite(some, v, args[1])
                self.do_raise(b_not(some), "StopIteration")
                return v
            elif x.op in ("call", "sub", "attr") and n == 1:
                return sub(x, const(0))
        if name in ("set", "frozenset") and n <= 1:
            if n == 0:
                return mk("set", ())
            x = args[0]
            if x.op in ("list", "tuple", "set"):
                return mk("set", tuple(sorted(set(x.args[0]), key=lambda q: q.key)))
            return lift(lambda y: mk("setof", y.args[0] if y.op == "keys" else y), x)
        if name == "dict":
            if n == 0:
                if None in kwargs:
                    return None
                return mk("dict", tuple((const(k), v) for k, v in kwargs.items()))
            x = args[0]
            if x.op == "dict":
                ents = x
                for k, v in kwargs.items():
                    ents = self.store(ents, const(k), v)
                return ents
            if x.op in ("list", "tuple") and all(y.op == "tuple" and len(y.args[0]) == 2 for y in x.args[0]) and not kwargs:
                return mk("dict", tuple((y.args[0][0], y.args[0][1]) for y in x.args[0]))
            if x.op == "zip" and not kwargs:
                sp = self.iteration(x)
                if sp[0] == "concrete":
                    return mk("dict", tuple((y.args[0][0], y.args[0][1]) for y in sp[1]))
            if not kwargs and n == 1:
                if x.op == "cmap":
                    return mk("dictof", x)
                return lift(lambda y: mk("copy", y.args[0] if y.op == "items" else y) if y.op not in ("dict", "copy") else y, x)
            return None
        if name in ("max", "min"):
            if n >= 2 and not kwargs and not any(a.op == "star" for a in args):
                return T.minmax(name, [unbool(a) for a in args])
            if n == 1 and args[0].op in ("list", "tuple") and args[0].args[0] and not kwargs and not any(x.op == "star" for x in args[0].args[0]):
                return T.minmax(name, list(args[0].args[0]))
            return self.opaque("py:" + name, args, kwargs)
        if name == "abs" and n == 1:
            return T.call1("abs", unbool(args[0]))
        if name == "sum" and n >= 1:
            x = args[0]
            init = args[1] if n > 1 else kwargs.get("start", const(0))
            def total(x):
                if x.op in ("list", "tuple") and not any(y.op == "star" for y in x.args[0]):
                    r = init
                    for y in x.args[0]:
                        r = T.add(r, unbool(y))
                    return r
                return T.add(init, self.sum_of(self.to_list(x, "list")))
            return lift(total, x)
        if name in ("any", "all") and n == 1:
            x = args[0]

            def f(x):
                sp = None
                if x.op in ("list", "tuple", "cmap", "zip", "enumerate", "range"):
                    if x.op == "cmap":
                        c, cond, items = x.args
                        b = sym("$b%d" % T.level_of("cmap", x.args))
                        k = fresh("k")
                        t = FALSE
                        for it in items:
                            if it.op == "star":
                                inner = self.builtin(name, [it.args[0]], {}, e)
                                v = inner if name == "any" else b_not(inner)
                            else:
                                v = truth(it) if name == "any" else b_not(truth(it))
                            t = b_or(t, v)
                        t = T.subst(b_and(cond, t), {b: k})
                        r = any_(c, k, t)
                        return r if name == "any" else b_not(r)
                    if x.op in ("list", "tuple") and any(y.op == "star" for y in x.args[0]):
                        r = FALSE if name == "any" else TRUE
                        for y in x.args[0]:
                            t = self.builtin(name, [y.args[0]], {}, e) if y.op == "star" else truth(y)
                            r = b_or(r, t) if name == "any" else b_and(r, t)
                        return r
                    sp = self.iteration(x)
                    if sp[0] == "concrete":
                        r = FALSE if name == "any" else TRUE
                        for y in sp[1]:
                            r = b_or(r, truth(y)) if name == "any" else b_and(r, truth(y))
                        return r
                return truth(mk("call", "py:" + name, (x,), ()))
            if is_boolean(x) and not is_boolconst(x):
                return truth(mk("call", "py:" + name, (mk("bool", x),), ()))
            return lift(f, x)
        if name == "isinstance" and n == 2:
            def f(x, c):
                if c.op == "tuple":
                    r = FALSE
                    for y in c.args[0]:
                        r = b_or(r, f(x, y))
                    return r
                cn = c.args[0] if c.op in ("class", "ext") else None
                if is_const(x):
                    v = cval(x)
                    m = {"int": int, "float": float, "str": str, "bool": bool}
                    if v is None:
                        return FALSE
                    if cn in m:
                        from fractions import Fraction
                        if cn == "float":
                            return TRUE if isinstance(v, Fraction) else FALSE
                        return TRUE if isinstance(v, m[cn]) else FALSE
                if x.op == "record" and c.op == "class":
                    rc = self.funcs.get(x.args[0])
                    if rc is not None:
                        return TRUE if self.funcs[cn] in rc.mro() else FALSE
                if x.op == "call" and isinstance(x.args[0], Node) and x.args[0].op == "ext" and x.args[0].args[0].split(".")[-1][:1].isupper() and c.op == "ext" and \
                        (x.args[0] is c or cn == "torch.nn.Module" and x.args[0].args[0].startswith("torch.nn.") and not x.args[0].args[0].endswith("Parameter")):
                    return TRUE
                if x.op in ("list", "tuple", "dict") and cn in ("list", "tuple", "dict", "str", "int", "float"):
                    return TRUE if x.op == cn else FALSE
                return atom(mk("isinstance", x, c))
            return lift(f, args[0], args[1])
        if name == "issubclass":
            return None
        if name == "getattr" and n in (2, 3) and is_const(args[1]) and isinstance(cval(args[1]), str):
            if n == 3 and not self.is_obj(args[0]):
                c = self.sub_class(args[0])
                if c is not None and c.find(cval(args[1])) is not None:
                    r = _attr(args[0], cval(args[1]))
                    T.NOT_NONE.add(r.id)
                    return r
                return lift(lambda o: mk("getattr", o, cval(args[1]), args[2]), args[0])
            return self.getattr(args[0], cval(args[1]), e)
        if name == "setattr" and n == 3 and is_const(args[1]):
            self.setattr(args[0], cval(args[1]), args[2])
            return NONE
        if name == "hasattr" and n == 2:
            return lift(lambda o: atom(mk("hasattr", o, args[1])), args[0])
        if name == "bool" and n == 1:
            return truth(args[0])
        if name == "float" and n == 1:
            x = args[0]
            if x.op == "const" and isinstance(cval(x), str):
                try:
                    return const(float(cval(x)))
                except ValueError:
                    pass
            return unbool(x)
        if name == "int" and n == 1:
            x = unbool(args[0])
            return lift(self.to_int, x)
        if name == "str" and n == 1:
            return lift(lambda x: const(str(cval(x))) if is_const(x) and isinstance(cval(x), (str, int)) else mk("str", x), args[0])
        if name == "round" and n == 1:
            return T.call1("round", args[0])
        if name == "pow" and n == 2:
            return T.pow_(args[0], args[1])
        if name == "divmod" and n == 2:
            return mk("tuple", (T.floordiv(args[0], args[1]), T.mod(args[0], args[1])))
        if name == "map" and n >= 2:
            f = args[0]
            it = mk("zip", tuple(args[1:])) if n > 2 else args[1]
            sp = self.iteration(it)

            def one(x):
                xs = list(x.args[0]) if n > 2 else [x]
                return self.call(f, xs, {}, e)
            if sp[0] == "concrete":
                return mk("list", tuple(one(x) for x in sp[1]))
            if self.mode == "unroll":
                acc = mk("list", ())
                done = TRUE
                for i in range(UNROLL):
                    done = b_and(done, T.lt(const(i), sp[1]))
                    acc = ite(done, T.add(acc, mk("list", (one(sp[2](const(i))),))), acc)
                return acc
            k = fresh("k")
            return cmap(sp[1], k, TRUE, (one(sp[2](k)),))
        if name == "filter" and n == 2:
            sp = self.iteration(args[1])
            if sp[0] == "sym" and self.mode == "fold":
                k = fresh("k")
                x = sp[2](k)
                c = truth(x) if args[0] is NONE else truth(self.call(args[0], [x], {}, e))
                return cmap(sp[1], k, c, (x,))
            if sp[0] == "concrete":
                acc = mk("list", ())
                for x in sp[1]:
                    c = truth(x) if args[0] is NONE else truth(self.call(args[0], [x], {}, e))
                    acc = ite(c, T.add(acc, mk("list", (x,))), acc)
                return acc
        if name == "sorted" and args:
            x = args[0]
            while True:
                if x.op in ("list", "tuple") and len(x.args[0]) == 1 and x.args[0][0].op == "star":
                    x = x.args[0][0].args[0]
                elif x.op == "copy":
                    x = x.args[0]
                else:
                    break
            return self.opaque("sorted", [x] + list(args[1:]), kwargs)
        if name == "slice":
            xs = (list(args) + [NONE] * 3)[:3] if n > 1 else [NONE, args[0], NONE]
            return mk("slice", *xs)
        if name == "callable" and n == 1:
            return truth(mk("call", "callable", (args[0],), ()))
        if name in ("CTOR",):
            return self.ctor_sym(cval(args[0]))
        if name == "ASSUME" and n == 1:
            self.assumes.append(T.b_or(b_not(self.guard()), truth(args[0])))
            return NONE
        if name == "SELFATTR":
            c = self.objclass.get(self.self_sym.id)
            an = self.spec_attr(c, cval(args[0])) if c is not None else cval(args[0])
            n = mk("attr", self.self_sym, an)
            return atom(mk("truth", n)) if c is not None and self.bool_attr(c, an) else n
        return None

    def to_int(self, x):
        if is_num(x):
            return const(int(cval(x)))
        if x.op == "call" and (x.args[0] in ("t:tensor", "t:as_tensor") or str(x.args[0]) in ("torch.tensor", "torch.as_tensor") or
                               (hasattr(x.args[0], "op") and x.args[0].op == "ext" and x.args[0].args[0] in ("torch.tensor", "torch.as_tensor"))):
            v = dict(x.args[2]).get("data", dict(x.args[2]).get("x"))
            if v is not None and is_num(v):
                return const(int(cval(v)))
        if x.op in ("len", "ndim", "floordiv", "ceildiv", "mod") or (x.op == "fn" and x.args[0] in ("ceil", "floor", "round")) or _shapeish(x):
            return x
        return mk("fn", "int", x)

    def to_list(self, x, kind):
        if x.op in ("list", "tuple") and kind in ("list", "tuple"):
            return mk(kind, x.args[0])
        if x.op in ("range", "enumerate", "zip", "reversed", "items", "values", "keys", "dict", "record"):
            sp = self.iteration(x)
            if sp[0] == "concrete":
                return mk("tuple" if kind == "tuple" else "list", tuple(sp[1]))
            if self.mode != "unroll" and x.op in ("reversed", "zip", "enumerate"):
                k = fresh("k")
                return cmap(sp[1], k, TRUE, (sp[2](k),))
            return x
        return x


PARAM_ITERS = ("parameters", "named_parameters")


def params_requires_grad(node, k, count):
    """(module, flag) when node sets requires_grad on the k-th element of module.parameters()"""
    if node.op == "call" and isinstance(node.args[0], Node) and node.args[0].op == "attr" and node.args[0].args[1] == "requires_grad_":
        recv = node.args[0].args[0]
        v = node.args[1][0] if node.args[1] else dict(node.args[2]).get("requires_grad", TRUE)
    elif node.op == "setattr" and node.args[1] == "requires_grad":
        recv, v = node.args[0], node.args[2]
    else:
        return None
    if T.free_has(v, k):
        return None
    if recv.op == "sub" and recv.args[1] is const(1) and recv.args[0].op == "sub":
        recv = recv.args[0]
    if recv.op == "sub" and recv.args[1] is k and recv.args[0].op == "call" and T.length(recv.args[0]) is count:
        f = recv.args[0].args[0]
        if isinstance(f, Node) and f.op == "attr" and f.args[1] in PARAM_ITERS and not recv.args[0].args[1] and not recv.args[0].args[2]:
            return f.args[0], v
    return None


CHANNEL = {"requires_grad_": "requires_grad", "eval": "training", "train": "training"}
STRUCTURAL = {"requires_grad_", "eval", "train", "to", "parameters", "named_parameters", "modules", "named_modules", "children", "named_children", "buffers", "named_buffers"}


def unbool(v):
    """boolean diagram used as a number / operand"""
    if is_boolconst(v):
        return const(1 if v is TRUE else 0)
    if is_boolean(v):
        if all((a.op == "eq" and NONE in a.args) or a.op == "isinstance" for a in T.atoms_of(v)):
            return ite(v, const(1), const(0))
        return mk("bool", v)
    return v


T.REBUILD["bool"] = lambda n: unbool(truth(n))
T.REBUILD["where"] = lambda c, x, y: (x if c is TRUE else y if c is FALSE else lift(lambda p, q: mk("where", c, p, q), x, y))
T.REBUILD["any"] = lambda c, b: b if is_boolconst(b) and b is FALSE else mk("any", c, b)


def value_like(n, depth=0):
    """terms that may replace an attribute read (no constructed sub-modules or opaque calls)"""
    seen = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if len(seen) > 400:
            return False
        if x.op == "call" and hasattr(x.args[0], "op") and x.args[0].op == "ext" and x.args[0].args[0].startswith("torch.distributions."):
            todo.extend(T.children(x))
            continue
        if x.op in ("call", "newobj", "unknown", "buffer", "undef", "fold", "closure", "lam", "lamrec", "copy"):
            return False
        if x.op == "sym" and x.args[0].startswith("%"):
            return False
        todo.extend(T.children(x))
    return True


def _leaves(n):
    out = set()

    def rec(x):
        if x.op == "ite":
            rec(x.args[1])
            rec(x.args[2])
        else:
            out.add(x)
    rec(n)
    return out


def _leaf_conds(n, c=TRUE):
    if n.op == "ite":
        a = atom(n.args[0])
        yield from _leaf_conds(n.args[1], b_and(c, a))
        yield from _leaf_conds(n.args[2], b_and(c, b_not(a)))
    else:
        yield c, n


def walk_own(fn):
    """walk a function body without nested function bodies"""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        for ch in ast.iter_child_nodes(x):
            if not isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(ch)


def walk_loop(s):
    """nodes of a loop body that belong to this loop (break/continue of nested loops excluded, returns included)"""
    todo = [(x, False) for x in s.body]
    while todo:
        x, nested = todo.pop()
        if nested and isinstance(x, (ast.Break, ast.Continue)):
            continue
        yield x
        inner = nested or isinstance(x, (ast.For, ast.While))
        for ch in ast.iter_child_nodes(x):
            if not isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append((ch, inner))


def touches(s, bound):
    """may the loop body change an object the expression looks at"""
    roots = {x.id for x in ast.walk(bound) if isinstance(x, ast.Name) and x.id != "self"}
    attrs = {ast.unparse(x) for x in ast.walk(bound) if isinstance(x, ast.Attribute)}
    for b in s.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                y = x.func.value
                if ast.unparse(y) in attrs or isinstance(y, ast.Name) and y.id in roots:
                    return True
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                y = x if isinstance(x, ast.Attribute) else x.value
                if ast.unparse(y) in attrs or isinstance(y, ast.Name) and y.id in roots and isinstance(x.ctx, ast.Del):
                    return True
    return False


def assigned_names(s):
    out = []
    nodes = list(s.body) + ([s.target] if isinstance(s, ast.For) else [])
    todo = list(nodes)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out:
            out.append(x.id)
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            continue
        for ch in ast.iter_child_nodes(x):
            if not isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(ch)
    return out


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for x in ast.walk(t2):
        if hasattr(x, "lineno"):
            x.lineno = getattr(t, "lineno", 1)
    return t2
