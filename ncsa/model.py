"""Telling two formulas apart at a point.

Two normal forms built from interpreted operators (arithmetic, comparison, decision, tuples, counted
collections) over the same independent operands denote the same function only if they agree wherever the
operands are given values.  One point at which they part refutes equality for every reading of the source,
so it is evidence of different behaviour however differently the two are written.  Operators without a
meaning here (an attribute, a call of something outside) are read as free constructors when both sides use
them, and make the comparison give up when only one side does or when they are known to have several
spellings (layout, casts).  Only terms are evaluated: no code of the repository runs.
"""
import ast
import hashlib
import math
import os
import time
from fractions import Fraction
from . import terms as T
from .terms import Node


TYPES = {}          # annotations of constructor parameters


class Undefined(Exception):
    """no value at this point (division by zero, outside the domain, an excluded case)"""


class Opaque(Exception):
    """the term is outside the fragment read here"""


class G:
    """value of an operand or of a free constructor: known only to equal itself"""
    __slots__ = ("key", "m", "intlike", "real")

    def __init__(self, key, m, intlike=False, real=False):
        self.key, self.m, self.intlike, self.real = key, m, intlike, real and not intlike

    def __eq__(self, o):
        return isinstance(o, G) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "<%s>" % (self.key,)

    def num(self):
        h = self.m.h(self.key)
        if self.m.coarse:
            return 1 + h % 2 if self.m.seed % 4 == 2 else 1 + (h % 7 == 0)
        if self.real and not self.m.ints:
            q = (13, 97, 1300, 2, 2)[h // 97 % 5]
            return Fraction(1 + h % 97, q) if q > 2 else Fraction(1 + 2 * (h // 400 % 4), 2)
        return 1 + h % 11


NAMED = {"math.pi": math.pi, "math.e": math.e, "math.inf": math.inf, "numpy.pi": math.pi, "torch.pi": math.pi}

FN = {"cos": math.cos, "sin": math.sin, "exp": math.exp, "log": math.log, "log1p": math.log1p, "expm1": math.expm1, "sqrt": math.sqrt, "tanh": math.tanh,
      "log2": math.log2, "log10": math.log10, "abs": abs, "ceil": math.ceil, "floor": math.floor, "int": int, "round": round, "erf": math.erf, "erfc": math.erfc,
      "sigmoid": lambda v: 1 / (1 + math.exp(-v)), "square": lambda v: v * v, "ndtr": lambda v: math.erfc(-v / math.sqrt(2)) / 2, "relu": lambda v: max(v, 0), "float": lambda v: v}

INTS = set("torch.int32 torch.int64 torch.long torch.int torch.int16 torch.short torch.int8".split())
FLOATS = set("torch.float32 torch.float64 torch.float torch.double".split())
LAID = set("t:reshape t:flatten t:permute t:transpose t:squeeze t:unsqueeze t:contiguous t:movedim".split())
REDUCE = {"t:max": "max", "t:min": "min", "t:amax": "max", "t:amin": "min", "t:any": "any", "t:all": "all", "t:sum": "sum"}

CONS = set("call attr sub record raise ok newobj isinstance in tuple list dict slice path setattr eff noreturn unset ext enum func class eq star bound selfarg alloc lam".split())


class Model:
    def __init__(self, x, y, shape, odd, leaf, fname, seed, ints):
        self.seed, self.ints = seed, ints
        self.coarse = seed % 4 > 1
        self.SHAPE, self.ODD, self.is_leaf, self.fname = shape, odd, leaf, fname
        a, b = _nodes(x), _nodes(y)
        self.shared = set(a) & set(b)
        self.heads = {self.hd(n) for n in a.values()} & {self.hd(n) for n in b.values()}
        self.all = dict(a)
        self.all.update(b)
        for t, other in ((a, b), (b, a)):
            for n in t.values():
                if n.op in self.ODD and n.id not in other:
                    raise Opaque(n.op)
        self.intlike = set()
        self.domain = {}
        self.numeric = set()
        for n in self.all.values():
            if n.op in ("mod", "floordiv", "ceildiv"):
                for c in n.args:
                    self.mark(c)
            elif n.op in ("cmap", "any", "foreach", "fold"):
                self.mark(n.args[0])
            elif n.op == "sub" and isinstance(n.args[1], Node):
                self.mark(n.args[1])
            elif n.op == "call" and n.args[0] in ("py:max", "py:min", "py:sum"):
                for c in n.args[1]:
                    self.mark(c)
            elif n.op == "slice":
                for c in n.args:
                    self.mark(c)
            elif n.op == "eq":
                for p, q in (n.args, n.args[::-1]):
                    if q.op == "const":
                        self.domain.setdefault(p.id, []).append(q.args[0])
            elif n.op == "poly":
                for m, _ in n.args:
                    for t, _e in m:
                        self.numeric.add(t.id)
            if T.intval(n):
                self.intlike.add(n.id)
        self.both = {}
        for t in (a, b):
            now = {}
            for n in t.values():
                if n.op == "call":
                    for k, v in n.args[2]:
                        if "dim" in k:
                            now.setdefault(k, set()).add(v.id)
            for k in set(now) | set(self.both):
                self.both[k] = now.get(k, set()) & self.both[k] if k in self.both else now.get(k, set()) if t is a else set()
        self.lens = {n.args[0].id for n in self.all.values() if n.op == "len"}
        self.memo = {}
        self.memos = {}
        self.elem = None
        self.used = {}

    def hd(self, n):
        if n.op == "call":
            return (n.op, self.fname(n), len(n.args[1]), tuple(k for k, _ in n.args[2]))
        return (n.op, n.args[1]) if n.op == "attr" else (n.op,)

    def mark(self, n):
        if n.op == "poly":
            for m, _ in n.args:
                for t, _e in m:
                    self.mark(t)
        elif n.op in ("min", "max", "tuple", "list"):
            for t in n.args[0]:
                self.mark(t)
        elif n.op == "ite":
            self.mark(n.args[1])
            self.mark(n.args[2])
        else:
            self.intlike.add(n.id)

    def h(self, key):
        return int(hashlib.md5(("%s|%r" % (self.seed, key)).encode()).hexdigest()[:8], 16)

    # -------------------------------------------------------------- operands
    def typename(self, n):
        if n.op not in ("sym", "attr", "sub"):
            return None
        if n.id in TYPES:
            t = TYPES[n.id]
            return (t[9:-1] if t.startswith("Optional[") else t).split(".")[-1]
        from . import interp as I
        t = I.type_of(n)
        return ast.unparse(t[0]).split(".")[-1] if t is not None else None

    def atom(self, n, env):
        key = self.akey(n, env)
        ty = self.typename(n)
        if self.elem is not None:
            if n.op not in ("sym", "attr", "sub", "const", "ext", "enum") or n.op == "attr" and n.args[1] in ("T", "mT"):
                raise Opaque("laid out")
            if self.elem and ty == "Tensor":
                key = key + (self.elem,)
        if ty == "bool" or any(isinstance(c, bool) for c in self.domain.get(n.id, ())):
            v = self.h(("bool", key)) % 2 == 0
            self.used[n] = v
            return v
        if n.id in self.domain:
            d = sorted(set(map(repr, self.domain[n.id])))
            k = self.h(("dom", key)) % (len(d) + 1)
            if k < len(d):
                v = next(c for c in self.domain[n.id] if repr(c) == d[k])
                self.used[n] = v
                return v
        g = G(key, self, n.id in self.intlike, ty in ("Tensor", "float"))
        self.used[n] = g
        return g

    def akey(self, n, env):
        bs = tuple(sorted((T._by_id[s].args[0], repr(v)) for s in T.free_syms(n) for v in [env.get(s)] if v is not None))
        return ("n", n.key if isinstance(n.key, (str, int)) else hashlib.md5(repr(n.key).encode()).hexdigest(), bs)

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float, Fraction)):
            return v
        if isinstance(v, G):
            return v.num()
        if isinstance(v, str) and v.startswith("float:"):
            return float(v[6:])
        raise Undefined()

    def isnum(self, v):
        return isinstance(v, (int, float, Fraction, G)) and not isinstance(v, bool)

    def integer(self, v):
        v = self.num(v)
        if isinstance(v, float) or v != int(v):
            raise Undefined()
        return int(v)

    # -------------------------------------------------------------- terms
    def ev(self, n, env):
        bound = bool(env) and any(s in env for s in T.free_syms(n))
        if not bound and n.id in self.memo:
            return self.memo[n.id]
        v = self.ev0(n, env)
        if not bound:
            self.memo[n.id] = v
        return v

    def ev0(self, n, env):
        o, a = n.op, n.args
        f = getattr(self, "op_" + o, None)
        if f:
            return f(n, env, *a)
        if o == "const":
            return a[0]
        if n.id in env:
            return env[n.id]
        if o in ("ext", "attr") and T.show(n, 3) in NAMED:
            return NAMED[T.show(n, 3)]
        if o in ("sym",) or self.is_leaf(n) and o == "attr":
            return self.atom(n, env)
        if o in self.ODD:
            if n.id in self.shared:
                return self.atom(n, env)
            raise Opaque(o)
        # free constructors
        nm = self.fname(n)
        if o == "call" and a[0] in ("t:zeros_like", "t:ones_like") and len(a[2]) == 1:
            return 0 if nm == "zeros_like" else 1
        if o == "call" and a[0] == "t:to" and not a[1] and tuple(k for k, _ in a[2]) == ("arg0", "x"):
            ty = T.show(a[2][0][1], 3)
            v = self.ev(a[2][1][1], env)
            if ty in INTS:
                return v if isinstance(v, (int, bool)) or isinstance(v, G) and v.intlike else int(self.num(v))
            if ty in FLOATS or ty in ("'cpu'", "'cuda'"):
                return v
            raise Opaque("to")
        if o == "attr" and a[1] == "shape" and self.is_leaf(a[0]):
            return self.shape_of(a[0], env)
        if o == "call" and a[0] == "t:numel" and len(a[2]) == 1 and self.is_leaf(a[2][0][1]):
            return math.prod(self.num(q) for q in self.shape_of(a[2][0][1], env)[1:])
        if nm == "pad" and o == "call":
            kw = dict(a[2])
            if "pad" in kw and "x" in kw:
                p = self.ev(kw["pad"], env)
                if isinstance(p, tuple) and all(q == 0 for q in p[1:]):
                    return self.ev(kw["x"], env)
        if o == "call" and a[0] in ("py:max", "py:min", "py:sum") and len(a[1]) == 1 and not a[2]:
            vs = [self.num(q) for q in self.elements(a[1][0], env)]
            if not vs:
                raise Undefined()
            return {"py:max": max, "py:min": min, "py:sum": sum}[a[0]](vs)
        if o == "call" and a[0] in REDUCE and not a[1] and len(a[2]) == 1 and a[2][0][0] == "x":
            return self.reduce(n, REDUCE[a[0]], a[2][0][1], env)
        if o == "sub":
            base = self.ev(a[0], env)
            if isinstance(base, tuple) and base[0] in ("tuple", "list"):
                i = self.ev(a[1], env)
                if self.isnum(i):
                    i = self.integer(i)
                    if not -len(base) < i < len(base) - 1 + 1 or i >= len(base) - 1 or i < -(len(base) - 1):
                        raise Undefined()
                    return base[1:][i]
                if a[1].op == "slice" and isinstance(i, tuple) and i[:2] == ("K", "slice"):
                    ix = [None if q is None else self.integer(q) for q in i[2:]]
                    return base[:1] + base[1:][slice(*ix)]
        if o not in CONS or nm in self.SHAPE or (o == "attr" and a[1] in ("shape", "ndim", "T", "mT")) or self.hd(n) not in self.heads:
            if n.id in self.shared and o in CONS | {"len", "ndim", "call", "fn", "cmap", "fold", "where", "any", "foreach", "fstr", "strfmt"}:
                return self.atom(n, env)
            if o == "raise" or o in ("ok", "noreturn", "unset"):
                return ("K", o, nm) + tuple(x for x in a if isinstance(x, str))
            raise Opaque("%s %s" % (o, nm))
        if o == "call" and isinstance(a[0], str) and a[0].startswith("t:"):
            # functions of tensors: the tensors must be the same, their settings may differ
            for k, v in [(None, v) for v in a[1]] + list(a[2]):
                if k is not None and "dim" in k and v.id not in self.both[k]:
                    raise Opaque("%s %s" % (nm, k))
                if v.id not in self.shared and v.op != "const" and not self.plain(self.ev(v, env)):
                    raise Opaque(nm)
        if o == "sub" and a[1].op != "slice" and a[1].op != "tuple":
            i = self.ev(a[1], env)
            if self.isnum(i):
                i = self.integer(i)
                if i < 0:
                    i += self.length(a[0], env)
            b = self.ev(a[0], env)
            g = G(("sub", rep(b), rep(i)), self, n.id in self.intlike)
            return g
        if o in ("tuple", "list"):
            return self.seq(o, a[0], env)
        vs = ("K", o) + tuple(self.arg(x, env) for x in a)
        if o in ("raise", "ok", "noreturn", "unset", "newobj", "record", "dict", "slice", "setattr", "eff", "star", "lam"):
            return vs
        return G(rep(vs), self, n.id in self.intlike)

    def reduce(self, n, what, x, env):
        """over the elements of a tensor: three of them; what is not a tensor is the same for all"""
        if what == "sum" and self.hd(n) not in self.heads:
            raise Opaque("sum")
        if self.elem is not None:
            raise Opaque("nested")
        vs = []
        while x.op == "call" and x.args[0] in LAID and not x.args[1] and x.id not in self.shared:
            x = dict(x.args[2]).get("x", x.args[0])
            if not isinstance(x, Node):
                raise Opaque("laid out")
        try:
            for k in range(3):
                self.elem, memo = k, self.memo
                self.memo = self.memos.setdefault(k, {})
                try:
                    vs.append(self.boolean(x, env) if what in ("any", "all") else self.num(self.ev(x, env)))
                finally:
                    self.elem, self.memo = None, memo
        except Opaque:
            if n.id in self.shared:
                return self.atom(n, env)
            raise
        return {"max": max, "min": min, "any": any, "all": all, "sum": sum}[what](vs)

    def plain(self, v):
        if isinstance(v, tuple):
            return v[0] in ("tuple", "list") and all(self.plain(x) for x in v[1:])
        return v is None or isinstance(v, (bool, int, Fraction, str))

    def arg(self, x, env):
        if isinstance(x, Node):
            return self.ev(x, env)
        if isinstance(x, tuple):
            return ("",) + tuple(self.arg(y, env) for y in x)
        return x

    def seq(self, o, items, env):
        out = []
        for i in items:
            if i.op == "star":
                out.extend(self.elements(i.args[0], env))
            else:
                out.append(self.ev(i, env))
        return (o,) + tuple(out)

    def elements(self, n, env):
        v = self.ev(n, env)
        if isinstance(v, tuple) and v and v[0] in ("tuple", "list"):
            return v[1:]
        if isinstance(v, G) and self.is_leaf(n):
            return tuple(G(("sub", rep(v), i), self, v.intlike) for i in range(self.length(n, env)))
        raise Opaque("star")

    def op_str(self, n, env, x):
        return self.text(self.ev(x, env))

    def op_fstr(self, n, env, parts):
        vs = [self.text(self.ev(x, env)) for x in parts]
        out = []
        for v in vs:
            for w in (v[1:] if isinstance(v, tuple) else (v,)):
                if isinstance(w, str) and out and isinstance(out[-1], str):
                    out[-1] += w
                else:
                    out.append(w)
        return out[0] if len(out) == 1 and isinstance(out[0], str) else ("fstr",) + tuple(out)

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, int) and not isinstance(v, bool):
            return str(v)
        if isinstance(v, Fraction) and v.denominator == 1:
            return str(int(v))
        if isinstance(v, tuple) and v[0] == "fstr":
            return v
        if isinstance(v, G):
            return str(int(v.num())) if v.intlike else ("fstr", v)
        raise Undefined()

    def length(self, n, env):
        v = self.ev(n, env)
        if isinstance(v, tuple) and v and v[0] in ("tuple", "list"):
            return len(v) - 1
        if isinstance(v, G):
            return 1 + self.h(("len", v.key)) % 4
        raise Undefined()

    def shape_of(self, x, env):
        k = self.akey(x, env)
        return ("tuple",) + tuple(G(("dim", k, i), self, True) for i in range(1 + self.h(("rank", k)) % 5))

    def op_ndim(self, n, env, x):
        if self.is_leaf(x):
            return len(self.shape_of(x, env)) - 1
        if n.id in self.shared:
            return self.atom(n, env)
        raise Opaque("ndim")

    def op_len(self, n, env, x):
        if x.op == "range":
            raise Opaque("range")
        return self.length(x, env)

    def op_poly(self, n, env, *items):
        tot = 0
        for m, c in items:
            t = c
            for x, e in m:
                v = self.num(self.ev(x, env))
                if isinstance(e, Node):
                    e = self.num(self.ev(e, env))
                t = t * self.power(v, e)
            tot = tot + t
        return tot

    def power(self, v, e):
        try:
            if isinstance(e, Fraction) and e.denominator != 1 or isinstance(e, float):
                if v < 0:
                    raise Undefined()
                return float(v) ** float(e)
            if abs(e) > 64:
                raise Undefined()
            if e < 0 and isinstance(v, int):
                v = Fraction(v)
            return v ** int(e)
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Undefined()

    def op_pow(self, n, env, a, b):
        return self.power(self.num(self.ev(a, env)), self.num(self.ev(b, env)))

    op_powc = op_pow

    def div(self, a, b, env, f):
        p, q = self.num(self.ev(a, env)), self.num(self.ev(b, env))
        if q == 0 or isinstance(p, float) or isinstance(q, float):
            raise Undefined()
        return f(p, q)

    def op_mod(self, n, env, a, b):
        return self.div(a, b, env, lambda p, q: p % q)

    def op_floordiv(self, n, env, a, b):
        return self.div(a, b, env, lambda p, q: p // q)

    def op_ceildiv(self, n, env, a, b):
        return self.div(a, b, env, lambda p, q: -(-p // q))

    def op_min(self, n, env, xs):
        return self.mm(min, n, env, xs)

    def op_max(self, n, env, xs):
        return self.mm(max, n, env, xs)

    def mm(self, f, n, env, xs):
        vs = []
        for x in xs:
            if x.op == "star":
                vs.extend(self.num(q) for q in self.elements(x.args[0], env))
            else:
                v = self.ev(x, env)
                if isinstance(v, tuple):
                    raise Opaque("minmax of a sequence")
                vs.append(self.num(v))
        if not vs:
            raise Undefined()
        return f(vs)

    def op_fn(self, n, env, name, *xs):
        if name in FN and len(xs) == 1:
            v = self.num(self.ev(xs[0], env))
            try:
                return FN[name](v)
            except (ValueError, OverflowError):
                raise Undefined()
        if n.id in self.shared:
            return self.atom(n, env)
        raise Opaque(name)

    def op_paren(self, n, env, x):
        return self.ev(x, env)

    op_box = op_ng = op_paren

    def op_cmp(self, n, env, a, b):
        p, q = self.ev(a, env), self.ev(b, env)
        return self.num(p) - self.num(q)

    def op_lt0(self, n, env, d):
        v = self.num(self.ev(d, env))
        if isinstance(v, float) and abs(v) < 1e-9:
            raise Undefined()
        return v < 0

    def op_eq0(self, n, env, d):
        if d.op == "poly" and len(d.args) == 2 and sorted(c for _, c in d.args) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 for m, _ in d.args):
            p, q = (self.ev(m[0][0], env) for m, _ in d.args)
            if isinstance(p, tuple) or isinstance(q, tuple):
                return same(p, q)
        v = self.num(self.ev(d, env))
        if isinstance(v, float) and abs(v) < 1e-9:
            raise Undefined()
        return v == 0

    def op_eq(self, n, env, a, b):
        p, q = self.ev(a, env), self.ev(b, env)
        if isinstance(p, G) and isinstance(q, G):
            return p == q or self.coarse and p.num() == q.num()
        if isinstance(p, G) or isinstance(q, G):
            g, c = (p, q) if isinstance(p, G) else (q, p)
            if isinstance(c, bool) or c is None or isinstance(c, str):
                return False
            return self.num(g) == self.num(c)
        return same(p, q)

    def op_truth(self, n, env, x):
        v = self.ev(x, env)
        if isinstance(v, G):
            if x.id in self.lens:
                return self.length(x, env) > 0
            if x.id in self.numeric:
                return v.num() != 0
            return self.h(("truth", v.key)) % 2 == 0
        if isinstance(v, tuple):
            return len(v) > 1 if v[0] in ("tuple", "list") else True
        return bool(v)

    def boolean(self, n, env):
        v = self.ev(n, env)
        if isinstance(v, G):
            return self.h(("truth", v.key)) % 2 == 0
        if isinstance(v, bool):
            return v
        raise Undefined()

    def op_bool(self, n, env, x):
        return self.boolean(x, env)

    def op_ite(self, n, env, c, x, y):
        return self.ev(x if self.boolean(c, env) else y, env)

    op_where = op_ite

    def op_cmap(self, n, env, count, cond, items):
        c = self.integer(self.ev(count, env))
        if c > 12:
            raise Undefined()
        b = T.bound_vars(n)[0][0]
        out = []
        for i in range(c):
            e = dict(env)
            e[b.id] = i
            if self.boolean(cond, e):
                out.extend(self.seq("list", items, e)[1:])
        return ("list",) + tuple(out)

    def op_any(self, n, env, count, body):
        c = self.integer(self.ev(count, env))
        if c > 12:
            raise Undefined()
        b = T.bound_vars(n)[0][0]
        return any(self.boolean(body, dict(env, **{}) | {b.id: i}) for i in range(c))

    def op_lam(self, n, env, k, body, extra):
        e = dict(env)
        for j, v in enumerate(T.bound_vars(n)[0]):
            e[v.id] = G(("p", j, len(env)), self, v.id in self.intlike)
        return ("K", "lam", k, self.ev(body, e)) + tuple(rep(self.ev(x, e)) for x in extra)

    def op_then(self, n, env, a, b):
        p = self.ev(a, env)
        q = self.ev(b, env)
        if not (isinstance(p, tuple) and p and p[0] == "seq"):
            raise Opaque("then")
        return p + (q,)

    def op_nil(self, n, env, *a):
        return ("seq",)

    def op_foreach(self, n, env, *a):
        if n.id in self.shared:
            return self.atom(n, env)
        raise Opaque("foreach")


def op_na(self, n, env, *a):
    raise Undefined()


setattr(Model, "op_n/a", op_na)
setattr(Model, "op_undef", op_na)


def rep(v):
    if isinstance(v, G):
        return v.key
    if isinstance(v, tuple):
        return tuple(rep(x) for x in v)
    if isinstance(v, float):
        return float("%.6g" % v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or (isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)) and a == b)
    n = (int, Fraction, float)
    if isinstance(a, n) and isinstance(b, n):
        if isinstance(a, float) or isinstance(b, float):
            return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-9)
        return a == b
    if isinstance(a, G) and isinstance(b, n):
        return same(a.num(), b)
    if isinstance(b, G) and isinstance(a, n):
        return same(a, b.num())
    return type(a) is type(b) and a == b


def reordered(a, b):
    """the same effects in another order"""
    return isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("seq",) and sorted(map(repr, map(rep, a))) == sorted(map(repr, map(rep, b)))


def _nodes(n):
    seen, todo = {}, [n]
    while todo:
        x = todo.pop()
        if x.id not in seen:
            seen[x.id] = x
            todo.extend(T.children(x))
    return seen


def apart(code, spec, shape, odd, leaf, fname, points=240, seconds=4):
    """a point at which two formulas differ, or None"""
    if len(_nodes(code)) > 6000 or len(_nodes(spec)) > 6000:
        return None
    end = time.time() + seconds
    for k in range(points):
        if k > 23 and time.time() > end:
            return None
        try:
            m = Model(code, spec, shape, odd, leaf, fname, k, k % 2 == 0)
            a = m.ev(code, {})
            b = m.ev(spec, {})
        except Undefined:
            continue
        except (Opaque, RecursionError, OverflowError) as e:
            if os.environ.get("MODEL_TRACE"):
                print("    apart:", repr(e))
            return None
        if same(a, b) or reordered(a, b):
            continue
        at = ", ".join("%s=%s" % (T.show(n, 4), v if not isinstance(v, G) else v.num() if n.id in m.numeric or n.id in m.intlike else "…") for n, v in list(m.used.items())[:6])
        return "different values at " + at
    return None
