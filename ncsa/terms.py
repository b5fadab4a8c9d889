"""Hash-consed terms in canonical normal form.

A term is a node of the gated value graph of a function.  Equality of values is
identity of nodes: the smart constructors below normalise arithmetic to
polynomials over rational coefficients, conditions and conditional values to
ordered decision diagrams, collection building to `cmap` comprehensions, and so
on.  Nothing here executes analysed code.
"""
import hashlib
from fractions import Fraction
import math

LIFT_CAP = 96          # max number of decision-diagram leaves an operation is pushed through


class Node:
    __slots__ = ("op", "args", "id", "key", "h", "_leaves", "_free")

    def __repr__(self):
        return show(self)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.id


_table = {}
_by_id = {}
_on_make = []          # hook(s) called with every node constructed (for source locations)


def _keyof(op, args):
    parts = [op]
    for a in args:
        if isinstance(a, Node):
            parts.append(a.key)
        elif isinstance(a, tuple):
            parts.append("(" + _keyof("t", a) + ")")
        else:
            parts.append(type(a).__name__ + ":" + repr(a))
    return hashlib.blake2b("\x00".join(parts).encode(), digest_size=12).hexdigest()


def _hkey(args):
    out = []
    for a in args:
        if isinstance(a, Node):
            out.append(("n", a.id))
        elif isinstance(a, tuple):
            out.append(_hkey(a))
        else:
            out.append((type(a).__name__, a))
    return tuple(out)


def _height(args):
    m = 0
    for a in args:
        if isinstance(a, Node):
            m = max(m, a.h)
        elif isinstance(a, tuple):
            m = max(m, _height(a))
    return m


BINDERS = {"cmap", "any", "lam", "fold", "foreach", "dictmap", "first"}


def mk(op, *args):
    hk = (op, _hkey(args))
    n = _table.get(hk)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = len(_table)
        n.key = _keyof(op, args)
        n.h = _height(args) + (1 if op in BINDERS else 0)
        n._leaves = None
        n._free = None
        _table[hk] = n
        _by_id[n.id] = n
    for f in _on_make:
        f(n)
    return n


def children(n):
    def rec(a):
        for x in a:
            if isinstance(x, Node):
                yield x
            elif isinstance(x, tuple):
                yield from rec(x)
    return rec(n.args)


# ---------------------------------------------------------------- constants

def const(v):
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mk("const", "float:" + repr(v))
        v = Fraction(repr(v))
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return mk("const", v)


TRUE, FALSE, NONE = const(True), const(False), const(None)


def is_const(n):
    return n.op == "const"


def cval(n):
    return n.args[0]


def is_num(n):
    return n.op == "const" and isinstance(n.args[0], (int, Fraction)) and not isinstance(n.args[0], bool)


def is_boolconst(n):
    return n is TRUE or n is FALSE


def sym(name):
    return mk("sym", name)


_fresh = [0]


def fresh(tag="v"):
    _fresh[0] += 1
    return mk("sym", "%%%s%d" % (tag, _fresh[0]))


# ---------------------------------------------------------------- decision diagrams

def leaves(n):
    if n.op != "ite":
        return 1
    if n._leaves is None:
        n._leaves = min(10 ** 6, leaves(n.args[1]) + leaves(n.args[2]))
    return n._leaves


def atom_order(a):
    """Total order on atoms; tests of one subject against constants are adjacent."""
    if a.op == "eq" and is_constlike(a.args[1]):
        return (a.args[0].key, a.args[1].key)
    if a.op == "eq" and is_constlike(a.args[0]):
        return (a.args[1].key, a.args[0].key)
    return (a.key, "")


def is_constlike(n):
    return n.op in ("const", "ext", "class")


_restrict_memo = {}


def _poly_parts(d):
    """d as (sign, primitive part without constant, threshold): d = |c|*(sign*P - t)"""
    if d.op == "poly":
        c0, ms = 0, []
        for m, c in d.args:
            if m:
                ms.append((m, c))
            else:
                c0 = c
        if not ms:
            return None
        lead = ms[0][1]
        P = _from_poly({m: Fraction(c) / lead for m, c in ms})
        return (1 if lead > 0 else -1), P, Fraction(-c0) / abs(lead)
    if d.op in ("const", "cmp"):
        return None
    return 1, d, Fraction(0)


_atom_info = {}


def _info(a):
    """('eq', subject, const) | ('lt'|'gt'|'ne..', P, bound) description of an atom, or None"""
    r = _atom_info.get(a.id)
    if r is None:
        r = ()
        if a.op == "eq":
            x, c = a.args
            if is_constlike(c):
                r = ("eq", x, c)
            elif is_constlike(x):
                r = ("eq", c, x)
        elif a.op == "eq0":
            p = _poly_parts(a.args[0])
            if p:
                r = ("is", p[1], p[0] * p[2])
        elif a.op == "lt0":
            p = _poly_parts(a.args[0])
            if p:
                # sign*P < t
                r = ("lt", p[1], p[2]) if p[0] > 0 else ("gt", p[1], -p[2])
        _atom_info[a.id] = r
    return r or None


def _implied(a, val, b):
    """truth of atom b given that atom a has truth value val, or None"""
    if a is b:
        return val
    ia, ib = _info(a), _info(b)
    if ia is None or ib is None or ia[1] is not ib[1]:
        return None
    ka, kb = ia[0], ib[0]
    if ka == "eq" or kb == "eq":
        if ka == kb and val and distinct_consts(ia[2], ib[2]):
            return False
        return None
    x, y = ia[2], ib[2]
    if ka == "is" and val:
        return {"is": x == y, "lt": x < y, "gt": x > y}[kb]
    if ka == "is":
        return None
    # interval facts: lo/hi bound with strictness
    if (ka == "lt") == val:
        hi, strict = x, val            # P < x  (strict) or P <= x
        if kb == "lt" and (hi < y or (hi == y and strict)):
            return True
        if kb == "gt" and hi <= y:
            return False
        if kb == "is" and (y > hi or (y == hi and strict)):
            return False
    else:
        lo, strict = x, val            # P > x (strict) or P >= x
        if kb == "gt" and (lo > y or (lo == y and strict)):
            return True
        if kb == "lt" and lo >= y:
            return False
        if kb == "is" and (y < lo or (y == lo and strict)):
            return False
    return None


def _assume(n, a, val):
    """diagram n under the assumption that atom a has truth value val"""
    if n.op != "ite":
        return n
    if _info(a) is None:
        return n
    k = (n.id, a.id, val)
    r = _restrict_memo.get(k)
    if r is None:
        b, h, l = n.args
        t = _implied(a, val, b)
        if t is True:
            r = _assume(h, a, val)
        elif t is False:
            r = _assume(l, a, val)
        else:
            h2, l2 = _assume(h, a, val), _assume(l, a, val)
            r = n if (h2 is h and l2 is l) else _mk_ite_raw(b, h2, l2)
        _restrict_memo[k] = r
    return r


def distinct_consts(a, b):
    if a is b:
        return False
    if a.op == "const" and b.op == "const":
        return cval(a) != cval(b) or type(cval(a)) != type(cval(b))
    if a.op == b.op == "ext" or a.op == b.op == "enum":
        return True
    if "const" in (a.op, b.op):
        return True
    return False


_occ_memo = {}


def occurs(x, n):
    """does node x occur in n (memoised)"""
    if n is x:
        return True
    if n.id < x.id and n.op in ("const", "sym", "ext"):
        return False
    k = (x.id, n.id)
    r = _occ_memo.get(k)
    if r is None:
        r = False
        if free_syms(x) <= free_syms(n):
            for c in children(n):
                if occurs(x, c):
                    r = True
                    break
        _occ_memo[k] = r
    return r


_se_memo = {}


def _set_eq(n, x, c):
    if not occurs(x, n):
        return n
    k = (n.id, x.id, c.id)
    r = _se_memo.get(k)
    if r is None:
        r = subst(n, {x: c})
        _se_memo[k] = r
    return r


def _eq_fact(a):
    """(x, c) when atom a states x == c for a replaceable x"""
    i = _info(a)
    if i is None:
        return None
    if i[0] == "eq":
        x, c = i[1], i[2]
    elif i[0] == "is":
        x, c = i[1], const(i[2])
    else:
        return None
    if x.op in ("poly", "const"):
        return None
    return x, c


def _mk_ite_raw(a, h, l):
    if h is l:
        return h
    h = _assume(h, a, True)
    l = _assume(l, a, False)
    if h is l:
        return h
    # the test is decided inside both alternatives, at any depth
    h1 = _set_eq(h, a, TRUE)
    l1 = _set_eq(l, a, FALSE)
    if h1 is not h or l1 is not l:
        if h1 is l1:
            return h1
        h, l = h1, l1
        if any(x.op == "ite" and atom_order(x.args[0]) < atom_order(a) for x in (h, l)):
            return ite(mk("ite", a, TRUE, FALSE), h, l)
    ef = _eq_fact(a)
    if ef is not None:
        h2 = _set_eq(h, *ef)
        if occurs(ef[0], l) and _set_eq(l, *ef) is h2:
            return l
        if h2 is not h:
            if h2.op == "ite" and atom_order(h2.args[0]) < atom_order(a):
                return ite(mk("ite", a, TRUE, FALSE), h2, l)
            h = h2
            if h is l:
                return h
    return mk("ite", a, h, l)


_rst_memo = {}


def restrict(n, a, val):
    """cofactor of diagram n (all levels of conditional structure at the top) by atom a"""
    k = (n.id, a.id, val)
    r = _rst_memo.get(k)
    if r is None:
        if n.op == "ite":
            b, h, l = n.args
            t = _implied(a, val, b)
            if t is True:
                r = restrict(h, a, val)
            elif t is False:
                r = restrict(l, a, val)
            else:
                r = _mk_ite_raw(b, restrict(h, a, val), restrict(l, a, val))
        else:
            r = n
        if val:
            ef = _eq_fact(a)
            if ef is not None:
                r = _set_eq(r, *ef)
        _rst_memo[k] = r
    return r


def atoms_of(n, out=None, seen=None):
    """atoms tested at the top-level conditional structure of n"""
    out = out if out is not None else set()
    seen = seen if seen is not None else set()
    if n.op == "ite" and n.id not in seen:
        seen.add(n.id)
        out.add(n.args[0])
        atoms_of(n.args[1], out, seen)
        atoms_of(n.args[2], out, seen)
    return out


def _cof(n, a):
    if n.op == "ite" and n.args[0] is a:
        return n.args[1], n.args[2]
    return n, n


_ite_memo = {}


def ite(c, a, b):
    """Conditional value; c is a boolean diagram, a and b arbitrary diagrams."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None:
        for f in _on_make:
            f(r)
        return r
    if c.op != "ite":
        c = mk("ite", as_atom(c), TRUE, FALSE)
    tops = [n.args[0] for n in (c, a, b) if n.op == "ite"]
    v = min(tops, key=atom_order)
    ch, cl = _cof(c, v)
    ah, al = _cof(a, v)
    bh, bl = _cof(b, v)
    r = _mk_ite_raw(v, ite(ch, ah, bh), ite(cl, al, bl))
    _ite_memo[k] = r
    return r


def as_atom(n):
    return n


BOOL_OPS = {"lt0", "eq0", "eq", "in", "isinstance", "any", "truth", "exc", "hasattr", "balance"}


def atom(n):
    """Boolean diagram testing atom n."""
    if is_boolconst(n):
        return n
    return mk("ite", n, TRUE, FALSE)


def b_not(a):
    return ite(a, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def is_boolean(n):
    if is_boolconst(n):
        return True
    return n.op == "ite" and is_boolean(n.args[1]) and is_boolean(n.args[2])


def truth(n):
    """Truth value of an arbitrary value as a boolean diagram."""
    if is_boolconst(n):
        return n
    if n.op == "ite":
        if is_boolean(n):
            return n
        return lift(truth, n)
    if n.op == "const":
        v = cval(n)
        if isinstance(v, str) and v.startswith("float:"):
            return TRUE
        return TRUE if v else FALSE
    if n.op in BOOL_OPS:
        return atom(n)
    if n.op in ("tuple", "list", "dict"):
        if not n.args[0]:
            return FALSE
        if not any(isinstance(x, Node) and x.op == "star" for x in n.args[0]):
            return TRUE
        return b_not(eq(length(n), const(0)))
    if n.op == "cmap" or n.op == "setof":
        return b_not(eq(length(n), const(0)))
    if n.op in ("poly", "len", "mod", "floordiv", "ceildiv", "ndim") or intval(n):
        return b_not(eq(n, const(0)))
    if n.op in ("ext", "class", "func", "closure", "record", "lam"):
        return TRUE
    return atom(mk("truth", n))


def lift(f, *args):
    """Apply f through the decision diagrams of its arguments."""
    tops = [n for n in args if isinstance(n, Node) and n.op == "ite"]
    if not tops:
        return f(*args)
    tot = 1
    for n in tops:
        tot *= leaves(n)
    if tot > LIFT_CAP:
        return f(*[box(a) if isinstance(a, Node) else a for a in args])
    memo = {}

    def rec(xs):
        k = tuple(x.id if isinstance(x, Node) else x for x in xs)
        r = memo.get(k)
        if r is not None:
            return r
        tp = [x.args[0] for x in xs if isinstance(x, Node) and x.op == "ite"]
        if not tp:
            r = f(*xs)
        else:
            v = min(tp, key=atom_order)
            hs, ls = [], []
            for x in xs:
                if isinstance(x, Node):
                    h, l = _cof(x, v)
                else:
                    h = l = x
                hs.append(h)
                ls.append(l)
            r = ite(atom(v), rec(tuple(hs)), rec(tuple(ls)))
        memo[k] = r
        return r

    return rec(tuple(args))


def map_leaves(f, n):
    """apply f at every leaf of a decision diagram, whatever its size"""
    memo = {}

    def rec(x):
        r = memo.get(x.id)
        if r is None:
            r = f(x) if x.op != "ite" else ite(atom(x.args[0]), rec(x.args[1]), rec(x.args[2]))
            memo[x.id] = r
        return r
    return rec(n)


def box(n):
    """An un-lifted conditional value used as an operand."""
    if n.op == "ite":
        return mk("box", n)
    return n


def liftn(op_fn, nodes):
    """Lift an operation over a list of operand nodes (may contain None / tuples of nodes)."""
    flat = []
    shape = []
    for x in nodes:
        flat.append(x)
    return lift(lambda *xs: op_fn(list(xs)), *flat)


# ---------------------------------------------------------------- arithmetic

def _as_poly(n):
    """dict monomial -> coeff; monomial = tuple of (atom, exponent) sorted by atom key."""
    if is_num(n):
        v = cval(n)
        return {(): v} if v != 0 else {}
    if is_boolconst(n):
        return {(): 1} if n is TRUE else {}
    if n.op == "poly":
        return {m: c for m, c in n.args}
    return {((n, 1),): 1}


def _norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def _mono_key(m):
    return tuple((a.key, str(e)) for a, e in m)


def _from_poly(d):
    d = {m: _norm_c(c) for m, c in d.items() if c != 0}
    for m in [m for m in d if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "call" and m[0][0].args[0] == "t:zeros_like"]:
        # x + zeros_like(y) is x when x already has y's shape
        y = free_syms(m[0][0])
        if y and any(y <= frozenset().union(*(free_syms(t[0]) for t in k)) for k in d if k and k != m):
            del d[m]
    if not d:
        return const(0)
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    return mk("poly", *[(m, c) for m, c in items])


def _mono_mul(a, b):
    d = {}
    for x, e in a + b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, _norm_c(e)) for x, e in d.items() if e != 0), key=lambda t: t[0].key))


def _seq(n):
    return n.op in ("list", "tuple", "cmap")


def _isstr(n):
    return (n.op == "const" and isinstance(cval(n), (str, bytes)) and not str(cval(n)).startswith("float:")) or n.op == "fstr"


def add(a, b):
    return lift(_add, a, b)


def _add(a, b):
    if _isstr(a) or _isstr(b):
        return fstr([a, b])
    if _seq(a) or _seq(b):
        op = "tuple" if (a.op == "tuple" or b.op == "tuple") else "list"
        return mkseq(op, (mk("star", a), mk("star", b)))
    d = dict(_as_poly(a))
    for m, c in _as_poly(b).items():
        d[m] = d.get(m, 0) + c
    return _from_poly(d)


def neg(a):
    return mul(const(-1), a)


def sub_(a, b):
    return lift(lambda x, y: _add(x, _mul(const(-1), y)), a, b)


def mul(a, b):
    return lift(_mul, a, b)


def _mul(a, b):
    if (_seq(a) and not _seq(b)) or (_seq(b) and not _seq(a)):
        s, n = (a, b) if _seq(a) else (b, a)
        if is_num(n) and s.op in ("list", "tuple") and 0 <= cval(n) <= 64 and isinstance(cval(n), int):
            return mkseq(s.op, s.args[0] * cval(n))
        return mk("repeat", s, n)
    if _isstr(a) or _isstr(b):
        return mk("repeat", a, b)
    pa, pb = _as_poly(a), _as_poly(b)
    if len(pa) * len(pb) > 64:
        # too big to expand; keep as a product of opaque factors
        fa = a if a.op != "poly" else mk("paren", a)
        fb = b if b.op != "poly" else mk("paren", b)
        return _from_poly({_mono_mul(((fa, 1),), ((fb, 1),)): 1})
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _from_poly(d)


def _content(n):
    """(coefficient, primitive part) with leading coefficient 1."""
    if n.op == "poly":
        lead = None
        for m, c in n.args:
            if m:
                lead = c
                break
        if lead is None:
            return 1, n
        if lead == 1:
            return 1, n
        return lead, _from_poly({m: Fraction(c) / lead for m, c in n.args})
    return 1, n


def div(a, b):
    return lift(_div, a, b)


def _div(a, b):
    if _isstr(a) or _isstr(b) or b.op in ("path", "fstr") or a.op == "path":
        return path_join(a, b)
    return _mul(a, _pow(b, const(-1)))


def path_join(a, b):
    xs = list(a.args[0]) if a.op == "path" else [a]
    ys = list(b.args[0]) if b.op == "path" else [b]
    parts = []
    for p in xs + ys:
        if p.op == "const" and isinstance(cval(p), str) and "/" in cval(p).strip("/"):
            segs = cval(p).split("/")
            parts += [const(s) for s in segs if s] if not cval(p).startswith("/") else [p]
        else:
            parts.append(p)
    return mk("path", tuple(parts))


def pow_(a, b):
    return lift(_pow, a, b)


def _pow(a, b):
    if is_num(b):
        e = cval(b)
        if is_num(a):
            v = Fraction(cval(a))
            if isinstance(e, int) and (v != 0 or e > 0) and abs(e) <= 64:
                return const(v ** e)
            if isinstance(e, Fraction) and v in (0, 1) and e > 0:
                return const(v)
        if e == 1:
            return a
        if e == 0:
            return const(1)
        p = _as_poly(a)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 or isinstance(e, int):
                if isinstance(e, int):
                    cc = Fraction(c) ** e
                else:
                    cc = 1
                return _from_poly({tuple((x, _norm_c(Fraction(ex) * e)) for x, ex in m): cc})
            return _mul(_from_poly({((mk("powc", const(c), b), 1),): 1}) if c != 1 else const(1),
                        _from_poly({tuple((x, _norm_c(Fraction(ex) * e)) for x, ex in m): 1}))
        if len(p) > 1:
            if isinstance(e, int) and 2 <= e <= 4 and len(p) ** e <= 64:
                r = a
                for _ in range(e - 1):
                    r = _mul(r, a)
                return r
            lead, prim = _content(a)
            r = _from_poly({((prim, _norm_c(Fraction(e))),): 1})
            if lead == 1:
                return r
            if isinstance(e, int):
                return _mul(const(Fraction(lead) ** e), r)
            if lead > 0:
                return _mul(mk("powc", const(lead), b), r)
            return _from_poly({((a, _norm_c(Fraction(e))),): 1})
    if is_num(a) and cval(a) == 1:
        return const(1)
    return mk("pow", a, b)


def floordiv(a, b):
    return lift(_floordiv, a, b)


def _divide_exact(a, b):
    """a / b as polynomial if every coefficient stays integral and exponents non-negative, else None."""
    q = _div(a, b)
    p = _as_poly(q)
    for m, c in p.items():
        if isinstance(c, Fraction) and c.denominator != 1:
            return None
        for x, e in m:
            if isinstance(e, Fraction) or e < 0:
                return None
    return q


def _floordiv(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        return const(cval(a) // cval(b))
    if is_num(b) and cval(b) == 1 and not a.op == "poly":
        return mk("floor1", a) if False else a
    q = _divide_exact(a, b)
    if q is not None and not is_num(a):
        return q
    # ceil-division idiom (x + m - 1) // m
    rest = _add(_add(a, _mul(const(-1), b)), const(1))
    if is_num(b) and cval(b) > 1 and a.op == "poly":
        cst = [c for m, c in a.args if not m]
        if cst and cst[0] == cval(b) - 1:
            return ceildiv(rest, b)
    elif not is_num(b) and a.op == "poly":
        pb = _as_poly(b)
        pa = _as_poly(a)
        if pa.get((), 0) == -1 and all(pa.get(m, 0) == c for m, c in pb.items() if m):
            return ceildiv(rest, b)
    # -x // m   ->  -(ceil x/m)
    if a.op == "poly" and all(c < 0 for _, c in a.args):
        return _mul(const(-1), ceildiv(_mul(const(-1), a), b))
    # pull out exact integer multiples of b
    pa = _as_poly(a)
    if len(pa) > 1:
        out, keep = const(0), {}
        for m, c in pa.items():
            t = _from_poly({m: c})
            q = _divide_exact(t, b)
            if q is not None and m:
                out = _add(out, q)
            else:
                keep[m] = c
        if not (is_num(out) and cval(out) == 0):
            return _add(out, _floordiv(_from_poly(keep), b))
    # (a + b - 1) // b is the ceiling
    if is_num(b) and isinstance(cval(b), int) and cval(b) > 1 and a.op == "poly":
        c0 = dict(a.args).get((), 0)
        if c0 == cval(b) - 1:
            return _ceildiv(_add(a, const(-c0)), b)
    # nested floor divisions by constants
    if a.op == "floordiv" and is_num(b) and is_num(a.args[1]):
        return _floordiv(a.args[0], const(cval(b) * cval(a.args[1])))
    return mk("floordiv", a, b)


def ceildiv(a, b):
    return lift(_ceildiv, a, b)


def _ceildiv(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        return const(-((-cval(a)) // cval(b)))
    if is_num(b) and cval(b) == 1:
        return a
    q = _divide_exact(a, b)
    if q is not None and not is_num(a):
        return q
    return mk("ceildiv", a, b)


def mod(a, b):
    return lift(_mod, a, b)


def _mod(a, b):
    if _isstr(a):
        return mk("strfmt", a, b)
    if is_num(a) and is_num(b) and cval(b) != 0:
        return const(cval(a) % cval(b))
    d = {}
    for m, c in _as_poly(a).items():
        if isinstance(c, int):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and m[0][0].args[1] is b:
                for m2, c2 in _as_poly(m[0][0].args[0]).items():
                    d[m2] = d.get(m2, 0) + c * c2
                continue
            if _divide_exact(_from_poly({m: c}), b) is not None and (m or not is_num(b)):
                continue
        d[m] = d.get(m, 0) + c
    if is_num(b) and isinstance(cval(b), int) and cval(b) > 0:
        for m in list(d):
            if isinstance(d[m], int):
                d[m] = d[m] % cval(b) if (not m) else (d[m] if abs(d[m]) < cval(b) else d[m] % cval(b))
    r = _from_poly(d)
    if is_num(r):
        if is_num(b) and cval(b) != 0:
            return const(cval(r) % cval(b))
        if cval(r) == 0:
            return const(0)
    return mk("mod", r, b)


def call1(name, a):
    return lift(lambda x: _call1(name, x), a)


def _call1(name, x):
    if name == "abs":
        if is_num(x):
            return const(abs(cval(x)))
        if x.op == "poly":
            lead, prim = _content(x)
            if lead != 1:
                return _mul(const(abs(Fraction(lead))), mk("fn", "abs", prim))
        if x.op == "fn" and x.args[0] == "abs":
            return x
    if name == "log2" and is_num(x) and isinstance(cval(x), int) and cval(x) > 0 and cval(x) & (cval(x) - 1) == 0:
        return const(cval(x).bit_length() - 1)
    if name in ("ceil", "floor") and is_num(x):
        return const(math.ceil(cval(x)) if name == "ceil" else math.floor(cval(x)))
    if name in ("ceil", "floor"):
        # ceil(p / q) with a monomial denominator is an integer division
        p = _as_poly(x)
        if len(p) >= 1:
            den = None
            for m, c in p.items():
                neg_ = tuple((y, -e) for y, e in m if not isinstance(e, Fraction) and e < 0)
                dd = (neg_, Fraction(c).denominator)
                if den is None:
                    den = dd
                elif den != dd:
                    den = False
                    break
            if den and (den[0] or den[1] != 1):
                q = _from_poly({den[0]: den[1]})
                return (_ceildiv if name == "ceil" else _floordiv)(_mul(x, q), q)
    return mk("fn", name, x)


def scalar(y):
    """the number a tensor holds at every position, as an operand of an element-wise operation"""
    if y.op == "call":
        if y.args[0] in ("t:zeros_like", "t:ones_like") and len(y.args[2]) == 1:
            return const(0 if y.args[0] == "t:zeros_like" else 1)
        f = y.args[0]
        if isinstance(f, Node) and f.op == "ext" and f.args[0] in ("torch.tensor", "torch.as_tensor") and not y.args[1] and len(y.args[2]) == 1 and is_num(y.args[2][0][1]):
            return y.args[2][0][1]
    return y


def minmax(kind, xs):
    def f(*ys):
        items = set()
        for y in ys:
            if y.op == kind:
                items.update(y.args[0])
            else:
                items.add(scalar(y))
        nums = [cval(y) for y in items if is_num(y)]
        items = {y for y in items if not is_num(y)}
        if nums:
            items.add(const(min(nums) if kind == "min" else max(nums)))
        if len(items) == 1:
            return next(iter(items))
        if kind == "max" and nums and len(items) == 2:
            # between two bounds in either order
            c, m = const(max(nums)), next(y for y in items if not is_num(y))
            d = [y for y in m.args[0] if is_num(y)] if m.op == "min" else []
            rest = [y for y in m.args[0] if not is_num(y)] if m.op == "min" else []
            if d and rest and cval(d[0]) > cval(c):
                return minmax("min", [d[0], minmax("max", [c, minmax("min", rest)])])
        return mk(kind, tuple(sorted(items, key=lambda n: n.key)))
    return lift(f, *xs)


# ---------------------------------------------------------------- comparisons

def _numericish(n):
    if n.op in ("const",):
        return is_num(n) or is_boolconst(n)
    return n.op not in ("tuple", "list", "dict", "ext", "class", "fstr", "record", "set", "closure", "func", "lam", "slice", "path")


def lt(a, b):
    return lift(_lt, a, b)


def _lt(a, b):
    if is_num(a) and is_num(b):
        return TRUE if cval(a) < cval(b) else FALSE
    for x, y, left in ((a, b, True), (b, a, False)):
        if x.op in ("min", "max") and len(x.args[0]) <= 4:
            rs = [_lt(i, y) if left else _lt(y, i) for i in x.args[0]]
            f = b_or if (x.op == "min") == left else b_and
            r = rs[0]
            for q in rs[1:]:
                r = f(r, q)
            return r
    if _numericish(a) and _numericish(b):
        d = _add(a, _mul(const(-1), b))
        if is_num(d):
            return TRUE if cval(d) < 0 else FALSE
        if d.op == "poly":
            lead = next(c for m, c in d.args if m)
            if abs(lead) != 1:
                d = _from_poly({m: Fraction(c) / abs(lead) for m, c in d.args})
        p = _poly_parts(d)
        if p and intval(p[1]):
            sgn, P, t = p
            if sgn > 0:
                k = math.ceil(t)               # P < t  <=>  P < ceil(t)
                return _int_lt(P, k)
            k = math.floor(-t) + 1             # P > -t <=>  P >= floor(-t)+1
            return b_not(_int_lt(P, k))
        return atom(mk("lt0", d))
    return atom(mk("lt0", mk("cmp", a, b)))


INT_SYMS = set()


def intval(n):
    """certainly integer valued"""
    if is_num(n):
        return isinstance(cval(n), int)
    if n.op in ("len", "ndim", "floordiv", "ceildiv"):
        return True
    if n.op == "mod":
        return intval(n.args[0]) and intval(n.args[1])
    if n.op == "sub":
        return n.args[0].op == "attr" and n.args[0].args[1] == "shape"
    if n.op == "fn":
        return n.args[0] in ("int",)
    if n.op == "sym":
        return n.id in INT_SYMS
    if n.op in ("min", "max"):
        return all(intval(x) for x in n.args[0])
    if n.op == "poly":
        return all(isinstance(c, int) and all(isinstance(e, int) and e > 0 and intval(x) for x, e in m) for m, c in n.args)
    return False


def nonneg(n):
    return n.op in ("len", "ndim") or (n.op == "sub" and intval(n))


def _int_lt(P, k):
    if nonneg(P):
        if k <= 0:
            return FALSE
        if k == 1:
            return _eq(P, const(0))
    return atom(mk("lt0", _add(P, const(-k))))


def le(a, b):
    return b_not(lt(b, a))


def eq(a, b):
    return lift(_eq, a, b)


NOT_NONE = set()


def _never_none(n):
    """results of tensor functions and of calling a sub-module are never None"""
    if n.op == "ext" and n.args[0].split(".")[0] in ("torch", "torchvision", "math", "numpy", "compressai") and "." in n.args[0]:
        return True
    if n.id in NOT_NONE:
        return True
    if n.op == "call":
        f = n.args[0]
        if isinstance(f, str):
            return f.startswith("t:")
        return f.op == "attr" and f.args[0].op == "sym" and f.args[0].args[0] == "self" and not f.args[1].startswith("get")
    if n.op == "sub":
        i = n.args[1]
        if i.op == "tuple" and any(x.op == "slice" or x.op == "const" and x.args[0] is Ellipsis for x in i.args[0]):
            return True     # tensor indexing
        return _never_none(n.args[0])
    if n.op == "ng":
        return _never_none(n.args[0])
    if n.op == "attr" and n.args[1] in ("dtype", "shape") or n.op == "attr" and n.args[1] == "device" and n.args[0].op != "obj":
        return True
    return n.op in ("store", "repeat", "fn", "floordiv", "mod", "where", "min", "max", "len")


def _eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if (cval(a) == cval(b) and (a is NONE) == (b is NONE)) else FALSE
    if a.op in ("tuple", "list") and b.op in ("tuple", "list") and a.op == b.op:
        xa, xb = a.args[0], b.args[0]
        if not any(x.op == "star" for x in xa + xb):
            if len(xa) != len(xb):
                return FALSE
            r = TRUE
            for x, y in zip(xa, xb):
                r = b_and(r, eq(x, y))
            return r
    definite = ("tuple", "list", "dict", "record", "bound", "fstr", "cmap", "lam", "closure", "func", "class", "poly", "path", "set", "newobj")
    if (a is NONE and (b.op in definite or _never_none(b))) or (b is NONE and (a.op in definite or _never_none(a))):
        return FALSE
    if a.op in ("tuple", "list", "dict") and b.op == "const" or b.op in ("tuple", "list", "dict") and a.op == "const":
        return FALSE
    if is_constlike(a) and is_constlike(b) and distinct_consts(a, b) and a.op == b.op:
        return FALSE
    if _numericish(a) and _numericish(b) and not is_boolconst(a) and not is_boolconst(b):
        d = _add(a, _mul(const(-1), b))
        if is_num(d):
            return TRUE if cval(d) == 0 else FALSE
        _, d = _content(d)
        return atom(mk("eq0", d))
    x, y = sorted((a, b), key=lambda n: (is_constlike(n), n.key))
    return atom(mk("eq", x, y))


def contains(x, c):
    return lift(_contains, x, c)


def _contains(x, c):
    if c.op in ("tuple", "list", "set") and not any(i.op == "star" for i in c.args[0]):
        if len(c.args[0]) > 16 and all(is_const(i) for i in c.args[0]):
            if is_const(x):
                return TRUE if x in c.args[0] else FALSE
            return atom(mk("in", x, mk("set", tuple(sorted(set(c.args[0]), key=lambda n: n.key)))))
        r = FALSE
        for i in c.args[0]:
            r = b_or(r, eq(x, i))
        return r
    if c.op == "dict" and not any(k.op == "star" for k, _ in c.args[0]):
        r = FALSE
        for k, _ in c.args[0]:
            r = b_or(r, eq(x, k))
        return r
    if c.op == "range" and len(c.args) == 3 and c.args[2] is const(1):
        return b_and(le(c.args[0], x), lt(x, c.args[1]))
    return atom(mk("in", x, c))


# ---------------------------------------------------------------- sequences, indexing

def mkseq(op, items):
    out = []
    for i in items:
        if i.op == "star":
            y = i.args[0]
            if y.op in ("list", "tuple", "set"):
                out.extend(y.args[0])
                continue
            if y.op == "fold_empty":
                continue
        out.append(i)
    if len(out) == 1 and out[0].op == "star" and out[0].args[0].op == "cmap" and op == "list":
        return out[0].args[0]
    return mk(op, tuple(out))


def seq(op, items):
    return lift(lambda *xs: mkseq(op, xs), *items)


def fstr(parts):
    def f(*ps):
        out = []
        for p in ps:
            if p.op == "fstr":
                out.extend(p.args[0])
            else:
                out.append(p)
        res = []
        for p in out:
            if p.op == "const" and isinstance(cval(p), (int, Fraction, str)) and not isinstance(cval(p), bool):
                s = cval(p) if isinstance(cval(p), str) else (str(cval(p)) if isinstance(cval(p), int) else repr(float(cval(p))))
                if res and res[-1].op == "const" and isinstance(cval(res[-1]), str):
                    res[-1] = const(cval(res[-1]) + s)
                else:
                    res.append(const(s))
            else:
                res.append(p)
        res = [r for r in res if not (r.op == "const" and cval(r) == "")] or [const("")]
        if len(res) == 1 and res[0].op == "const":
            return res[0]
        return mk("fstr", tuple(res))
    return lift(f, *parts)


def length(x):
    return lift(_length, x)


LEN_FACTS = {}


def forget():
    """drop what was learnt about names, and results that may depend on it"""
    INT_SYMS.clear()
    LEN_FACTS.clear()
    for m in (_restrict_memo, _rst_memo, _ite_memo, _se_memo):
        m.clear()


key_set = None      # set by interp


def _length(x):
    if x.id in LEN_FACTS:
        return LEN_FACTS[x.id]
    if x.op == "mlist":
        return length(x.args[0])
    if x.op == "setof" and key_set(x):
        return length(x.args[0])
    if x.op == "cmap" and x.args[1] is not TRUE and not any(i.op == "star" for i in x.args[2]):
        n = const(len(x.args[2]))
        return mk("fn", "sum", mk("cmap", x.args[0], TRUE, (ite(x.args[1], n, const(0)),)))
    if x.op in ("list", "tuple", "set", "dict"):
        n = const(0)
        for i in x.args[0]:
            if isinstance(i, Node) and i.op == "star":
                n = _add(n, _length(i.args[0]))
            else:
                n = _add(n, const(1))
        return n
    if x.op == "const" and isinstance(cval(x), (str, bytes)):
        return const(len(cval(x)))
    if x.op == "cmap" and x.args[1] is TRUE:
        return mul(x.args[0], const(len(x.args[2])))
    if x.op == "range":
        return range_count(x)
    if x.op == "attr" and x.args[1] == "shape":
        return mk("ndim", x.args[0])
    return mk("len", x)


def range_count(r):
    a, b, s = r.args
    if is_num(s) and cval(s) == 1:
        return minmax("max", [sub_(b, a), const(0)]) if not _nonneg(sub_(b, a)) else sub_(b, a)
    if is_num(s) and cval(s) < 0:
        return _maybe_nonneg(ceildiv(sub_(a, b), neg(s)))
    return _maybe_nonneg(ceildiv(sub_(b, a), s))


def _nonneg(n):
    return True        # trip counts are only compared with each other


def _maybe_nonneg(n):
    return n


def subst(n, m, memo=None):
    """Substitute nodes (dict node->node), renormalising."""
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    if n in m:
        r = m[n]
    elif not any(True for _ in children(n)):
        r = n
    else:
        def rec(a):
            return tuple(subst(x, m, memo) if isinstance(x, Node) else (rec(x) if isinstance(x, tuple) else x) for x in a)
        if n.op in BINDERS:
            if not any(occurs(x, n) for x in m):
                memo[n.id] = n
                return n
            vs, level = bound_vars(n)
            fr = {v: fresh("r") for v in vs}
            m2 = {x: y for x, y in m.items() if x not in fr}
            opened = rec_args(n.args, fr)
            new = rec_args(opened, m2)
            r = reclose(n.op, new, list(fr.values()))
            memo[n.id] = r
            return r
        newargs = rec(n.args)
        if _hkey(newargs) == _hkey(n.args):
            r = n
        else:
            r = rebuild(n.op, newargs)
    memo[n.id] = r
    return r


REBUILD = {}


def rec_args(a, m):
    memo = {}

    def rec(a):
        return tuple(subst(x, m, memo) if isinstance(x, Node) else (rec(x) if isinstance(x, tuple) else x) for x in a)
    return rec(a)


def level_of(op, args):
    """nesting level naming the bound variables of a binder"""
    if op in ("cmap", "any", "first", "foreach"):
        return _height(args[1:]) + 1
    return _height(args[1:]) + 1        # fold: (count, body); lam: (n, body, extra)


def bound_vars(n):
    h = level_of(n.op, n.args)
    if n.op == "fold":
        return [sym("$b%d" % h)] + [sym("$c%d_%d" % (h, i)) for i in range(len(n.args[1]))], h
    if n.op == "lam":
        k = max(n.args[0], 1) + 2
        return [sym("$p%d_%d" % (h, i)) for i in range(k)], h
    return [sym("$b%d" % h)], h


REBIND = {}


def reclose(op, args, vs):
    f = REBIND.get(op)
    if f:
        r = f(args, vs)
        if r is not None:
            return r
    h = level_of(op, args)
    if op == "fold":
        names = [sym("$b%d" % h)] + [sym("$c%d_%d" % (h, i)) for i in range(len(vs) - 1)]
    elif op == "lam":
        names = [sym("$p%d_%d" % (h, i)) for i in range(len(vs))]
    else:
        names = [sym("$b%d" % h)]
    args = rec_args(args, dict(zip(vs, names)))
    return mk(op, *args)


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    # lift conditional operands of uninterpreted operators
    flat = []

    def collect(a):
        for x in a:
            if isinstance(x, Node):
                flat.append(x)
            elif isinstance(x, tuple):
                collect(x)
    collect(args)
    if op not in BINDERS and op not in ("ite", "box") and any(x.op == "ite" for x in flat):
        def f2(*xs):
            it = iter(xs)

            def re(a):
                return tuple(next(it) if isinstance(x, Node) else (re(x) if isinstance(x, tuple) else x) for x in a)
            return mk(op, *re(args))
        return lift(f2, *flat)
    return mk(op, *args)


def _re_poly(*items):
    tot = const(0)
    for m, c in items:
        t = const(c)
        for x, e in m:
            t = mul(t, pow_(x, const(e)) if e != 1 else x)
        tot = add(tot, t)
    return tot


def _re_ite(a, h, l):
    return ite(truth(a) if a.op != "ite" else a, h, l)


REBUILD.update({
    "poly": _re_poly,
    "ite": lambda a, h, l: ite(_atomise(a), h, l),
    "lt0": lambda d: lt(d, const(0)) if d.op != "cmp" else mk("lt0", d),
    "eq0": lambda d: eq(d, const(0)),
    "eq": lambda a, b: eq(a, b),
    "in": lambda a, b: contains(a, b),
    "truth": lambda a: truth(a),
    "floordiv": floordiv, "ceildiv": ceildiv, "mod": mod, "pow": pow_,
    "min": lambda xs: minmax("min", list(xs)), "max": lambda xs: minmax("max", list(xs)),
    "list": lambda xs: seq("list", xs), "tuple": lambda xs: seq("tuple", xs),
    "fstr": lambda xs: fstr(list(xs)),
    "len": length,
    "fn": lambda name, *xs: call1(name, xs[0]) if len(xs) == 1 else mk("fn", name, *xs),
    "box": lambda n: box(n),
    "paren": lambda n: mk("paren", n) if n.op == "poly" else n,
})


def _atomise(a):
    """After substitution an atom may have become a diagram or a constant."""
    if is_boolconst(a) or (a.op == "ite"):
        return truth(a)
    if a.op in BOOL_OPS:
        return atom(a)
    return truth(a)


def free_has(n, s):
    """does sym s occur in n"""
    return s.id in free_syms(n)


def free_syms(n):
    if n._free is None:
        if n.op == "sym":
            n._free = frozenset((n.id,))
        else:
            r = set()
            for c in children(n):
                r |= free_syms(c)
            n._free = frozenset(r)
    return n._free


# ---------------------------------------------------------------- display

def show(n, depth=7):
    def s(x, d):
        if not isinstance(x, Node):
            if isinstance(x, tuple):
                return "(" + ", ".join(s(y, d) for y in x) + ")"
            return str(x)
        if d <= 0:
            return "…"
        o, a = x.op, x.args
        if o == "const":
            v = a[0]
            return repr(v) if not isinstance(v, Fraction) else str(float(v))
        if o == "sym":
            return a[0]
        if o == "ext":
            return a[0]
        if o == "attr":
            return s(a[0], d - 1) + "." + a[1]
        if o == "ite":
            if a[1] is TRUE and a[2] is FALSE:
                return s(a[0], d)
            if a[1] is FALSE and a[2] is TRUE:
                return "not(" + s(a[0], d) + ")"
            return "(%s if %s else %s)" % (s(a[1], d - 1), s(a[0], d - 1), s(a[2], d - 1))
        if o == "poly":
            ts = []
            for m, c in a:
                f = []
                if c != 1 or not m:
                    f.append(str(c))
                for y, e in m:
                    f.append(s(y, d - 1) + ("" if e == 1 else "**%s" % e))
                ts.append("*".join(f))
            return "(" + " + ".join(ts) + ")"
        if o == "call":
            kw = ", ".join("%s=%s" % (k, s(v, d - 1)) for k, v in a[2])
            ar = ", ".join(s(y, d - 1) for y in a[1])
            return "%s(%s)" % (s(a[0], d - 1) if isinstance(a[0], Node) else a[0], ", ".join(t for t in (ar, kw) if t))
        if o == "sub":
            return "%s[%s]" % (s(a[0], d - 1), s(a[1], d - 1))
        if o == "slice":
            return ":".join("" if y is NONE else s(y, d - 1) for y in a)
        if o in ("tuple", "list"):
            return ("(%s)" if o == "tuple" else "[%s]") % ", ".join(s(y, d - 1) for y in a[0])
        if o == "record":
            return "%s{%s}" % (a[0].split(".")[-1], ", ".join("%s=%s" % (k, s(v, d - 1)) for k, v in a[1]))
        if o == "lt0":
            return s(a[0], d - 1) + "<0"
        if o == "eq0":
            return s(a[0], d - 1) + "==0"
        if o == "eq":
            return s(a[0], d - 1) + "==" + s(a[1], d - 1)
        return "%s(%s)" % (o, ", ".join(s(y, d - 1) for y in a))
    return s(n, depth)
