"""When are two different normal forms evidence of different behaviour?

Normal forms are complete only for the fragment their rewriting rules cover: equal terms mean equal
behaviour, different terms do not always mean different behaviour.  A difference is reported only if
it can be *explained*: aligning the two terms from the root, every place where they part is a
difference that no behaviour-preserving rewriting is known to bridge — another constant, variable,
coefficient, operator, argument, test, order or number of effects, a value-changing operation that
was added or removed.  Places that part in the way a value is written (another way of reshaping,
indexing, building a collection, catching an exception ...) are no evidence, and make the comparison
undecided.
"""
import time
from . import terms as T
from .terms import Node, NONE
from . import model as M

# operations that only lay out, select or build: a difference in them may be a different spelling
SHAPE = set("""view reshape flatten unflatten squeeze unsqueeze contiguous clone expand expand_as broadcast_to repeat tile
stack cat concat chunk split unbind movedim t new_zeros new_ones new_empty new_tensor new_full index_select gather one_hot
embedding meshgrid einsum matmul mm bmm unfold fold tolist item numpy numel size zeros_like ones_like full_like masked_fill
repeat_interleave block_diag diag narrow select scatter scatter_ index_add bincount nonzero argsort sort topk cumsum
searchsorted as_tensor tensor from_numpy where take_along_dim roll flip norm mse_loss l1_loss linear addmm baddbmm lerp
type type_as to float double half long int bool byte cpu""".split())

# term heads that stand for a way of writing something
WRITTEN = set("""getattr hasattr exc excval keyerr keyat enter unknown closure lamrec ver0 first box partial cmap any fold foreach
dictof dictmap dict_update setof set mlist unml star zip enumerate reversed repeat range items keys values copy store
dict record lam where fmt strfmt fstr str paren shift mutate class func bound super superof ns v truth in bit inplace
isinstance len ndim slice""".split())

# of these, the ones read as what they are when two formulas are compared at points
INTERPRETED = set("len where truth isinstance dict record cmap any slice in lam func class bound str fstr".split())

CAST = set("to float double half long int bool byte cpu".split())
FILL = set("ones_like zeros_like full_like new_ones new_zeros ones zeros full expand repeat tensor as_tensor".split())

LEAF = ("const", "sym", "ext", "enum")

# constructs the normal form does not see through
ODD = set("exc excval unknown closure lamrec getattr keyerr enter partial super first".split())


def private(n):
    return any(isinstance(a, str) and a.split(".")[-1].startswith("_") for a in n.args)



def is_leaf(n):
    while n.op == "attr" and n.args[1] not in META:
        n = n.args[0]
    return n.op in LEAF


META = ("shape", "device", "dtype", "ndim", "T", "mT")


def head(n):
    """comparable head of a term, or None"""
    if n.op == "call":
        f = n.args[0]
        return ("call", f) if isinstance(f, str) else ("call", f.op, f.args if f.op == "ext" else f.args[1] if f.op == "attr" else None)
    if n.op == "fn":
        return ("fn", n.args[0])
    if n.op == "attr":
        return ("attr",)
    return (n.op,)


def fname(n):
    """name of the operation a term applies"""
    if n.op == "call":
        f = n.args[0]
        if isinstance(f, str):
            return f.split(":")[-1]
        if f.op == "ext":
            return f.args[0].split(".")[-1]
        if f.op == "attr":
            return f.args[1]
        return "()"
    if n.op == "fn":
        return n.args[0]
    if n.op == "attr":
        return "." + n.args[1]
    return n.op


def layout(n):
    """does the head of the term only lay out / select / build"""
    nm = fname(n)
    return nm in SHAPE or n.op in WRITTEN or (n.op == "attr" and n.args[1] in META)


class Explainer:
    """pairs: (verdict, reason, code term, required term); verdict True: evidence, False: written differently,
    None: a consequence of other differences (the shape of a value that differs), neither"""

    def __init__(self, code, spec, limit=4000, ids=None):
        self.pairs = []           # (conclusive, reason, code term, required term)
        self.seen = set()
        self.inpoly = 0
        self.tries = 0
        self.steps = limit
        self.until = time.time() + 12
        self.code_ids, self.spec_ids = ids or (_ids(code), _ids(spec))
        self.walk(code, spec)

    def out(self, ok, why, x, y):
        self.pairs.append((ok, why, x, y))

    @property
    def conclusive(self):
        return any(p[0] for p in self.pairs) and all(p[0] is not False for p in self.pairs)

    def odd(self, n, mine):
        """a term containing constructs, absent from the other side, that the normal form does not see through"""
        other = self.spec_ids if mine else self.code_ids
        todo, seen = [n], set()
        while todo:
            x = todo.pop()
            if x.id in seen or x.id in other:
                continue
            seen.add(x.id)
            if x.op in ODD or (x.op in ("func", "class") and private(x)):
                return x
            todo.extend(T.children(x))
        return None

    # ------------------------------------------------------------------ alignment
    def walk(self, x, y):
        if x is y:
            return
        if not isinstance(x, Node) or not isinstance(y, Node):
            if isinstance(x, tuple) and isinstance(y, tuple):
                return self.seq(x, y)
            if x != y:
                self.out(True, "%r for %r" % (x, y), T.const(str(x)), T.const(str(y)))
            return
        k = (x.id, y.id)
        if k in self.seen:
            return
        self.seen.add(k)
        self.steps -= 1
        if self.steps < 0 or time.time() > self.until:
            return self.out(False, "too large to align", x, y)
        if x.op in ("then", "nil") and y.op in ("then", "nil"):
            return self.effects(x, y)
        if x.op == "ite" or y.op == "ite":
            return self.diagram(x, y)
        if x.op == "poly" or y.op == "poly" or x.op == "fn" or x.op == "where":
            self.inpoly += 1
            try:
                if x.op == "poly" or y.op == "poly":
                    return self.poly(x, y)
                return self.same_head(x, y) if head(x) == head(y) else self.mismatch(x, y)
            finally:
                self.inpoly -= 1
        if head(x) == head(y):
            return self.same_head(x, y)
        self.mismatch(x, y)

    def permuted(self, x, y):
        """the same elements in another order"""
        if any(p is not q for p, q in zip(x, y)) and all(isinstance(p, Node) for p in x) and sorted(p.id for p in x) == sorted(q.id for q in y):
            return True
        return False

    def same_head(self, x, y):
        if x.op == "attr":
            a, b = x.args[1], y.args[1]
            if a != b:
                if x.args[0] is y.args[0] and not ({a, b} & set(META)):
                    return self.out(not a.startswith("_") or not b.startswith("_"), "attribute %s for %s" % (a, b), x, y)
                return self.mismatch(x, y)
            if a in META and x.args[0] is not y.args[0]:
                return self.out(True if is_leaf(x.args[0]) and is_leaf(y.args[0]) else None, "%s of another value" % a, x, y)
            return self.walk(x.args[0], y.args[0])
        if x.op == "call":
            n = len(self.pairs)
            if isinstance(x.args[0], Node):
                f, g = x.args[0], y.args[0]
                if f.op == "attr" and g.op == "attr":
                    self.walk(f.args[0], g.args[0])
                else:
                    self.walk(f, g)
            if len(x.args[1]) != len(y.args[1]):
                kx, ky = set(k for k, _ in x.args[2]), set(k for k, _ in y.args[2])
                if (len(x.args[1]) - len(y.args[1])) * (len(kx) - len(ky)) < 0:
                    return self.out(False, "arguments by position or by name", x, y)
                return self.mismatch(x, y)
            kx, ky = dict(x.args[2]), dict(y.args[2])
            if set(kx) == set(ky) and not any(k[0] == "@" for k in kx):
                ax, ay = x.args[1] + tuple(kx[k] for k in sorted(kx)), y.args[1] + tuple(ky[k] for k in sorted(ky))
                if self.permuted(ax, ay) and not layout(x):
                    return self.out(True, "arguments exchanged", x, y)
            for p, q in zip(x.args[1], y.args[1]):
                self.walk(p, q)
            for k in sorted(set(kx) | set(ky)):
                if k in kx and k in ky:
                    if k[0] == "@":
                        if kx[k] is not ky[k]:
                            self.out(None, "state", x, y)
                    elif layout(x) and fname(x) in ("view", "reshape") and kx[k] is not ky[k]:
                        self.sizes(kx[k], ky[k])
                    else:
                        self.walk(kx[k], ky[k])
                elif k[0] == "@":
                    self.out(None, "state", x, y)
                else:
                    self.out(True, "argument %s %s" % (k, "added" if k in kx else "dropped"), x, y)
            return
        if x.op == "const":
            p, q = x.args[0], y.args[0]
            if all(isinstance(v, int) and not isinstance(v, bool) for v in (p, q)) and (p < 0) != (q < 0):
                return self.out(False, "counted from the other end", x, y)
            return self.out(True, "constant", x, y)
        if x.op in ("sym", "ext", "enum"):
            return self.out(True, "operand", x, y)
        if x.op == "func":
            pub = all(isinstance(n.args[0], str) and not n.args[0].split(".")[-1].startswith("_") for n in (x, y))
            return self.out(pub, "function", x, y)
        if x.op in ("class", "closure", "alloc"):
            return self.out(False, x.op, x, y)
        if x.op in ("cmap", "fold", "foreach", "any", "lam", "first", "dictmap") and len(_flat(x.args)) != len(_flat(y.args)):
            return self.mismatch(x, y)
        if x.op in ("min", "max") and isinstance(x.args[0], tuple):
            return self.multiset(x, y, x.args[0], y.args[0])
        self.seq(x.args, y.args, x, y)

    def sizes(self, x, y):
        """another target shape: only evidence when it is made of the same kind of entries"""
        n = len(self.pairs)
        self.walk(x, y)
        for i in range(n, len(self.pairs)):
            p = self.pairs[i]
            if p[0] and (p[2].op == "const") != (p[3].op == "const"):
                self.pairs[i] = (False,) + p[1:]

    def multiset(self, x, y, a, b):
        a2, b2 = [n for n in a if n not in b], [n for n in b if n not in a]
        if not a2 or not b2:
            return self.out(True, "operand added or dropped", x, y)
        if len(a2) != len(b2):
            return self.out(False, "operands", x, y)
        self.pairup(a2, b2)

    def pairup(self, a, b):
        """align two small sets of terms, nearest first"""
        a, b = list(a), list(b)
        while a and b:
            i, j = max(((i, j) for i in range(len(a)) for j in range(len(b))), key=lambda ij: near(a[ij[0]], b[ij[1]]))
            self.walk(a.pop(i), b.pop(j))
        return a, b

    def seq(self, x, y, px=None, py=None):
        if len(x) == len(y):
            if self.permuted(x, y) and (px is None or px.op in ("tuple", "list", "where", "sub", "pow")):
                return self.out(True, "order", px or x[0], py or y[0])
            for p, q in zip(x, y):
                self.walk(p, q)
            return
        px = px or next((n for n in _flat(x)), NONE)
        py = py or next((n for n in _flat(y)), NONE)
        a, b = [n for n in x if n not in y], [n for n in y if n not in x]
        stars = any(isinstance(n, Node) and n.op in ("star", "ite") for n in list(x) + list(y))
        if not stars and (not a or not b):
            return self.out(True, "element added or dropped", px, py)
        if not stars and all(isinstance(n, Node) and (built(n) or n.op == "call") for n in list(x) + list(y)):
            return self.out(True, "elements", px, py)
        return self.out(False, "sequences", px, py)

    # ------------------------------------------------------------------ arithmetic
    def poly(self, x, y):
        a, b = dict(T._as_poly(x)), dict(T._as_poly(y))
        am = {m: c for m, c in a.items() if b.get(m) != c}
        bm = {m: c for m, c in b.items() if a.get(m) != c}
        both = [m for m in am if m in bm]
        for m in both:
            am.pop(m), bm.pop(m)
            self.out(True, "coefficient", x, y)
        if not am or not bm:
            if am or bm:
                odd = [t for m in (am or bm) for t, e in m if fname(t) in FILL or t.op in ("mod", "floordiv", "ceildiv")]
                self.out(not odd, "term added or dropped", x, y)
            return
        r = rational(x, y)
        if r is not None:
            return self.out(True, "formula", x, y) if r else None
        # a factored and an expanded form may denote the same value
        if len(am) != len(bm):
            fa, fb = set(t for m in am for t, e in m), set(t for m in bm for t, e in m)
            A, B = fa - fb, fb - fa
            known = set(t for m in list(a) + list(b) for t, e in m)
            if not A or not B:
                # polynomials over the same operands (or fewer): the same only if equal
                bad = [t for t in A | B if fname(t) in FILL or t.op in ("mod", "floordiv", "ceildiv", "fn", "pow")]
                return self.out(not bad, "sum", x, y)
            return self.out(self.parted(x, y), "sums of different terms", x, y)
        ka, kb = list(am), list(bm)
        while ka:
            i, j = max(((i, j) for i in range(len(ka)) for j in range(len(kb))), key=lambda ij: near_m(ka[ij[0]], kb[ij[1]]))
            m, n = ka.pop(i), kb.pop(j)
            if am[m] != bm[n]:
                self.out(True, "coefficient", x, y)
            fm, fn = [t for t in m if t not in n], [t for t in n if t not in m]
            dm, dn = dict(fm), dict(fn)
            for t in list(dm):
                if t in dn:
                    self.out(True, "exponent", x, y)
                    dm.pop(t), dn.pop(t)
            if not dm or not dn:
                if dm or dn:
                    self.out(not any(fname(t) in FILL for t in (dm or dn)), "factor added or dropped", x, y)
                continue
            if len(dm) != len(dn):
                self.out(self.parted(x, y), "products of different factors", x, y)
                continue
            if sorted(dm.values()) != sorted(dn.values()):
                self.out(True, "exponent", x, y)
            self.pairup(dm, dn)

    # ------------------------------------------------------------------ decisions
    def diagram(self, x, y):
        if x.op == "ite" and y.op == "ite" and x.args[0] is y.args[0] and x.args[1] is y.args[2] and x.args[2] is y.args[1]:
            return self.out(True, "cases exchanged", x, y)
        ax, ay = T.atoms_of(x), T.atoms_of(y)
        ox = sorted((a for a in ax if a not in ay), key=T.atom_order)
        oy = sorted((a for a in ay if a not in ax), key=T.atom_order)
        m = {}
        if ox and oy:
            # changed tests: the same decision on another condition?
            while ox and oy:
                a, b = max(((a, b) for a in ox for b in oy), key=lambda p: near(*p))
                if near(a, b) < 4 and not (len(ox) == len(oy) == 1):
                    break
                m[a] = b
                ox.remove(a)
                oy.remove(b)
                self.atom(a, b)
            if not m or len(m) > 4:
                return self.out(False, "different tests", x, y)
        for a in ox:
            if not plain_test(a) or self.odd(a, True):
                return self.out(False, "test added", x, y)
        if ox and oy:
            return self.out(False, "different tests", x, y)
        if m:
            try:
                x2 = T.subst(x, m)
            except RecursionError:
                x2 = None
            if x2 is None or x2 is x or not T.atoms_of(x2) <= set(ay) | set(ox):
                return self.out(False, "tests", x, y)
            x = x2
        self.cases(x, y)

    def atom(self, a, b):
        if a.op == b.op == "lt0":
            pa, pb = T._poly_parts(a.args[0]), T._poly_parts(b.args[0])
            if pa and pb and pa[1] is pb[1]:
                return self.out(True, "bound", a, b)
        if {a.op, b.op} == {"lt0", "eq0"} or {a.op, b.op} == {"lt0", "eq"}:
            pa, pb = T._poly_parts(a.args[0]), T._poly_parts(b.args[0])
            if pa and pb and pa[1] is pb[1]:
                return self.out(True, "comparison", a, b)
        if {a.op, b.op} == {"eq", "eq0"} and a.args[0] is b.args[0]:
            return self.out(True, "compared constant", a, b)
        if a.op == b.op == "eq" and a.args[0] is b.args[0] and T.is_constlike(a.args[1]) and T.is_constlike(b.args[1]):
            return self.out(True, "compared constant", a, b)
        n = len(self.pairs)
        self.walk(a, b)
        if any(p[0] is False for p in self.pairs[n:]) and not self.odd(a, True) and not self.odd(b, False) and self.parted(a, b):
            self.pairs[n:] = [(True, "another condition", a, b)]

    def cases(self, x, y, depth=0):
        """pair the leaves reached under the same outcomes of all tests"""
        if x is y:
            return
        self.steps -= 1
        if self.steps < 0 or depth > 40:
            return self.out(False, "too large to align", x, y)
        if x.op != "ite" and y.op != "ite":
            return self.leafpair(x, y)
        tops = [n.args[0] for n in (x, y) if n.op == "ite"]
        t = min(tops, key=T.atom_order)
        k = (x.id, y.id, "c")
        if k in self.seen:
            return
        self.seen.add(k)
        for v in (True, False):
            self.cases(T.restrict(x, t, v), T.restrict(y, t, v), depth + 1)

    def leafpair(self, x, y):
        term = ("raise", "noreturn", "n/a", "unset", "undef")
        if x.op in term or y.op in term:
            if self.odd(x, True) or self.odd(y, False):
                return self.out(False, "outcome", x, y)
            return self.out(True, "outcome", x, y)
        if T.is_boolconst(x) and T.is_boolconst(y):
            return self.out(True, "condition", x, y)
        self.walk(x, y)

    # ------------------------------------------------------------------ effects
    def effects(self, x, y):
        a, b = chain(x), chain(y)
        n, m = len(a), len(b)
        L = [[0] * (m + 1) for _ in range(n + 1)]
        for i in range(n - 1, -1, -1):
            for j in range(m - 1, -1, -1):
                L[i][j] = L[i + 1][j + 1] + 1 if a[i] is b[j] else max(L[i + 1][j], L[i][j + 1])
        i = j = 0
        ga, gb = [], []

        def flush():
            if not ga and not gb:
                return
            if ga and gb:
                if len(ga) == len(gb):
                    for p, q in zip(ga, gb):
                        self.walk(p, q)
                else:
                    # in order, nearest first; what is left over was added or dropped
                    big, small = (ga, gb) if len(ga) > len(gb) else (gb, ga)
                    best = nearest(big, small)
                    used = set(best)
                    for k, e in zip(best, small):
                        self.walk(*((big[k], e) if big is ga else (e, big[k])))
                    for k, e in enumerate(big):
                        if k not in used:
                            e2 = e.args[0] if e.op == "eff" else e
                            self.out(e2.op not in ("foreach", "store", "unknown") and not self.odd(e2, big is ga), "effect %s" % ("added" if big is ga else "missing"), e, e)
            else:
                for e in ga or gb:
                    e2 = e.args[0] if e.op == "eff" else e
                    self.out(e2.op not in ("store", "unknown") and not self.odd(e2, bool(ga)), "effect %s" % ("added" if ga else "missing"), e, e)
            ga.clear()
            gb.clear()
        while i < n or j < m:
            if i < n and j < m and a[i] is b[j]:
                flush()
                i, j = i + 1, j + 1
            elif j >= m or (i < n and L[i + 1][j] >= L[i][j + 1]):
                ga.append(a[i])
                i += 1
            else:
                gb.append(b[j])
                j += 1
        flush()

    # ------------------------------------------------------------------ different heads
    def mismatch(self, x, y):
        for p, q in ((x, y), (y, x)):
            p = bare(p)
            q = bare(q)
            if p.op == "repeat" and q.op == "cmap" and q.args[1] is T.TRUE and p.args[1] is q.args[0] and bare(p.args[0]).op in ("list", "tuple"):
                a, b = bare(p.args[0]).args[0], tuple(q.args[2])
                if a == b and any(identity(i) for i in a):
                    return self.out(True, "one object repeated for as many objects" if q is bare(y) else "as many objects for one repeated", x, y)
        if any(n.op == "attr" and n.args[1] in META or n.op in ("v", "ver0") for n in (x, y)):
            return self.out(None, "%s for %s" % (fname(x), fname(y)), x, y)
        if self.odd(x, True) or self.odd(y, False):
            return self.out(False, "construct", x, y)
        if is_leaf(x) and is_leaf(y):
            return self.out(True, "operand", x, y)
        if x is NONE or y is NONE:
            return self.out(True, "value", x, y)
        term = ("raise", "noreturn", "n/a", "unset", "undef")
        if x.op in term or y.op in term:
            return self.leafpair(x, y)
        for big, small in ((x, y), (y, x)):
            if T.occurs(small, big) and not small.op == "const":
                p = path(big, small)
                if p is not None:
                    lay = [n for n in p if layout(n) and fname(n) not in CAST and n.op not in ("where", "len") and not picks(n) and not (fname(n) in ("unsqueeze", "stack") and not self.inpoly)]
                    return self.out(not lay or bool(self.inpoly) and self.parted(x, y), "%s %s" % (fname(p[0]), "added" if big is x else "dropped"), x, y)
        if built(x) and built(y):
            return self.out(True, "%s for %s" % (built(x), built(y)), x, y)
        x1, y1 = outcome_of(x), outcome_of(y)
        if (x1 is not x or y1 is not y) and not layout(x1) and not layout(y1) and x1.op in ("call", "fn") and y1.op in ("call", "fn") and fname(x1) != fname(y1) and operands(x1) & operands(y1):
            return self.out(True, "operation %s for %s" % (fname(x1), fname(y1)), x, y)
        if not layout(x) and not layout(y):
            if x.op in ("call", "fn") and y.op in ("call", "fn") and operands(x) & operands(y):
                return self.out(True, "operation %s for %s" % (fname(x), fname(y)), x, y)
        if x.op in ("min", "max") and y.op in ("min", "max") and set(x.args[0]) == set(y.args[0]):
            return self.out(True, "%s for %s" % (x.op, y.op), x, y)
        # a computed value replaced by a constant, variable or attribute (or the reverse)
        for p, q in ((x, y), (y, x)):
            if is_leaf(p) and not layout(q):
                return self.out(True, "value", x, y)
        self.out(self.inpoly and self.parted(x, y), "%s for %s" % (fname(x), fname(y)), x, y)

    def parted(self, x, y):
        """a point at which two formulas at the same place differ"""
        self.tries += 1
        if self.tries > 12 or time.time() > self.until:
            return False
        return M.apart(x, y, SHAPE, ODD | WRITTEN - INTERPRETED, is_leaf, fname, 40, 0.5) is not None


class _Big(Exception):
    pass


def _expand(p, limit=400):
    """a polynomial term as (numerator, denominator) over its innermost factors"""
    def mulp(a, b):
        out = {}
        if len(a) * len(b) > limit:
            raise _Big
        for m, c in a.items():
            for n, d in b.items():
                e = dict(m)
                for t, k in n:
                    e[t] = e.get(t, 0) + k
                k = frozenset((t, v) for t, v in e.items() if v)
                out[k] = out.get(k, 0) + c * d
        return {k: v for k, v in out.items() if v}

    def addp(a, b):
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + c
        return {k: v for k, v in out.items() if v}

    def powp(a, n):
        r = {frozenset(): 1}
        for _ in range(n):
            r = mulp(r, a)
        return r
    one = {frozenset(): 1}
    if p.op != "poly":
        if T.is_num(p):
            return {frozenset(): T.cval(p)} if T.cval(p) else {}, one
        return {frozenset(((p, 1),)): 1}, one
    num, den = {}, one
    for m, c in dict(T._as_poly(p)).items():
        tn, td = {frozenset(): c}, one
        for t, e in m:
            if isinstance(e, Node) or e != int(e):
                b = ({frozenset(((t, e),)): 1}, one)
                k = 1
            else:
                b = _expand(t, limit) if t.op == "poly" else ({frozenset(((t, 1),)): 1}, one)
                k = int(e)
            if abs(k) > 6:
                raise _Big
            a, d = (b if k > 0 else b[::-1])
            tn, td = mulp(tn, powp(a, abs(k))), mulp(td, powp(d, abs(k)))
        num, den = addp(mulp(num, td), mulp(tn, den)), mulp(den, td)
    return num, den


def rational(x, y):
    """are two formulas over the same operands different?  None: not over the same operands"""
    try:
        (a, b), (c, d) = _expand(x), _expand(y)
    except _Big:
        return None
    fa, fb = set(t for p in (a, b) for m in p for t, e in m), set(t for p in (c, d) for m in p for t, e in m)
    if fa - fb and fb - fa:
        return None
    for t in fa | fb:
        if fname(t) in FILL or t.op in ("mod", "floordiv", "ceildiv", "pow", "powc", "where", "min", "max", "bool", "ite"):
            return None
        if t in (fa ^ fb) and t.op == "fn":
            return None
        if not isinstance(t, Node):
            return None
    try:
        def mulp(p, q):
            out = {}
            if len(p) * len(q) > 4000:
                raise _Big
            for m, u in p.items():
                for n, v in q.items():
                    e = dict(m)
                    for t, k in n:
                        e[t] = e.get(t, 0) + k
                    k = frozenset((t, w) for t, w in e.items() if w)
                    out[k] = out.get(k, 0) + u * v
            return {k: v for k, v in out.items() if v}
        return mulp(a, d) != mulp(c, b)
    except _Big:
        return None


def outcome_of(n):
    """the call of a part of the model of which n is one result"""
    if n.op == "sub" and n.args[1].op == "const" and n.args[0].op == "call" and isinstance(n.args[0].args[0], Node) and n.args[0].args[0].op == "attr":
        return n.args[0]
    return n


def picks(n):
    """an index that selects (not a slice of everything, not a new axis)"""
    if n.op != "sub":
        return False
    i = n.args[1]
    parts = i.args[0] if i.op == "tuple" and isinstance(i.args[0], tuple) else i.args if i.op == "tuple" else (i,)
    return any(isinstance(p, Node) and p.op not in ("slice", "const") or p.op == "const" and isinstance(p.args[0], int) or p.op == "slice" and bounded(p) for p in parts if isinstance(p, Node))


def bounded(p):
    """a slice whose bounds are data, not the extent of something"""
    todo, seen, any_ = [q for q in p.args if isinstance(q, Node)], set(), False
    for q in todo:
        any_ = any_ or not T.is_constlike(q)
    while todo:
        q = todo.pop()
        if q.id in seen:
            continue
        seen.add(q.id)
        if q.op in ("len", "ndim") or q.op == "attr" and q.args[1] in META or fname(q) in ("size", "numel", "dim"):
            return False
        todo.extend(T.children(q))
    return any_


BRIDGED = set("""log log1p exp expm1 sigmoid softplus tanh sqrt rsqrt abs pow clamp relu maximum minimum square sign floor ceil round
mul add sub div sum mean prod any all softmax log_softmax logsigmoid min max device Size size finfo iinfo eps pi log2 log10 exp2 float32 int64
erf erfc ndtr eye arange linspace triu tril ones zeros full empty no_grad dict_items open read read_bytes read_text format close zfill join""".split())
SHAPED = set("len new_zeros new_ones new_empty new_full new_tensor zeros_like ones_like full_like empty_like rand_like randn_like numel size dim ndim isinstance".split())


def support(n):
    """what a value is computed from: variables, submodules, functions whose meaning is left open"""
    out, seen, todo = set(), set(), [n]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "attr" and x.args[1] in META or fname(x) in SHAPED and x.op in ("call", "len", "ndim", "isinstance"):
            continue
        if x.op == "attr" and is_leaf(x):
            r = x
            while r.op == "attr":
                r = r.args[0]
            if r.op == "const":
                continue
            if not str(r.args[0]).startswith("$"):
                out.add(T.show(x, 9) if hasattr(T, "show") else str(x))
            continue
        if x.op == "sym":
            if not str(x.args[0]).startswith("$"):
                out.add(str(x.args[0]))
            continue
        if x.op == "func":
            if not private(x):
                out.add("%s()" % x.args[0].split(".")[-1])
            continue
        if x.op == "fn" and x.args[0] not in BRIDGED and x.args[0] not in SHAPE:
            out.add(x.args[0])
        if x.op == "call":
            f = x.args[0]
            nm = fname(x)
            if not isinstance(f, str) and nm not in BRIDGED and nm not in SHAPE and nm != "()":
                if f.op == "ext" or f.op == "attr" and not is_leaf(f):
                    out.add("%s()" % nm)
        todo.extend(T.children(x))
    return out


def repair(code, spec, rounds=4, tries=150):
    """constructs of the code whose replacement by what the contract has there makes the code meet it exactly"""
    steps = []
    cur = code
    for _ in range(rounds):
        ci, si = _ids(cur), _ids(spec)
        C, S = _only(cur, si), _only(spec, ci)
        if not C or not S:
            return None
        cand = sorted(((hc + hs, c, s) for c, hc in C for s, hs in S if hc <= 3 and hs <= 3 and c.op not in ("nil", "ver0")), key=lambda t: (t[0], -near(t[1], t[2]), t[1].id, t[2].id))
        done = None
        best = len(ci - si)
        for h, c, s in cand[:tries]:
            if c.op in ("star", "eff", "then") or s.op in ("star", "eff", "then"):
                continue
            e = Explainer(c, s, 300, ids=(ci, si))
            if not e.conclusive:
                continue
            try:
                new = T.subst(cur, {c: s})
            except Exception:
                continue
            if new is spec:
                return steps + [e.pairs]
            left = len(_ids(new) - si)
            if left < best:
                best, done = left, (new, e.pairs)
        if done is None:
            return None
        cur = done[0]
        steps.append(done[1])
    return None


def bare(n):
    """without wrappers that only spread a sequence"""
    if isinstance(n, Node):
        while True:
            if n.op in ("list", "tuple") and len(n.args[0]) == 1 and n.args[0][0].op == "star":
                n = n.args[0][0].args[0]
            elif n.op in ("star", "mlist"):
                n = n.args[0]
            else:
                return n
    return T.NONE


def identity(n):
    """a new object that can change (a module, a parameter)"""
    return n.op == "newobj" or n.op == "call" and isinstance(n.args[0], Node) and n.args[0].op == "ext" and n.args[0].args[0].startswith("torch.nn.") and not n.args[0].args[0].startswith("torch.nn.functional")


def stripped(n):
    """the value alone, whatever gradients flow through"""
    m = {}
    for x in M._nodes(n).values():
        if x.op == "ng":
            m[x] = x.args[0]
    for _ in range(6):
        if not m:
            return n
        n = T.subst(n, m)
        m = {x: x.args[0] for x in M._nodes(n).values() if x.op == "ng"}
    return n if not m else None


def pushed(n):
    """the gradient stopped at the operands instead of at the results"""
    for _ in range(12):
        m = {}
        for x in M._nodes(n).values():
            if x.op == "ng":
                y = _push(x.args[0])
                if y is not None and y is not x:
                    m[x] = y
        if not m:
            return n
        n = T.subst(n, m)
    return None


def _push(x):
    def stop(v):
        from . import interp as I
        return I.ng(v)

    def rec(a):
        return tuple(stop(y) if isinstance(y, Node) else rec(y) if isinstance(y, tuple) else y for y in a)
    if x.op == "poly":
        return T.rebuild("poly", tuple((tuple((stop(t), e) for t, e in m), c) for m, c in x.args))
    if x.op == "fn":
        return T.rebuild("fn", (x.args[0],) + tuple(stop(y) for y in x.args[1:]))
    if x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith("t:"):
        return T.rebuild("call", (x.args[0], rec(x.args[1]), tuple((k, stop(v)) for k, v in x.args[2])))
    if x.op == "sub":
        return T.rebuild("sub", (stop(x.args[0]), x.args[1]))
    if x.op in ("min", "max", "paren", "pow", "powc"):
        return T.rebuild(x.op, rec(x.args))
    if x.op == "where":
        return T.rebuild("where", (x.args[0], stop(x.args[1]), stop(x.args[2])))
    return None


def gradient(code, spec):
    """the same values, with gradients flowing to other operands"""
    if not any(x.op == "ng" for t in (code, spec) for x in M._nodes(t).values()):
        return False
    if stripped(code) is None or stripped(code) is not stripped(spec):
        return False
    a, b = pushed(code), pushed(spec)
    return a is not None and b is not None and a is not b


def _only(n, other):
    """nodes of n absent from the other term, with their height above the shared ones"""
    h = {}

    def go(x):
        if x.id in other:
            return -1
        if x.id in h:
            return h[x.id][1]
        h[x.id] = (x, 0)
        v = max([go(c) for c in T.children(x)], default=-1) + 1
        h[x.id] = (x, v)
        return v
    go(n)
    return list(h.values())


def _ids(n):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x.id not in seen:
            seen.add(x.id)
            todo.extend(T.children(x))
    return seen


def _flat(a):
    out = []
    for x in a:
        if isinstance(x, tuple):
            out.extend(_flat(x))
        else:
            out.append(x)
    return out


def operands(n):
    out = set(c.id for c in T.children(n) if c.op not in ("const", "ext"))
    if n.op == "call" and isinstance(n.args[0], Node) and n.args[0].op == "attr":
        out.add(n.args[0].args[0].id)
    return out


CONTAINERS = ("Sequential", "ModuleList", "ModuleDict", "Identity")


def built(n):
    """a module constructed in place (not a container)"""
    if n.op == "newobj":
        return n.args[0].split(".")[-1]
    if n.op == "call" and isinstance(n.args[0], Node) and n.args[0].op == "ext":
        nm = n.args[0].args[0].split(".")[-1]
        return nm if nm[:1].isupper() and nm not in CONTAINERS[:3] else None
    return None


def chain(n):
    out = []
    while n.op == "then":
        out.append(n.args[1])
        n = n.args[0]
    return out[::-1]


def nearest(big, small):
    """positions in big of an order-preserving matching of small"""
    from functools import lru_cache

    @lru_cache(None)
    def go(i, j):
        if j == len(small):
            return 0, ()
        if i == len(big):
            return -10 ** 6, ()
        skip = go(i + 1, j)
        t = go(i + 1, j + 1)
        take = (t[0] + near(big[i].args[0] if big[i].op == "eff" else big[i], small[j].args[0] if small[j].op == "eff" else small[j]), (i,) + t[1])
        return max(skip, take, key=lambda r: r[0])
    return go(0, 0)[1]


def eff_head(e):
    return head(e.args[0]) if e.op == "eff" else e.op


def path(big, small):
    """heads between a term and one of its subterms"""
    out = []
    n = big
    while n is not small:
        if n.op == "ite":
            pass
        out.append(n)
        nxt = [c for c in T.children(n) if T.occurs(small, c)]
        if not nxt:
            return None
        n = nxt[0]
    return out


def near(a, b):
    """similarity of two terms"""
    if a is b:
        return 100
    s = 0
    if head(a) == head(b):
        s += 4
    ca, cb = set(c.id for c in T.children(a)), set(c.id for c in T.children(b))
    s += 3 * len(ca & cb)
    s += len(T.free_syms(a) & T.free_syms(b)) / (1 + len(T.free_syms(a) | T.free_syms(b)))
    if T.occurs(a, b) or T.occurs(b, a):
        s += 3
    return s


def near_m(m, n):
    s = 5 * len(set(m) & set(n)) - abs(len(m) - len(n))
    return s + max([near(a, b) for a, _ in m for b, _ in n], default=0)


def plain_test(a):
    """a test whose meaning the normal form captures"""
    if a.op in ("eq", "eq0", "lt0"):
        return True
    if a.op == "truth":
        return is_leaf(a.args[0])
    if a.op == "isinstance":
        return True
    return False


class Verdict:
    def __init__(self, conclusive, why):
        self.conclusive, self.why = conclusive, why


def explain(code, spec):
    try:
        w = M.apart(code, spec, SHAPE, ODD | WRITTEN - INTERPRETED, is_leaf, fname)
        if w is not None:
            return Verdict(True, w)
        if gradient(code, spec):
            return Verdict(True, "gradient flows to other operands")
        e = Explainer(code, spec)
        if e.conclusive:
            return Verdict(True, ", ".join(sorted(set(p[1] for p in e.pairs))[:4]))
        why = ", ".join(sorted(set(p[1] for p in e.pairs if not p[0]))[:4])
        if not e.odd(code, True):
            a, b = support(code), support(spec)
            if a != b:
                return Verdict(True, "; ".join(([] if b <= a else ["does not depend on " + ", ".join(sorted(b - a)[:4])]) + ([] if a <= b else ["depends on " + ", ".join(sorted(a - b)[:4])])))
        r = repair(code, spec)
        if r is not None:
            return Verdict(True, ", ".join(sorted(set(p[1] for ps in r for p in ps))[:4]))
        return Verdict(False, why)
    except RecursionError:
        return None
