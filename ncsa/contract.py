"""Contracts: a specification function is reduced to the same normal form as the code it
constrains, and the two summaries are compared facet by facet.  Specification files are
parsed, never imported or executed."""
import ast
import itertools
import os
import signal
import time

from . import terms as T
from . import interp as I
from . import kb
from . import aliases as A
from . import explain as X
from .terms import mk, const, sym, ite, b_and, b_or, b_not, TRUE, FALSE, NONE, lift
from .repo import ClassDef, FuncDef, Ext


AnchorError = I.AnchorError


class Contract:
    def __init__(self, mod, node, opts, pid):
        self.mod, self.node, self.opts, self.pid = mod, node, opts, pid
        self.name = node.name
        self.target = opts["target"]
        self.facets = tuple(opts.get("facets", ("outcome", "effects", "attrs")))
        self.doc = (ast.get_docstring(node) or "").strip().replace("\n", " ")
        self.cases = opts.get("cases") or [{}]
        self.ints = opts.get("ints", ())
        self.rank = opts.get("rank")
        self.ranks = opts.get("ranks", {})
        self.fields = opts.get("fields")
        self.only_attrs = opts.get("only")
        self.assume = opts.get("assume")
        self.no_inline = tuple(opts.get("opaque", ()))
        self.defaults = opts.get("defaults", True)


def load(repo, path, pid):
    name = "spec:" + os.path.basename(path)[:-3]
    mod = repo.add_module(name, path)
    mod.project = ""
    out = []
    consts = {}

    def lit(e):
        if isinstance(e, ast.Name):
            return consts[e.id]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return lit(e.left) + lit(e.right)
        if isinstance(e, ast.Tuple):
            return tuple(lit(x) for x in e.elts)
        return ast.literal_eval(e)
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            try:
                consts[s.targets[0].id] = lit(s.value)
            except (ValueError, KeyError):
                continue
    mod.project = consts.get("PROJECT", "")
    for s in mod.tree.body:
        if not isinstance(s, ast.FunctionDef):
            continue
        for d in s.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                opts = {k.arg: lit(k.value) for k in d.keywords}
                opts["target"] = lit(d.args[0])
                out.append(Contract(mod, s, opts, pid))
    return out


class Summary:
    def __init__(self):
        self.outcome = None
        self.effects = {}
        self.trace = None
        self.attrs = {}
        self.unknowns = []
        self.bounded = []
        self.analysed = set()
        self.callsites = 0
        self.locs = {}
        self.raise_locs = []
        self.init_names = set()


def resolve_target(repo, target):
    """-> (FuncDef, ClassDef or None)"""
    if target.startswith("driver:"):
        modname, fn = target[7:].split(".")
        e = repo.entity(repo.modules["spec:" + modname], fn)
        return e, None
    e = repo.lookup(target)
    if isinstance(e, ClassDef):
        f = e.find("__init__")
        if f is None:
            raise AnchorError("class %s has no constructor" % target)
        return f, e
    if e is None or isinstance(e, Ext):
        # inherited method: resolve class part
        head, _, last = target.rpartition(".")
        c = repo.lookup(head)
        if isinstance(c, ClassDef):
            f = c.find(last)
            if f is not None:
                return f, c
        raise AnchorError("public anchor %s not found in the repository" % target)
    if isinstance(e, tuple):
        r = repo.resolve_expr(e[1], e[2])
        if isinstance(r, (FuncDef,)):
            return r, None
        raise AnchorError("public anchor %s is not a function" % target)
    head, _, last = target.rpartition(".")
    c = repo.lookup(head) if head else None
    return e, (c if isinstance(c, ClassDef) else e.cls)


def params_of(f):
    a = f.node.args
    return [p.arg for p in a.posonlyargs + a.args], [p.arg for p in a.kwonlyargs], a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None


def defaults_of(f):
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    out = {}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[p] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[p.arg] = d
    return out


def opaque_quals(repo, contract):
    """public names of functions left uninterpreted -> defining names"""
    out = set(contract.no_inline)
    for q in contract.no_inline:
        try:
            f, _ = resolve_target(repo, q)
            out.add(f.qual)
        except AnchorError:
            pass
    return frozenset(out)


def summarise(repo, f, cls, bound_syms, is_spec, mode, contract, in_init, selfobj, kwself, target_ctor=None, fixed_ctor=None):
    it = I.Interp(repo, mode, spec=is_spec)
    it.no_inline = opaque_quals(repo, contract)
    it.fixed_ctor = fixed_ctor or {}
    s = Summary()
    if cls is not None and selfobj is not None:
        it.objclass[selfobj.id] = cls
        it.funcs[cls.qual] = cls
        it.self_sym = selfobj
    it.in_init = in_init
    bound = dict(bound_syms)
    if not is_spec:
        def hook(n):
            if n.id not in s.locs and it.loc is not None:
                s.locs[n.id] = it.loc
        T._on_make.append(hook)
    try:
        val = it.run_function(f, bound, selfobj=selfobj)
    finally:
        if not is_spec:
            T._on_make.clear()
    if val is None:
        val = it.unknown("recursion")
    live = it.pc

    def closed(v):
        if not any(x.op == "closure" for x in I._leaves(v)):
            return v
        it.pc = it.base = TRUE
        return T.map_leaves(lambda x: it.lamify(x) if x.op == "closure" else x, v)
    out = closed(val)
    res = out if live is not FALSE else mk("noreturn")
    # raises: disjoint guards, first wins
    for g, name, loc in reversed(it.raises):
        res = ite(g, mk("raise", name), res)
    s.raises = it.raises
    s.outcome = res
    seqs, trace = {}, mk("nil")
    want_trace = "trace" in contract.facets

    def app(n):
        return lambda q: mk("then", q, n)
    for g, root, node, loc in it.effects:
        if node.op == "call" and isinstance(node.args[0], T.Node) and node.args[0].op == "ext" and node.args[0].args[0] in ("ASSUME",):
            continue
        k = channel(root, node)
        node2 = mk("eff", node)
        cur = seqs.get(k, mk("nil"))
        seqs[k] = ite(g, T.map_leaves(app(node2), cur), cur)
        trace = ite(g, T.map_leaves(app(node2), trace), trace) if want_trace else trace
        if not is_spec:
            s.locs.setdefault(node2.id, loc)
    s.effects, s.trace = seqs, trace
    if selfobj is not None:
        for key, v in list(it.heap.items()):
            if key[0] == "attr" and key[1] == selfobj.id:
                s.attrs[key[2]] = closed(v)
    s.ext_attrs = {key: v for key, v in it.heap.items() if key[0] == "attr" and (selfobj is None or key[1] != selfobj.id)}
    s.unknowns, s.bounded = it.unknowns, it.bounded
    s.analysed, s.callsites = it.analysed, it.callsites
    s.interp = it
    s.assumes = it.assumes
    return s


def channel(root, node):
    """independent flags of one object are independent effect channels"""
    n = node
    while n.op == "foreach":
        n = n.args[2]
    if n.op == "call" and isinstance(n.args[0], T.Node) and n.args[0].op == "attr" and n.args[0].args[1] in I.CHANNEL:
        return mk("flag", root, I.CHANNEL[n.args[0].args[1]])
    return root


def nodes_of(n, seen=None):
    seen = seen if seen is not None else set()
    todo = [n]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        todo.extend(T.children(x))
    return seen


def vocabulary(ids):
    """names of external functions / methods / attributes used by a node set"""
    v = set()
    for i in ids:
        n = T._by_id[i]
        if n.op == "call":
            f = n.args[0]
            if isinstance(f, str):
                v.add(f)
            elif f.op == "ext":
                v.add("ext:" + f.args[0])
            elif f.op == "attr":
                v.add("." + f.args[1])
        elif n.op == "fn":
            v.add("fn:" + n.args[0])
        elif n.op == "unknown":
            v.add("unknown")
    return v


KNOWN_EXT = set(kb.CTOR_SIGS) | {"len", "sorted", "torch.nn.Sequential", "torch.nn.ModuleList", "torch.device", "torch.get_default_dtype"}


def foreign(code_ids, spec_ids):
    """functions occurring in the code but neither in the specification nor in the knowledge base"""
    out = set()
    sv = vocabulary(spec_ids)
    for x in vocabulary(code_ids) - sv:
        if x == "unknown":
            out.add(x)
        elif x.startswith("t:"):
            if x[2:] not in kb.KNOWN and x[2:] not in ("to", "float", "double", "cpu", "where"):
                out.add(x)
        elif x.startswith("ext:"):
            nm = x[4:]
            if nm not in KNOWN_EXT and nm.split(".")[-1] not in kb.KNOWN and not nm.startswith(("torch.", "math.")):
                out.add(x)
            elif nm.startswith(("torch.", "math.")) and nm not in KNOWN_EXT and nm.split(".")[-1] not in kb.KNOWN and not nm.startswith("torch.nn."):
                out.add(x)
        elif x.startswith("setop:"):
            out.add(x)
    return out


class Finding:
    def __init__(self, contract, facet, case, verdict, detail, locs, code=None, spec=None):
        self.contract, self.facet, self.case, self.verdict, self.detail, self.locs = contract, facet, case, verdict, detail, locs
        self.code, self.spec = code, spec

    def where(self):
        return ", ".join(sorted(set("%s:%d" % l for l in self.locs if l and l[1]))[:6])


def localise(code, spec, locs):
    cs, ss = nodes_of(code), nodes_of(spec)
    only = [T._by_id[i] for i in cs - ss]
    onlyset = set(n.id for n in only)
    minimal = [n for n in only if not any(c.id in onlyset for c in T.children(n))]
    spec_only = [T._by_id[i] for i in ss - cs]
    so = set(n.id for n in spec_only)
    smin = [n for n in spec_only if not any(c.id in so for c in T.children(n))]
    out = [locs[n.id] for n in minimal if n.id in locs]
    if not out:
        # walk up: any code-only node with a location
        out = [locs[n.id] for n in sorted(only, key=lambda n: n.id) if n.id in locs][:3]
    return minimal, smin, out


MODES = ("fold", "unroll")


def _node_value(v):
    if isinstance(v, (list, tuple)):
        return mk("list" if isinstance(v, list) else "tuple", tuple(_node_value(x) for x in v))
    if isinstance(v, dict):
        return mk("dict", tuple((_node_value(k), _node_value(x)) for k, x in v.items()))
    if isinstance(v, str) and v.startswith("@"):
        return sym(v[1:])
    return const(v)


def analyse_pair(repo, c, case, mode):
    """returns (code summary, spec summary, code FuncDef)"""
    f, cls = resolve_target(repo, c.target)
    sf = FuncDef(c.mod, c.node, f.cls, qual=c.mod.name + "." + c.node.name)
    in_init = f.name == "__init__" and cls is not None
    pos, kwo, va, kwa = params_of(f)
    spos, skwo, sva, skwa = params_of(sf)
    is_method = cls is not None and not f.is_static and pos and f.cls is not None
    selfobj = None
    bound, sbound = {}, {}
    code_params = list(pos)
    spec_params = list(spos)
    if is_method:
        if f.is_classmethod:
            selfobj = mk("class", cls.qual)
        else:
            selfobj = sym("self")
        bound[code_params.pop(0)] = selfobj
        if spec_params and spec_params[0] in ("self", "cls"):
            sbound[spec_params.pop(0)] = selfobj
    elif spec_params and spec_params[0] == "self":
        raise AnchorError("%s is no longer a method" % c.target)
    fixed_ctor = {k[5:]: _node_value(v) for k, v in case.items() if k.startswith("ctor.")}

    def symfor(p):
        if p in case:
            return _node_value(case[p])
        n = sym("ctor." + p if in_init else p)
        return n
    names = list(spec_params) + list(skwo)
    for p in names:
        sbound[p] = symfor(p)
    left = [p for p in code_params + kwo]
    extra_spec = []
    for p in names:
        if p in left:
            bound[p] = sbound[p]
            left.remove(p)
        else:
            extra_spec.append(p)
    # renamed positional parameters are matched by position
    for p in extra_spec:
        i = spec_params.index(p) if p in spec_params else None
        if i is not None and i < len(code_params) and code_params[i] in left:
            bound[code_params[i]] = sbound[p]
            left.remove(code_params[i])
        else:
            raise AnchorError("parameter %s of %s not found" % (p, c.target))
    it0 = I.Interp(repo, mode)
    dcode = defaults_of(f)
    for p in left:
        if p in dcode:
            bound[p] = it0.eval_in(f.module, dcode[p], f)
        else:
            raise AnchorError("new required parameter %s of %s" % (p, c.target))
    if va:
        bound[va] = sym("*" + (sva or va))
    if kwa:
        bound[kwa] = sym("**" + (skwa or kwa))
    if sva:
        sbound[sva] = sym("*" + sva)
    if skwa:
        sbound[skwa] = sym("**" + skwa)
    # nothing learnt from another contract may leak into this one
    T.forget()
    I._RANKS.clear()
    for n in c.ints:
        T.INT_SYMS.add(sym(n).id)
    I._TYPES.clear()
    I._REPO[0] = repo
    for fn, b in ((sf, sbound), (f, bound)):
        a = fn.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None and x.arg in b and b[x.arg].op == "sym":
                I._TYPES[b[x.arg].id] = (x.annotation, fn.module)
    X.M.TYPES.clear()
    init = cls.find("__init__") if cls is not None else None
    if init is not None:
        a = init.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                X.M.TYPES[sym("ctor." + x.arg).id] = ast.unparse(x.annotation)
    I._DEFAULT_RANK[0] = c.rank
    for n, r in c.ranks.items():
        I._RANKS[sym(n).id] = r
    I._DIMS.clear()
    for n, v in case.items():
        if n.startswith("dim."):        # "dim.<parameter>.<axis>": size of that axis in this case
            I._DIMS[(sym(n.split(".")[1]).id, int(n.split(".")[2]))] = v
        if n.startswith("dimattr."):    # "dimattr.<attribute>.<axis>": the same for values read from an attribute
            I._DIMS[(n.split(".")[1], int(n.split(".")[2]))] = v
    spec_sum = code_sum = None
    for _ in range(2):
        spec_sum = summarise(repo, sf, cls, sbound, True, mode, c, in_init, selfobj, None, fixed_ctor=fixed_ctor)
        code_sum = summarise(repo, f, cls, bound, False, mode, c, in_init, selfobj, None, fixed_ctor=fixed_ctor)
    ret = getattr(f.node, "returns", None) or getattr(sf.node, "returns", None)
    if isinstance(ret, ast.Name) and ret.id == "bool":
        for x in (code_sum, spec_sum):
            x.outcome = T.map_leaves(lambda n: n if n.op in ("raise", "noreturn", "unknown") else T.truth(n), x.outcome)
    return code_sum, spec_sum, f, sf, dcode, it0


def under(assume, n):
    return ite(assume, n, mk("n/a")) if assume is not TRUE else n


def project_field(n, fld):
    if n.op in ("raise", "noreturn", "n/a"):
        return n
    return I.attr_(n, fld) if not fld.isdigit() else I.sub(n, const(int(fld)))


def facet_pairs(c, cs, ss):
    """yield (facet, code node, spec node)"""
    assume = TRUE
    for a in cs.assumes + ss.assumes:
        assume = b_and(assume, a)
    U = lambda n: under(assume, n)
    for fc in c.facets:
        if fc == "outcome":
            yield fc, U(cs.outcome), U(ss.outcome)
        elif fc == "raises":
            def r(n):
                return T.map_leaves(lambda x: x if x.op in ("raise", "noreturn") else mk("ok"), n)
            yield fc, U(r(cs.outcome)), U(r(ss.outcome))
        elif fc == "return":
            # where the specification does not raise
            okc = T.map_leaves(lambda x: FALSE if x.op in ("raise", "noreturn") else TRUE, ss.outcome)
            yield fc, U(ite(T.truth(okc), cs.outcome, NONE)), U(ite(T.truth(okc), ss.outcome, NONE))
        elif fc == "returned":
            # where both return
            ok = b_and(returns(cs.outcome), returns(ss.outcome))
            yield fc, U(ite(ok, cs.outcome, NONE)), U(ite(ok, ss.outcome, NONE))
        elif fc.startswith("return."):
            for fld in fc[7:].split(","):
                p = lambda n: T.map_leaves(lambda x: project_field(x, fld), n)
                yield "return." + fld, U(p(cs.outcome)), U(p(ss.outcome))
        elif fc == "trace":
            yield fc, U(cs.trace), U(ss.trace)
        elif fc == "effects":
            for root in sorted(set(cs.effects) | set(ss.effects), key=lambda n: n.key):
                e0 = mk("nil")
                yield "effects[%s]" % T.show(root, 4), U(cs.effects.get(root, e0)), U(ss.effects.get(root, e0))
        elif fc == "attrs":
            both_ok = b_and(returns(cs.outcome), returns(ss.outcome))
            names = set(ss.attrs) | (set(cs.attrs) if not c.only_attrs else set())
            if c.only_attrs:
                oc = cs.interp.objclass.get(cs.interp.self_sym.id)
                names = set(I.backing_attr(oc, oc.current_attr(x) or x) if oc is not None else x for x in c.only_attrs)
            for n in sorted(names):
                if n not in ss.attrs and c.only_attrs is None:
                    if not extra_attr_matters(cs, n):
                        continue
                d = None
                a, b = cs.attrs.get(n), ss.attrs.get(n)
                if a is None:
                    a = attr_default(cs, n)
                if b is None:
                    b = attr_default(cs, n)
                yield "attrs.%s" % n, U(ite(both_ok, a, mk("n/a"))), U(ite(both_ok, b, mk("n/a")))


def returns(outcome):
    return T.truth(T.map_leaves(lambda x: FALSE if x.op in ("raise", "noreturn") else TRUE, outcome))


def attr_default(cs, n):
    it = cs.interp
    return it.raw_attr(it.self_sym, n) if not it.in_init else mk("unset")


def extra_attr_matters(cs, n):
    """an attribute written by the code only: matters if it existed before (not a new cache)"""
    it = cs.interp
    if it.in_init:
        return False
    c = it.objclass.get(it.self_sym.id)
    if c is None:
        return False
    if n in it.init_heap(it.self_sym, c):
        return True
    return c.find_assign(n) is not None


def open_syms(n):
    """does n mention a variable of an enclosing binder"""
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sym" and x.args[0].startswith("$"):
            return True
        todo.extend(T.children(x))
    return False


def tests_in(a, b):
    """tests on which either term depends, simplest first"""
    cnt, seen = {}, set()
    todo = [a, b]
    while todo:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "ite" and n.args[0].op not in ("const",):
            cnt[n.args[0]] = cnt.get(n.args[0], 0) + 1
        todo.extend(T.children(n))
    return [x for x in sorted(cnt, key=lambda x: (len(nodes_of(x)), T.atom_order(x))) if not open_syms(x)]


def same_by_cases(a, b, deadline, depth=0):
    """equal under every outcome of the tests they contain?"""
    if a is b:
        return True
    if depth > 14 or time.time() > deadline:
        return False
    ts = tests_in(a, b)
    if not ts:
        return False
    t = ts[0]
    for val in (True, False):
        m = {t: TRUE if val else FALSE}
        for o in ts[1:]:
            v = T._implied(t, val, o)
            if v is not None:
                m[o] = TRUE if v else FALSE
        ef = T._eq_fact(t) if val else None
        x, y = T.subst(a, m), T.subst(b, m)
        if ef is not None:
            x, y = T.subst(x, {ef[0]: ef[1]}), T.subst(y, {ef[0]: ef[1]})
        if not same_by_cases(x, y, deadline, depth + 1):
            return False
    return True


def sharing(a, b):
    """first place where the code shares (or splits) objects that the specification keeps apart (or shares);
    None if there is none or the terms have different shapes"""
    to, back, seen, bad = {}, {}, set(), []

    def walk(x, y, path):
        if not isinstance(x, T.Node) or not isinstance(y, T.Node):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                return all(walk(p, q, path) for p, q in zip(x, y))
            return x == y
        if (x.id, y.id) in seen:
            return True
        seen.add((x.id, y.id))
        if x.op == "alloc" and y.op == "alloc":
            i, j = (x.args[0], x.args[1:]), (y.args[0], y.args[1:])
            if to.setdefault(i[0], j[0]) != j[0] or back.setdefault(j[0], i[0]) != i[0] or len(i[1]) != len(j[1]):
                bad.append(path)
            return True
        if x.op != y.op or len(x.args) != len(y.args):
            return False
        nm = path
        if x.op == "newobj":
            nm = path + [x.args[0].split(".")[-1]]
        elif x.op == "call" and isinstance(x.args[0], T.Node) and x.args[0].op == "ext":
            nm = path + [x.args[0].args[0].split(".")[-1]]
        return all(walk(p, q, nm) for p, q in zip(x.args, y.args))
    for n in a:
        if n in b and not walk(a[n], b[n], [n]):
            return None
    return bad[0] if bad else None


def allocations(repo, c, case, mode):
    """do the attributes hold the same arrangement of separate and shared objects as specified?"""
    I.ALLOC[0] = 0
    del I.ALLOC_K[:]
    try:
        cs, ss = analyse_pair(repo, c, case, mode)[:2]
        names = [n for n in ss.attrs if n in cs.attrs and (not c.only_attrs or n in c.only_attrs)]
        return sharing({n: cs.attrs[n] for n in names}, {n: ss.attrs[n] for n in names})
    finally:
        I.ALLOC[0] = None


class Slow(Exception):
    pass


def limited(seconds, f, *a):
    """f(*a), or None when it takes longer (keeps the caller's own alarm running)"""
    def slow(*_):
        raise Slow()
    old = signal.signal(signal.SIGALRM, slow)
    t0 = time.time()
    left = signal.alarm(seconds)
    if left and left < seconds:
        signal.alarm(left)
    try:
        return f(*a)
    except Slow:
        T._on_make.clear()
        return None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(max(1, int(left - (time.time() - t0))))


def analyse_mode(repo, c, case, mode):
    """unrolled: three iterations, two when three are too many to enumerate"""
    if mode == "fold":
        return analyse_pair(repo, c, case, mode)
    for n, s in ((3, 20), (2, 20)):
        I.UNROLL = n
        try:
            r = limited(s, analyse_pair, repo, c, case, mode)
        finally:
            I.UNROLL = 3
        if r is not None:
            return r
    return None


EVERY_CASE = set()          # contracts with a known finding: every case is looked at


def check(repo, c):
    """-> (list of findings, stats)"""
    findings, stats = [], {"obligations": 0, "functions": set(), "callsites": 0, "bounded": set(), "nodes": 0, "undecided": 0}
    for case in c.cases:
        if any(x.verdict == "DIFFERENT" for x in findings) and (c.pid, c.name) not in EVERY_CASE:
            break           # reported; the other cases add nothing
        pend = None
        for mode in MODES:
            r = analyse_mode(repo, c, case, mode)
            if r is None:
                for x in pend or []:
                    x.verdict, x.detail = "UNDECIDED", "loops too large to compare unrolled | " + x.detail
                break
            cs, ss, f, sf, dcode, it0 = r
            cur = []
            if mode == "fold":
                stats["functions"] |= set(q for q in cs.analysed)
                stats["callsites"] += cs.callsites
            # default values of the public parameters
            if c.defaults and mode == "fold" and case is c.cases[0]:
                sd = defaults_of(sf)
                for p, d in sd.items():
                    stats["obligations"] += 1
                    want = it0.eval_in(sf.module, d, sf)
                    got = it0.eval_in(f.module, dcode[p], f) if p in dcode else mk("required")
                    if want is not got:
                        findings.append(Finding(c, "default." + p, case, "DIFFERENT", "default value is %s, required %s" % (T.show(got), T.show(want)),
                                                [(f.module.relpath, f.node.lineno)], got, want))
            # arguments changed in place
            if mode == "fold" and case is c.cases[0] and not c.target.startswith("driver:"):
                stats["obligations"] += 1
                may = A.summary(repo, sf)[0]
                for p, sites in A.summary(repo, f)[0].items():
                    if p not in may:
                        findings.append(Finding(c, "argument." + p, case, "DIFFERENT", "the caller's %s is changed in place: %s" % (p, sites[0][1]),
                                                [(f.module.relpath, sites[0][0])], mk("changed", p), NONE))
            # parts of a network that hold parameters: separate objects where separate objects are required
            if mode == "fold" and "attrs" in c.facets and f.name == "__init__":
                stats["obligations"] += 1
                where = allocations(repo, c, case, mode)
                if where is not None:
                    findings.append(Finding(c, "sharing." + where[0], case, "DIFFERENT", "%s is shared between places that each need their own, or separate where one is required" % " / ".join(where),
                                            [(f.module.relpath, f.node.lineno)], mk("shared", where[0]), NONE))
            pairs = list(facet_pairs(c, cs, ss))
            spec_ids = None
            for facet, a, b in pairs:
                if mode == "fold":
                    stats["obligations"] += 1
                    stats["nodes"] += len(nodes_of(a))
                if a is b or same_by_cases(a, b, time.time() + 10):
                    continue
                if spec_ids is None:
                    spec_ids = set().union(*(nodes_of(y) for _, _, y in pairs))
                fo = foreign(nodes_of(a), spec_ids)
                minimal, smin, locs = localise(a, b, cs.locs)
                det = "code computes %s; required %s" % ("; ".join(T.show(n, 5) for n in minimal[:4]) or T.show(a, 4),
                                                          "; ".join(T.show(n, 5) for n in smin[:4]) or T.show(b, 4))
                if fo:
                    cur.append(Finding(c, facet, case, "UNDECIDED", "outside the analysed vocabulary: " + ", ".join(sorted(fo)) + " | " + det, locs, a, b))
                else:
                    ex = limited(40, X.explain, a, b)
                    if ex is not None and ex.conclusive:
                        cur.append(Finding(c, facet, case, "DIFFERENT", det + " [" + ex.why + "]", locs or [(f.module.relpath, f.node.lineno)], a, b))
                    else:
                        why = "too deep" if ex is None else ex.why
                        cur.append(Finding(c, facet, case, "UNDECIDED", "written differently (%s), not comparable | " % why + det, locs or [(f.module.relpath, f.node.lineno)], a, b))
            if not cur:
                if mode == "unroll":
                    stats["bounded"].add(c.name)
                pend = []
                break
            if pend is None:
                pend = cur
            else:
                # a facet equal in one form is equal; a difference explained in one form is a difference
                now = {x.facet: x for x in cur}
                pend = [now[x.facet] if x.verdict == "UNDECIDED" and now[x.facet].verdict == "DIFFERENT" else x for x in pend if x.facet in now] or cur
        findings.extend(pend or [])
    stats["undecided"] = sum(1 for x in findings if x.verdict == "UNDECIDED")
    return findings, stats
