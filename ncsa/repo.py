"""Source model of /repo: modules, classes, imports and re-exports, from the syntax trees only."""
import ast
import json
import os

REPO = os.environ.get("NCSA_REPO", "/repo")

PROJECT_ROOTS = {
    "": ".",
    "torch_vct": "projects/torch_vct",
    "illm": "projects/illm",
    "dvcproj": "projects/deep_video_compression",
    "bbd": "projects/bits_back_diffusion",
    "jaxec": "projects/jax_entropy_coders",
}


_BASE = None


def baseline():
    """names the repository had when the contracts were written (only used to recognise renamed private names)"""
    global _BASE
    if _BASE is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.json")
        _BASE = json.load(open(p)) if os.path.exists(p) else {}
    return _BASE


def param_names(node):
    a = node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] \
        + (["*" + a.vararg.arg] if a.vararg else []) + (["**" + a.kwarg.arg] if a.kwarg else [])


def private(n):
    return n.startswith("_") and not n.endswith("__")


def pick(cands, want):
    """the one candidate [(name, description)] that fits the wanted description, else the only one"""
    fit = [n for n, d in cands if d == want]
    if len(fit) == 1:
        return fit[0]
    return cands[0][0] if len(cands) == 1 and isinstance(want, str) else None


class FuncDef:
    __slots__ = ("module", "node", "cls", "qual", "closure", "name")

    def __init__(self, module, node, cls=None, qual=None, closure=None):
        self.module, self.node, self.cls, self.closure = module, node, cls, closure
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or (module.name + "." + (cls.name + "." if cls else "") + self.name)

    def decorators(self):
        return [ast.unparse(d) for d in getattr(self.node, "decorator_list", [])]

    @property
    def is_property(self):
        return any(d == "property" or d.endswith(".getter") or d.endswith("cached_property") for d in self.decorators())

    @property
    def is_static(self):
        return "staticmethod" in self.decorators()

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators()


class ClassDef:
    def __init__(self, module, node, outer=None):
        self.module, self.node, self.name = module, node, node.name
        self.qual = module.name + "." + node.name
        self.methods, self.assigns, self.annots, self.classes = {}, {}, {}, {}
        for s in node.body:
            self._add(s)
        self._mro = self._stored = None

    def _add(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            decs = [ast.unparse(d) for d in s.decorator_list]
            if any(d.endswith(".setter") for d in decs):
                self.methods[s.name + "=setter"] = FuncDef(self.module, s, self)
            elif any(d.endswith(".deleter") for d in decs):
                self.methods[s.name + "=deleter"] = FuncDef(self.module, s, self)
            elif any(d.endswith("overload") for d in decs):
                pass
            else:
                self.methods[s.name] = FuncDef(self.module, s, self)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.assigns[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.annots[s.target.id] = s.annotation
            if s.value is not None:
                self.assigns[s.target.id] = s.value
        elif isinstance(s, ast.ClassDef):
            self.classes[s.name] = ClassDef(self.module, s, self)
        elif isinstance(s, ast.If):
            for x in s.body:
                self._add(x)

    def bases(self):
        """list of ClassDef or dotted external name strings"""
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            e = self.module.repo.resolve_expr(self.module, b)
            if isinstance(e, ClassDef):
                out.append(e)
            elif isinstance(e, Ext):
                out.append(e.name)
            else:
                out.append(ast.unparse(b))
        return out

    def mro(self):
        if self._mro is None:
            self._mro = [self]          # guards against cycles
            seqs, direct = [], []
            for b in self.bases():
                if isinstance(b, ClassDef):
                    seqs.append(list(b.mro()))
                else:
                    seqs.append([b])
                direct.append(b)
            seqs.append(direct)
            res = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                for s in seqs:
                    if s and s[0] == c:
                        del s[0]
                seqs = [s for s in seqs if s]
            self._mro = res
        return self._mro

    def find(self, name, after=None):
        """method `name` in the MRO (optionally strictly after class `after`); FuncDef, ext base name or None"""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro[1:]
        for c in mro:
            if isinstance(c, ClassDef) and name in c.methods:
                return c.methods[name]
        if private(name):
            for c in mro:
                if isinstance(c, ClassDef):
                    b = c.base_entry().get("methods", {})
                    if name in b:
                        n = pick([(k, param_names(f.node)) for k, f in c.methods.items() if k not in b], b[name])
                        return c.methods[n] if n else None
        return None

    def base_entry(self):
        return baseline().get(self.module.name, {}).get("classes", {}).get(self.name, {})

    def own_stored(self):
        """attribute -> text of what is first stored there"""
        out = {k: ast.unparse(v) for k, v in self.assigns.items()}
        out.update((k, ast.unparse(v)) for k, v in self.annots.items() if k not in out)
        for f in self.methods.values():
            for x in ast.walk(f.node):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AnnAssign, ast.AugAssign)) else []
                for t in ts:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self" and isinstance(y.ctx, ast.Store):
                            out.setdefault(y.attr, ast.unparse(x.value) if x.value is not None else "")
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("register_buffer", "register_parameter", "add_module", "add_state", "setattr") and x.args \
                        and isinstance(x.args[0], ast.Constant):
                    out.setdefault(x.args[0].value, "")
        return out

    def current_attr(self, name):
        """present name of a private attribute (None: it is gone)"""
        if not private(name) or self.find(name) is not None:
            return name
        for c in self.mro():
            if isinstance(c, ClassDef) and (name in c.stored() or name in c.assigns or name in c.annots):
                return name
        for c in self.mro():
            if isinstance(c, ClassDef):
                b = c.base_entry().get("attrs", {})
                if name in b:
                    return pick([(k, v) for k, v in c.stored().items() if k not in b], b[name])
        return name

    def stored(self):
        if self._stored is None:
            self._stored = self.own_stored()
        return self._stored

    def find_assign(self, name):
        for c in self.mro():
            if isinstance(c, ClassDef) and name in c.assigns:
                return c, c.assigns[name]
        return None

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def decorators(self):
        return [ast.unparse(d) for d in self.node.decorator_list]

    def record_fields(self):
        """ordered [(name, default expr or None, ClassDef)] when a NamedTuple / dataclass, else None"""
        is_nt = any(b.split(".")[-1] == "NamedTuple" for b in self.ext_bases())
        is_dc = any("dataclass" in d for c in self.mro() if isinstance(c, ClassDef) for d in c.decorators())
        if not (is_nt or is_dc):
            return None
        out, seen = [], {}
        classes = [c for c in reversed(self.mro()) if isinstance(c, ClassDef)]
        if is_nt:
            # only the class that directly subclasses NamedTuple has fields
            classes = [c for c in classes if any(isinstance(b, str) and b.split(".")[-1] == "NamedTuple" for b in c.bases())]
        for c in classes:
            for n in c.annots:
                if "ClassVar" in ast.unparse(c.annots[n]):
                    continue
                if n not in seen:
                    seen[n] = len(out)
                    out.append((n, c.assigns.get(n), c))
                else:
                    out[seen[n]] = (n, c.assigns.get(n), c)
        return out


class Ext:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Module:
    def __init__(self, repo, name, path, project):
        self.repo, self.name, self.path, self.project = repo, name, path, project
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, filename=path)
        self.relpath = os.path.relpath(path, repo.root)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.names = {}
        self._scan(self.tree.body)
        self.class_cache = {}

    def pymod(self):
        return self.name.split(":", 1)[-1]

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[s.name] = ("func", s)
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ("class", s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ("import", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pkg = self.pymod().split(".")
                    if not self.is_pkg:
                        pkg = pkg[:-1]
                    if s.level > 1:
                        pkg = pkg[: len(pkg) - (s.level - 1)]
                    base = ".".join(pkg + ([s.module] if s.module else []))
                for a in s.names:
                    self.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("assign", s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.names[e.id] = ("assign", ast.Subscript(value=s.value, slice=ast.Constant(i), ctx=ast.Load()))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.names[s.target.id] = ("assign", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, "handlers", []):
                    for x in h.body:
                        if isinstance(x, (ast.Import, ast.ImportFrom)):
                            continue
                if isinstance(s, ast.Try):
                    continue
                self._scan([x for x in s.orelse if not isinstance(x, (ast.Import, ast.ImportFrom))])


class Repo:
    def __init__(self, root=None):
        self.root = os.path.abspath(root or REPO)
        self.modules = {}          # internal name -> Module
        self._missing = set()

    # -- module lookup
    def _candidates(self, project, name):
        roots = [(project, PROJECT_ROOTS[project])] if project else []
        roots.append(("", "."))
        for proj, r in roots:
            base = os.path.join(self.root, r, *name.split("."))
            for p in (base + ".py", os.path.join(base, "__init__.py")):
                if os.path.isfile(p):
                    yield proj, p

    def module(self, name, project=""):
        if ":" in name:
            project, name = name.split(":", 1)
        for proj, p in self._candidates(project, name):
            if proj == "" and not (name == "hubconf" or name.split(".")[0] in ("neuralcompression",)):
                continue
            iname = (proj + ":" if proj else "") + name
            m = self.modules.get(iname)
            if m is None:
                m = self.modules[iname] = Module(self, iname, p, proj)
            return m
        return None

    def add_module(self, name, path, project=""):
        m = Module(self, name, path, project)
        self.modules[name] = m
        return m

    # -- name resolution
    def entity(self, mod, name, seen=None):
        """Resolve a global name of a module to FuncDef/ClassDef/Module/Ext/('assign', Module, expr) or None"""
        seen = seen or set()
        if (mod.name, name) in seen:
            return None
        seen.add((mod.name, name))
        b = mod.names.get(name)
        if b is None:
            if mod.is_pkg:
                return self.module(mod.pymod() + "." + name, mod.project)
            if private(name):
                e = baseline().get(mod.name, {})
                if name in e.get("funcs", {}):
                    n = pick([(k, param_names(v[1])) for k, v in mod.names.items() if v[0] == "func" and k not in e["funcs"]], e["funcs"][name])
                    return FuncDef(mod, mod.names[n][1]) if n else None
                if name in e.get("classes", {}):
                    want = sorted(e["classes"][name]["methods"])
                    n = pick([(k, sorted(y.name for y in v[1].body if isinstance(y, ast.FunctionDef))) for k, v in mod.names.items() if v[0] == "class" and k not in e["classes"]], want)
                    return self.entity(mod, n) if n else None
            return None
        if b[0] == "func":
            return FuncDef(mod, b[1])
        if b[0] == "class":
            c = mod.class_cache.get(name)
            if c is None or c.node is not b[1]:
                c = mod.class_cache[name] = ClassDef(mod, b[1])
            return c
        if b[0] == "assign":
            return ("assign", mod, b[1])
        if b[0] == "import":
            m = self.module(b[1], mod.project)
            return m if m is not None else Ext(b[1])
        if b[0] == "from":
            m = self.module(b[1], mod.project) if b[1] else None
            if m is not None and m is not mod:
                e = self.entity(m, b[2], seen)
                if e is not None:
                    return e
                sm = self.module(b[1] + "." + b[2], mod.project)
                if sm is not None:
                    return sm
                return Ext(b[1] + "." + b[2])
            sm = self.module(b[1] + "." + b[2], mod.project)
            if sm is not None:
                return sm
            return Ext((b[1] + "." if b[1] else "") + b[2])

    def member(self, ent, attr):
        if isinstance(ent, Module):
            e = self.entity(ent, attr)
            if e is None:
                e = self.module(ent.pymod() + "." + attr, ent.project)
            return e
        if isinstance(ent, Ext):
            return Ext(ent.name + "." + attr)
        if isinstance(ent, ClassDef):
            f = ent.find(attr)
            if f is not None:
                return f
            a = ent.find_assign(attr)
            if a is not None:
                return ("assign", a[0].module, a[1])
            for c in ent.mro():
                if isinstance(c, ClassDef) and attr in c.classes:
                    return c.classes[attr]
        return None

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            r = self.entity(mod, e.id)
            if isinstance(r, tuple) and r[0] == "assign":
                r2 = self.resolve_expr(r[1], r[2])
                return r2 if r2 is not None else r
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if b is None or isinstance(b, tuple):
                return None
            return self.member(b, e.attr)
        return None

    def lookup(self, dotted):
        """'proj:pkg.mod.Name.method' -> entity, following re-exports"""
        project = ""
        if ":" in dotted:
            project, dotted = dotted.split(":", 1)
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = self.module(".".join(parts[:i]), project)
            if m is not None:
                ent = m
                ok = True
                for a in parts[i:]:
                    if isinstance(ent, tuple):
                        ent = self.resolve_expr(ent[1], ent[2])
                    ent = self.member(ent, a) if ent is not None else None
                    if ent is None:
                        ok = False
                        break
                if ok:
                    return ent
        return None
