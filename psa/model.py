"""Program model of the analysed package: modules, classes, functions, name resolution.

Everything is read from the source files of the current working tree; nothing of
the package is imported or executed."""
import ast
import os


class FuncInfo:
    __slots__ = ("node", "module", "cls", "name", "qual", "kind", "jit", "parent", "decorators", "setter_of", "is_gen", "abstract")

    def __init__(self, node, module, cls, name, kind="func", parent=None):
        self.node, self.module, self.cls, self.name = node, module, cls, name
        self.kind = kind          # func | static | class | property | setter | lambda
        self.parent = parent
        self.decorators = []
        self.jit = False
        self.abstract = False
        own = (cls.qual + "." if cls else module.name + ".") if parent is None else parent.qual + ".<locals>."
        self.qual = own + name
        self.is_gen = not isinstance(node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_walk(node))

    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<Func %s>" % self.qual


def own_walk(node):
    """Walk a function body without entering nested functions/classes/lambdas."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    __slots__ = ("node", "module", "name", "qual", "base_exprs", "bases", "ext_bases", "methods", "setters", "props",
                 "attrs", "attr_nodes", "subclasses", "_mro", "metaclass", "decorators", "ann")

    def __init__(self, node, module, name):
        self.node, self.module, self.name = node, module, name
        self.qual = module.name + "." + name
        self.base_exprs = node.bases
        self.bases, self.ext_bases = [], []
        self.methods, self.setters, self.props = {}, {}, {}
        self.attrs = {}       # class level name -> expr node
        self.ann = {}
        self.attr_nodes = {}
        self.subclasses = []
        self.metaclass = None
        self.decorators = []
        self._mro = None

    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def mro(self):
        if self._mro is None:
            self._mro = c3(self)
        return self._mro

    def is_sub(self, other):
        return other in self.mro()

    def all_subs(self):
        out, stack = [], list(self.subclasses)
        while stack:
            c = stack.pop(0)
            if c not in out:
                out.append(c)
                stack.extend(c.subclasses)
        return out

    def ext_root(self):
        """dotted names of external base classes in the mro"""
        out = []
        for c in self.mro():
            out.extend(c.ext_bases)
        return out

    def find(self, name):
        """('method'|'prop'|'attr', info, owner) looked up along the mro"""
        for c in self.mro():
            if name in c.methods:
                return ("method", c.methods[name], c)
            if name in c.props:
                return ("prop", c.props[name], c)
            if name in c.attrs:
                return ("attr", c.attrs[name], c)
        return None

    def __repr__(self):
        return "<Class %s>" % self.qual


def c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                return res + [x for s in seqs for x in s if x not in res]
            res.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    return [cls] + merge([b.mro() for b in cls.bases] + [list(cls.bases)])


class Module:
    __slots__ = ("name", "path", "rel", "tree", "names", "is_pkg", "lines", "star", "all")

    def __init__(self, name, path, rel, tree, is_pkg, src):
        self.name, self.path, self.rel, self.tree, self.is_pkg = name, path, rel, tree, is_pkg
        self.names = {}      # name -> list of ('func',FuncInfo)|('class',ClassInfo)|('import',dotted)|('from',mod,name)|('assign',node)
        self.star = []
        self.all = None
        self.lines = src.count("\n")


class Program:
    def __init__(self, root="/repo", package="popsynth", skip=("test",)):
        self.root, self.package = root, package
        self.modules, self.classes, self.funcs = {}, {}, {}
        pkgdir = os.path.join(root, package)
        for d, subdirs, files in sorted(os.walk(pkgdir)):
            subdirs[:] = sorted(s for s in subdirs if s not in skip and s != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py") or f == "_version.py":
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                tree = ast.parse(src, path)
                for n in ast.walk(tree):
                    n._mod = rel
                self.modules[name] = Module(name, path, rel, tree, is_pkg, src)
        for m in self.modules.values():
            self._scan_body(m, m.tree.body)
        for c in self.classes.values():
            for b in c.base_exprs:
                r = self.resolve_expr(c.module, b)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                    r[1].subclasses.append(c)
                elif r and r[0] == "ext":
                    c.ext_bases.append(r[1])
                else:
                    c.ext_bases.append("?" + ast.unparse(b))
        self.n_funcs = len(self.funcs)

    # ---------------------------------------------------------------- scanning
    def _scan_body(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st, m, None, st.name)
                self._decorate(fi)
                self.funcs[fi.qual] = fi
                m.names.setdefault(st.name, []).append(("func", fi))
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(st, m, st.name)
                self.classes[ci.qual] = ci
                ci.decorators = [ast.unparse(d) for d in st.decorator_list]
                for kw in st.keywords:
                    if kw.arg == "metaclass":
                        ci.metaclass = kw.value
                self._scan_class(m, ci, st.body)
                m.names.setdefault(st.name, []).append(("class", ci))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.names.setdefault(a.asname, []).append(("import", a.name))
                    else:
                        m.names.setdefault(a.name.split(".")[0], []).append(("import", a.name.split(".")[0]))
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = m.name.split(".")
                    up = st.level if not m.is_pkg else st.level - 1
                    parts = parts[:len(parts) - up] if up else parts
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == "*":
                        m.star.append(base)
                    else:
                        m.names.setdefault(a.asname or a.name, []).append(("from", base, a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.names.setdefault(n.id, []).append(("assign", st))
                    if isinstance(t, ast.Name) and t.id == "__all__":
                        try:
                            m.all = list(ast.literal_eval(st.value))
                        except Exception:
                            m.all = None
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.names.setdefault(st.target.id, []).append(("assign", st))
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ("body", "orelse", "finalbody"):
                    self._scan_body(m, getattr(st, f, []) or [])
                for h in getattr(st, "handlers", []) or []:
                    self._scan_body(m, h.body)
                if isinstance(st, ast.With):
                    for it in st.items:
                        if isinstance(it.optional_vars, ast.Name):
                            m.names.setdefault(it.optional_vars.id, []).append(("assign", st))
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            m.names.setdefault(n.id, []).append(("assign", st))

    def _decorate(self, fi):
        node = fi.node
        for d in node.decorator_list:
            s = ast.unparse(d)
            fi.decorators.append(s)
            if any(k in s for k in ("njit", "nb.jit", "numba.jit", "jit(", "vectorize")) or s in ("jit", "njit"):
                fi.jit = True
            if s.endswith("abstractmethod") or s.endswith("abstractclassmethod"):
                fi.abstract = True

    def _scan_class(self, m, ci, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st, m, ci, st.name)
                self._decorate(fi)
                decs = fi.decorators
                if "staticmethod" in decs:
                    fi.kind = "static"
                elif "classmethod" in decs:
                    fi.kind = "class"
                elif any(d == "property" or d.endswith("cached_property") or d.endswith("abstractproperty") for d in decs):
                    fi.kind = "property"
                elif any(d.endswith(".setter") for d in decs):
                    fi.kind = "setter"
                elif any(d.endswith(".getter") for d in decs):
                    fi.kind = "property"
                if fi.kind == "property":
                    ci.props[st.name] = [fi, ci.props.get(st.name, [None, None])[1]]
                elif fi.kind == "setter":
                    ci.props.setdefault(st.name, [None, None])[1] = fi
                    fi.qual += ".setter"
                else:
                    ci.methods[st.name] = fi
                self.funcs[fi.qual] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        v = st.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                            names = {"fget": None, "fset": None}
                            for i, a in enumerate(v.args[:2]):
                                names["fget" if i == 0 else "fset"] = a
                            for kw in v.keywords:
                                if kw.arg in names:
                                    names[kw.arg] = kw.value
                            g = names["fget"]
                            s = names["fset"]
                            ci.props[t.id] = [ci.methods.get(g.id) if isinstance(g, ast.Name) else None,
                                              ci.methods.get(s.id) if isinstance(s, ast.Name) else None]
                        elif isinstance(v, ast.Name) and v.id in ci.methods:
                            ci.methods[t.id] = ci.methods[v.id]
                        else:
                            ci.attrs[t.id] = v
                            ci.attr_nodes[t.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ci.ann[st.target.id] = st.annotation
                if st.value is not None:
                    ci.attrs[st.target.id] = st.value
                    ci.attr_nodes[st.target.id] = st

    # -------------------------------------------------------------- resolution
    def lookup(self, module, name, seen=()):
        """Resolve a module-level name: ('func'|'class'|'ext'|'mod'|'assign', ...) or None."""
        if (module.name, name) in seen:
            return None
        seen = seen + ((module.name, name),)
        ent = module.names.get(name)
        if ent:
            e = ent[-1]
            if e[0] in ("func", "class"):
                return e
            if e[0] == "import":
                if e[1] in self.modules:
                    return ("mod", self.modules[e[1]])
                return ("ext", e[1])
            if e[0] == "from":
                return self.member(e[1], e[2], seen)
            if e[0] == "assign":
                return ("assign", module, name, [x[1] for x in ent if x[0] == "assign"])
        for base in module.star:
            if base in self.modules:
                bm = self.modules[base]
                if bm.all is not None and name not in bm.all:
                    continue
                if bm.all is None and name.startswith("_"):
                    continue
                r = self.lookup(bm, name, seen)
                if r:
                    return r
        if module.name + "." + name in self.modules and module.is_pkg:
            return ("mod", self.modules[module.name + "." + name])
        return None

    def member(self, modname, name, seen=()):
        if modname in self.modules:
            r = self.lookup(self.modules[modname], name, seen)
            if r:
                return r
            if modname + "." + name in self.modules:
                return ("mod", self.modules[modname + "." + name])
            return None
        if modname + "." + name in self.modules:
            return ("mod", self.modules[modname + "." + name])
        return ("ext", modname + "." + name)

    def resolve_expr(self, module, expr):
        """Resolve a Name/Attribute/constant-string expression to a class/func/ext/module."""
        if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
            try:
                expr = ast.parse(expr.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(expr, ast.Name):
            r = self.lookup(module, expr.id)
            if r is None and expr.id in BUILTIN_TYPES:
                return ("ext", expr.id)
            return r
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(module, expr.value)
            if b is None:
                return None
            if b[0] == "mod":
                return self.member(b[1].name, expr.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + expr.attr)
        return None

    def cls(self, name):
        """class by unqualified name (unique) - None when absent"""
        hits = [c for c in self.classes.values() if c.name == name]
        return hits[0] if hits else None

    def public(self, name):
        """what `popsynth.<name>` is"""
        return self.lookup(self.modules[self.package], name)


BUILTIN_TYPES = {"object", "dict", "list", "tuple", "set", "str", "int", "float", "bool", "bytes", "Exception", "type", "property",
                 "RuntimeError", "ValueError", "KeyError", "AttributeError", "TypeError", "AssertionError", "NotImplementedError"}
