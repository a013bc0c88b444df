"""C29: no public operation reads an undefined name or attribute."""
import ast
import builtins
import glob
import os
import re
import symtable
import types

from ..interp import Interp
from ..terms import *
from . import catalog as K
from . import topo as T
from .c08 import OPTIONAL

from .base import REPO, PRELUDE
from .c22 import modules

EXPLANATION = ("Two cooperating analyses. (1) Whole-program name resolution: every name load of every scope (symbol tables), every attribute of a package module or "
               "of numpy, every exported name, every attribute read from self/cls (against the stores of the class, its bases and whatever other code "
               "stores on its objects) and every local must have some definition that can reach it. (2) Definite assignment: every public operation of "
               "every class and module is interpreted abstractly on objects in each stage of their life with arbitrary flags; no operation may leave by "
               "NameError or UnboundLocalError, or by an AttributeError that comes from reading an attribute nothing assigned.")
ASSUMPTIONS = ("attributes of objects of third-party types exist, apart from numpy's module members, which are read from its stubs",)

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__builtins__", "__class__", "__qualname__", "__module__",
                                "__annotations__", "WindowsError"}


def program():
    I = Interp(root=REPO)
    I.exists_mode = FALSE
    I.run_driver("".join("import %s\n" % m for m in modules()), "psa_driver_modules")
    return I


# ------------------------------------------------------------------ names
def module_names(m):
    """names a module binds at its top level, or that a function binds through a global statement"""
    out = set(m.names)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    for n in ast.walk(m.tree):          # star targets, walrus, with, match ... at module level
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    top = symtable.symtable(open(m.path).read(), m.path, "exec")
    out |= {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    return out


def names(ctx, P):
    n = 0
    for m in lib(P):
        have = module_names(m) | BUILTIN
        if m.star:
            for b in m.star:
                have |= set(P.modules[b].names) if b in P.modules else set()
        where = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                where.setdefault(x.id, []).append(x.lineno)

        def scope(t, q):
            nonlocal n
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == "module" and not s.is_assigned() and not s.is_imported() and not s.is_namespace()):
                    n += 1
                    nm = s.get_name()
                    lines = [l for l in where.get(nm, []) if l >= t.get_lineno()] or where.get(nm, [0])
                    ctx.expect(nm in have, "name", "%s:%s" % (q, nm), (m.rel, lines[0] if lines else 0, q), "%s reads the name '%s', which nothing defines" % (q, nm))
            for c in t.get_children():
                scope(c, q + "." + c.get_name())
        scope(symtable.symtable(open(m.path).read(), m.path, "exec"), m.name)
        for e in m.all or ():
            n += 1
            ctx.expect(e in have or m.name + "." + e in P.modules, "export", "%s:%s" % (m.name, e), (m.rel, 1, m.name), "%s exports '%s', which does not exist" % (m.name, e))
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                base = x.module or ""
                if x.level:
                    parts = m.name.split(".")
                    up = x.level - (1 if m.is_pkg else 0)
                    parts = parts[:len(parts) - up] if up else parts
                    base = ".".join(parts + ([x.module] if x.module else []))
                if base.split(".")[0] != "popsynth":
                    continue
                for a in x.names:
                    if a.name == "*":
                        continue
                    n += 1
                    ok = base + "." + a.name in P.modules or base in P.modules and a.name in module_names(P.modules[base])
                    ctx.expect(ok or base.endswith("_version"), "import", "%s:%s.%s" % (m.name, base, a.name), (m.rel, x.lineno, m.name),
                               "%s imports '%s' from %s, which does not define it" % (m.name, a.name, base))
    return n


def lib(P):
    return [m for n, m in sorted(P.modules.items()) if n.startswith("popsynth") and ".test" not in n and not n.endswith("_version")]


def numpy_names():
    """public members of numpy and of its namespaces, from the installed type stubs"""
    out = {}
    for root in sorted(glob.glob("/opt/venv/lib/python3*/site-packages/numpy") + glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/numpy")):
        for sub, rel in (("numpy", "__init__.pyi"), ("numpy.random", "random/__init__.pyi"), ("numpy.linalg", "linalg/__init__.pyi")):
            p = os.path.join(root, rel)
            if not os.path.exists(p):
                continue
            t = ast.parse(open(p).read())
            have = set()
            for n in t.body:
                have |= declared(n)
            out[sub] = have | {"random", "linalg", "fft", "ma", "testing", "__version__", "dtype", "newaxis"}
        if out:
            for f in glob.glob(root + "/core/*.py") + glob.glob(root + "/_core/*.py") + glob.glob(root + "/lib/*.py"):
                for n in ast.walk(ast.parse(open(f).read())):
                    if isinstance(n, (ast.List, ast.Tuple)):
                        out["numpy"] |= {e.value for e in n.elts if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value.isidentifier()}
            return out
    return out


def declared(n):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        return {n.name}
    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
        return {n.target.id}
    if isinstance(n, ast.Assign):
        return {t.id for t in n.targets if isinstance(t, ast.Name)}
    if isinstance(n, ast.ImportFrom):
        return {a.asname or a.name for a in n.names}
    if isinstance(n, ast.Import):
        return {a.asname or a.name.split(".")[0] for a in n.names}
    if isinstance(n, ast.If):
        r = set()
        for x in n.body + n.orelse:
            r |= declared(x)
        return r
    return set()


def members(ctx, P):
    np_ = numpy_names()
    n = 0
    for m in lib(P):
        alias = {}
        for nm, ds in m.names.items():
            if len(ds) != 1:
                continue
            d = ds[0]
            if d[0] == "import":
                alias[nm] = d[1]
            elif d[0] == "from":
                alias[nm] = d[1] + "." + d[2]
        shadow = {}
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                st = {a.arg for a in f.args.args + f.args.kwonlyargs} | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for x in ast.walk(f):
                    shadow.setdefault(id(x), set()).update(st)

        def dotted(x):
            if isinstance(x, ast.Name):
                return None if x.id in shadow.get(id(x), ()) else alias.get(x.id)
            if isinstance(x, ast.Attribute):
                b = dotted(x.value)
                return None if b is None else b + "." + x.attr
            return None
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load):
                continue
            b = dotted(x.value)
            if b is None:
                continue
            if b in P.modules and b.startswith("popsynth"):
                n += 1
                ok = b + "." + x.attr in P.modules or x.attr in module_names(P.modules[b]) or x.attr in ("__version__", "__path__", "__file__", "__name__", "__doc__")
                ctx.expect(ok, "member", "%s:%s.%s" % (m.name, b, x.attr), (m.rel, x.lineno, m.name), "%s reads %s.%s, which does not exist" % (m.name, b, x.attr))
            elif b in np_:
                n += 1
                ctx.expect(x.attr in np_[b] or x.attr.startswith("__"), "member", "%s:%s.%s" % (m.name, b, x.attr), (m.rel, x.lineno, m.name),
                           "%s reads %s.%s, which does not exist" % (m.name, b, x.attr))
    return n


# ------------------------------------------------------------------ attributes of self
KNOWN_BASES = {"object": object, "type": type, "dict": dict, "list": list, "str": str, "int": int, "Exception": Exception, "RuntimeError": RuntimeError,
               "ValueError": ValueError}


def external(name):
    short = name.split(".")[-1]
    if short in KNOWN_BASES:
        return set(dir(KNOWN_BASES[short]))
    if short == "ABC" or short == "Generic":
        return set(dir(object)) | {"_abc_impl", "register", "__abstractmethods__"}
    if short == "ABCMeta":
        import abc
        return set(dir(abc.ABCMeta))
    if name.split(".")[0] == "logging":
        import logging
        x = logging
        for p in name.split(".")[1:]:
            x = getattr(x, p, None)
        if isinstance(x, type):
            import inspect
            own = set(dir(x))
            for c in x.__mro__[:-1]:
                try:
                    own |= set(re.findall(r"self\.(\w+)\s*=", inspect.getsource(c)))
                except (OSError, TypeError):
                    pass
            return own
    if short == "ndarray":
        import numpy
        return set(dir(numpy.ndarray))
    if short in ("with_metaclass",):
        return set(dir(object))
    return None


def named_stores(x):
    """[(target, name)] of attributes stored by name: setattr, __setattr__, and entries of __dict__ or vars()"""
    def dict_of(e):
        if isinstance(e, ast.Attribute) and e.attr == "__dict__":
            return e.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "vars" and len(e.args) == 1:
            return e.args[0]
        return None
    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and dict_of(x.value) is not None:
        return [(dict_of(x.value), x.slice)]
    if not isinstance(x, ast.Call):
        return []
    if isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) == 3:
        return [(x.args[0], x.args[1])]
    if isinstance(x.func, ast.Attribute) and x.func.attr == "__setattr__":
        if len(x.args) == 3:
            return [(x.args[0], x.args[1])]
        if len(x.args) == 2:
            tgt = x.func.value
            if isinstance(tgt, ast.Call):       # super().__setattr__(name, value) inside a method
                tgt = ast.Name("self", ast.Load())
            return [(tgt, x.args[0])]
    if isinstance(x.func, ast.Attribute) and x.func.attr in ("update", "setdefault", "__setitem__") and dict_of(x.func.value) is not None:
        t = dict_of(x.func.value)
        if x.func.attr != "update":
            return [(t, x.args[0])] if x.args else []
        out = [(t, ast.Constant(k.arg)) for k in x.keywords if k.arg]
        if x.args or any(k.arg is None for k in x.keywords):
            out.append((t, None))
        return out
    return []


def matching(e, texts):
    """names that a computed attribute name can take, when its variable part is one of the texts of the package"""
    import re

    def pat(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return re.escape(e.value)
        if isinstance(e, ast.JoinedStr):
            return "".join(pat(v) for v in e.values)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return pat(e.left) + pat(e.right)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return "{}".join(re.escape(p) for p in e.left.value.split("%s"))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format" and isinstance(e.func.value, ast.Constant):
            return "{}".join(re.escape(p) for p in re.split(r"\{[^}]*\}", str(e.func.value.value)))
        return "{}"
    p = re.sub(r"(\{\})+", "{}", pat(e) if e is not None else "{}")
    return {p.replace("{}", t) for t in texts} if "{}" in p else {p}


def stores(P):
    """per class: attributes stored by its own methods; and attributes stored on anything that is not self"""
    own, other = {}, {}
    texts = set()
    for c in P.classes.values():
        own.setdefault(c, set())
    for m in lib(P):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                texts.add(x.value)
            elif isinstance(x, ast.keyword) and x.arg:
                texts.add(x.arg)
    for m in lib(P):
        def walk(node, cls, me):
            for x in ast.iter_child_nodes(node):
                if isinstance(x, ast.ClassDef):
                    ci = [c for c in P.classes.values() if c.node is x]
                    walk(x, ci[0] if ci else cls, None)
                    continue
                sm = me
                if isinstance(x, ast.FunctionDef) and isinstance(node, ast.ClassDef):
                    static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in x.decorator_list)
                    sm = x.args.args[0].arg if x.args.args and not static else None
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    if isinstance(x.value, ast.Name) and x.value.id == sm and cls is not None:
                        own[cls].add(x.attr)
                    else:
                        other.setdefault(x.attr, []).append(m.name)
                        if cls is not None and is_meta(cls):
                            own[cls].add(x.attr)
                for tgt, name in named_stores(x):
                    me_ = isinstance(tgt, ast.Name) and tgt.id == sm and cls is not None
                    for a in ({name.value} if isinstance(name, ast.Constant) else matching(name, texts)):
                        if me_:
                            own[cls].add(a)
                        elif isinstance(name, ast.Constant):
                            other.setdefault(a, []).append(m.name)
                walk(x, cls, sm)
        walk(m.tree, None, None)
    return own, other


def is_meta(c):
    return any(e.split(".")[-1] in ("type", "ABCMeta") for e in c.ext_root())


def provided(c, own):
    out = set()
    for b in c.mro():
        out |= set(b.methods) | set(b.setters) | set(b.props) | set(b.attrs) | own.get(b, set())
        for x in b.node.body:
            if isinstance(x, ast.Assign):
                out |= {n.id for t in x.targets for n in ast.walk(t) if isinstance(n, ast.Name)}
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and (x.value is not None or any("dataclass" in d for d in b.decorators)):
                out.add(x.target.id)
            elif isinstance(x, (ast.For, ast.If, ast.Try, ast.With)):
                out |= {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return out


def concrete(c, f):
    for b in c.mro():
        g = b.methods.get(f.name) or (b.props.get(f.name) or [None])[0]
        if g is not None:
            return not g.abstract
    return False


def guarded(fn, x):
    """a read inside try/except AttributeError, or of an attribute the function asks for with hasattr"""
    for t in ast.walk(fn):
        if isinstance(t, ast.Try) and any(y is x for b in t.body for y in ast.walk(b)):
            for h in t.handlers:
                names_ = {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)} if h.type is not None else {"Exception"}
                if names_ & {"AttributeError", "Exception", "BaseException"}:
                    return True
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("hasattr", "getattr") and len(t.args) >= 2:
            a = t.args[1]
            if isinstance(a, ast.Constant) and a.value == x.attr:
                return True
    return False


def attributes(ctx, P):
    own, other = stores(P)
    n = 0
    reads_of = {}
    for m in lib(P):
        def walk(node, cls, me, fn):
            for x in ast.iter_child_nodes(node):
                if isinstance(x, ast.ClassDef):
                    ci = [c for c in P.classes.values() if c.node is x]
                    walk(x, ci[0] if ci else None, None, None)
                    continue
                sm, sf = me, fn
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    if isinstance(node, ast.ClassDef) and isinstance(x, ast.FunctionDef):
                        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in x.decorator_list) or x.name == "__new__"
                        sm = x.args.args[0].arg if x.args.args and not static else None
                        sf = x
                    elif sm in {a.arg for a in x.args.args}:
                        sm = None
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == sm and cls is not None:
                    reads_of.setdefault(cls, []).append((x, sf, m))
                walk(x, cls, sm, sf)
        walk(m.tree, None, None, None)
    classes = [c for c in P.classes.values() if c.module in lib(P)]
    unknown = set()
    # a class that only adds methods to the classes it is combined with is judged in those combinations
    mixins = {b for c in classes for b in c.bases if len(c.bases) > 1 and set(b.ext_root()) <= {"object"} and len(b.mro()) == 1}
    for c in classes:
        if c in mixins:
            continue
        ext = set(dir(object)) | {"__dict__"}
        skip = False
        for b in c.ext_root():
            e = external(b)
            if e is None:
                unknown.add(b)
                skip = True
                break
            ext |= e
        if skip:
            continue
        if is_meta(c):
            ext |= set(dir(type)) | {"__abstractmethods__"}
        have = provided(c, own) | ext
        if any(f.abstract for b in c.mro() for f in list(b.methods.values()) + [p[0] for p in b.props.values() if p and p[0]]
               if not concrete(c, f)):
            for b in c.all_subs():      # an abstract class may rely on what every concrete class must define
                have |= provided(b, own)
        # a class below an instrumenting metaclass also has what the metaclass stores on it
        for b in c.mro():
            for mc in P.classes.values():
                if is_meta(mc):
                    have |= own[mc] | {k for k in other if any(q == mc.module.name for q in other[k])}
        for b in c.mro():
            for x, fn, m in reads_of.get(b, ()):
                n += 1
                if x.attr in have or guarded(fn, x):
                    ctx.discharge("attribute", "%s.%s:%s" % (c.name, fn.name, x.attr))
                elif x.attr in other:
                    ctx.discharge("attribute", "%s.%s:%s" % (c.name, fn.name, x.attr))
                else:
                    ctx.violation("attribute", "%s.%s:%s" % (b.name, fn.name, x.attr), (m.rel, x.lineno, "%s.%s" % (b.name, fn.name)),
                                  "%s.%s reads the attribute '%s', which no method of the class hierarchy assigns" % (b.name, fn.name, x.attr))
    ctx.stats["classes with unknown external bases"] = len(unknown)
    for b in sorted(unknown):
        ctx.notes.append("not analysed for attributes: base %s" % b)
    return n



# ------------------------------------------------------------------ locals
def locals_(ctx, P):
    """a read of a local variable that no assignment can reach"""
    n = 0
    for m in lib(P):
        for f in ast.walk(m.tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            own, glob_ = set(), set()
            for x in walk_own(f):
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    glob_ |= set(x.names)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    own.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    own.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    own |= {(a.asname or a.name).split(".")[0] for a in x.names}
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    own.add(x.name)
            own -= glob_
            a = f.args
            start = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            bad = []
            flow(f.body, set(start), own - start, bad, [])
            n += len(own)
            seen = {b[0] for b in bad}
            for v in own - seen:
                ctx.discharge("local", "%s.%s:%s" % (m.name, f.name, v))
            for v, line in bad:
                ctx.violation("local", "%s.%s:%s" % (m.name, f.name, v), (m.rel, line, f.name), "%s.%s reads its local variable '%s' before anything can have assigned it" %
                              (m.name, f.name, v))
    return n


def walk_own(f):
    stack = list(f.body)
    while stack:
        x = stack.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                break
            stack.append(c)


def reads(x, st, own, bad):
    for c in [x] if x is not None else []:
        stack = [c]
        while stack:
            y = stack.pop()
            if isinstance(y, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(y, ast.NamedExpr):
                st.add(y.target.id)
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in own and y.id not in st:
                bad.append((y.id, y.lineno))
            stack.extend(ast.iter_child_nodes(y))


def bindt(t, st):
    st |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}


def flow(body, st, own, bad, brk):
    """may-assigned names; None = unreachable"""
    for s in body:
        if st is None:
            return None
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                reads(c, st, own, bad)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if brk:
                brk[-1] |= st
            return None
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is not None:
                reads(s.value, st, own, bad)
            for t in ts:
                if isinstance(s, ast.AugAssign) and isinstance(t, ast.Name) and t.id in own and t.id not in st:
                    bad.append((t.id, s.lineno))
                reads(t, st, own, bad)
                if s.value is not None:
                    bindt(t, st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                reads(t, st, own, bad)
                if isinstance(t, ast.Name):
                    st.discard(t.id)
        elif isinstance(s, ast.If):
            reads(s.test, st, own, bad)
            a, b = flow(s.body, set(st), own, bad, brk), flow(s.orelse, set(st), own, bad, brk)
            st = b if a is None else a if b is None else a | b
        elif isinstance(s, (ast.For, ast.While)):
            reads(s.iter if isinstance(s, ast.For) else s.test, st, own, bad)
            if isinstance(s, ast.For):
                bindt(s.target, st)
            acc = set()
            once = flow(s.body, set(st), own, [], brk + [acc])        # what an earlier pass can have assigned
            st |= (once or set()) | acc
            flow(s.body, set(st), own, bad, brk + [set()])
            st2 = flow(s.orelse, set(st), own, bad, brk)
            st = st if st2 is None else st | st2
        elif isinstance(s, ast.Try):
            b = flow(s.body, set(st), own, bad, brk)
            maybe = set(st)
            for x in s.body:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        maybe.add(y.id)
            outs = []
            if b is not None:
                b = flow(s.orelse, b, own, bad, brk)
            if b is not None:
                outs.append(b)
            for h in s.handlers:
                hs = set(maybe) | ({h.name} if h.name else set())
                r = flow(h.body, hs, own, bad, brk)
                if r is not None:
                    outs.append(r - ({h.name} if h.name else set()))
            st = set().union(*outs) if outs else None
            if s.finalbody:
                r = flow(s.finalbody, set(maybe) | (st or set()), own, bad, brk)
                st = None if st is None or r is None else r
        elif isinstance(s, ast.With):
            for it in s.items:
                reads(it.context_expr, st, own, bad)
                if it.optional_vars is not None:
                    bindt(it.optional_vars, st)
            st = flow(s.body, st, own, bad, brk)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                reads(d, st, own, bad)
            if isinstance(s, ast.FunctionDef):
                for d in s.args.defaults + [k for k in s.args.kw_defaults if k is not None]:
                    reads(d, st, own, bad)
            st.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            st |= {(a.asname or a.name).split(".")[0] for a in s.names}
        else:
            for c in ast.iter_child_nodes(s):
                reads(c, st, own, bad)
    return st


# ------------------------------------------------------------------ definite assignment on every public operation
ARG = {"size": "integer('N')", "z": "array('Z', integer('N'))", "r": "array('Z', integer('N'))", "distance": "array('Z', integer('N'))", "L": "array('Lum', integer('N'))",
       "luminosity": "array('Lum', integer('N'))", "flux": "array('Flx', integer('N'))", "observed_flux": "array('Flx', integer('N'))",
       "observed_value": "array('Val', integer('N'))", "value": "WHERE", "spatial_distribtuion": "SPD", "spatial_distribution": "WHERE", "parent_name": "'parent'",
       "selector": "SEL", "sampler": "SMP", "auxiliary_sampler": "SMP", "spatial_selector": "SPSEL", "other": "SEL", "uses": "['distance']", "key": "'k'",
       "file_name": "'out.file'", "group_name": "'grp'", "name": "'nm'", "start": "real('start')", "stop": "real('stop')", "f": "array('Flx', integer('N'))",
       "f_sigma": "real('fs')", "input": "SYNTH.to_dict()", "secondary_values": "SEC", "x": "array('Z', integer('N'))", "data_file": "'f.txt'", "level": "'INFO'",
       "itr": "[1, 2]", "xmax": "real('xmax')", "ymax": "real('ymax')", "theta": "array('th', integer('N'))", "phi": "array('ph', integer('N'))",
       "values": "array('Val', integer('N'))", "cmap": "'viridis'", "use_log": "flag('ulog')", "normalize": "flag('norm')", "log": "flag('log')", "observed": "flag('obsv')",
       "reset": "flag('rst')", "log10_flux_draw": "flag('l10')"}

COMMON = T.GENERIC + """
from popsynth.distribution import SpatialContainer
WHERE = SpatialContainer(array('Z', integer('N')), array('th', integer('N')), array('ph', integer('N')))
SPD = spatial()
SPD.draw_distance(size=integer('N'))
SPD.draw_sky_positions(integer('N'))
SEL = Sel("arg")
SEL.select(integer("N"))
SPSEL = SpSel("arg")
SMP = Smp("arg")
SYNTH = popsynth.PopulationSynth(spatial(), ParetoDistribution(), seed=1)
"""


def members_of(ci):
    seen, props, meths = set(), [], []
    for c in ci.mro():
        if not c.module.name.startswith("popsynth") or c.module.name.startswith("psa_"):
            continue
        for n in c.props:
            if n not in seen and not n.startswith("_"):
                seen.add(n)
                props.append(n)
        for n, f in c.methods.items():
            if n in seen or n.startswith("_") and n not in ("__repr__", "__str__", "__len__", "__add__"):
                continue
            seen.add(n)
            if f.kind == "func" and not f.abstract:
                a = f.node.args
                names_ = [x.arg for x in a.args[1:]]
                req = names_[:len(names_) - len(a.defaults)]
                meths.append((n, req, names_[len(req):]))
    return props, meths


def pokes(ci, var, stage, skip=()):
    """groups (labels, code): all properties together; every method alone (required arguments; then all arguments that have a meaning here)"""
    props, meths = members_of(ci)

    def one(label, expr):
        return [label], "mark(%r, attempt(%s))\n" % (label, expr)
    groups = [one("%s %s.%s" % (stage, ci.name, p), "getattr, %s, %r" % (var, p)) for p in props if p not in skip]
    groups = [([l for g in groups for l in g[0]], "".join(g[1] for g in groups))] if groups else []
    for n, req, opt in meths:
        if n in skip:
            continue
        if any(r not in ARG for r in req):
            groups.append((["?%s.%s(%s)" % (ci.name, n, ", ".join(req))], ""))
            continue
        args = ["%s" % ARG[r] for r in req]
        groups.append(one("%s %s.%s()" % (stage, ci.name, n), ", ".join(["%s.%s" % (var, n)] + args)))
        more = ["%s=%s" % (o, ARG[o]) for o in opt if o in ARG]
        if more:
            groups.append(one("%s %s.%s(%s)" % (stage, ci.name, n, ", ".join(opt)), ", ".join(["%s.%s" % (var, n)] + args + more)))
    return groups


def defined(ctx, sc, labels, attrs=True):
    """no marked operation may leave by reading something undefined"""
    I = sc.I
    ctx.expect(I.pc is not FALSE, "completes", sc.name, None, "the uses in '%s' never complete" % sc.name)
    for l in labels:
        if l.startswith("?"):
            ctx.notes.append("no argument is known for %s: %s" % (sc.name, l[1:]))
            continue
        if l not in getattr(I, "marks", {}):
            ctx.expect(False, "defined", sc.name + ":" + l, None, "'%s' is never reached" % l)
            continue
        g, args, h = I.marks[l][:3]
        ok = True
        res = args[0]
        for gr, leaf in exceptions(res):
            why = undefined(sc, leaf, b_and(g, gr))
            if why and (attrs or "AttributeError" not in why[2]):
                ok = False
                ctx.violation("defined", why[0], why[1], "%s: %s" % (l, why[2]))
        if ok:
            ctx.discharge("defined", sc.name + ":" + l)


def exceptions(res):
    """(guard, exception) pairs of the value of attempt(...)"""
    out, seen = [], set()

    def pairs(v):
        stack, done = [v], set()
        while stack:
            x = stack.pop()
            if x.id in done:
                continue
            done.add(x.id)
            if x.op == "ite":
                stack.extend(x.args[1:])
            else:
                yield x
    for leaf in pairs(res):
        if leaf.op != "tuple" or len(leaf.args) != 2 or not isinstance(leaf.args[1], Term):
            continue
        for x in pairs(leaf.args[1]):
            if x.op == "exc" and (leaf.id, x.id) not in seen:
                seen.add((leaf.id, x.id))
                out.append((b_and(guard_of(res, lambda y: y is leaf), guard_of(leaf.args[1], lambda y: y is x)), x))
    return out


def undefined(sc, x, g):
    if x.op != "exc" or g is FALSE:
        return None
    a = x.args[0]
    cls = str(a.args[0] if isinstance(a, Term) and a.args else a)
    kind = [n for n in ("UnboundLocalError", "NameError", "AttributeError", "ImportError") if n in cls]
    if not kind:
        return None
    evs = [e for e in sc.I.events if (e.kind == "raise" and cls in show(e.data[0], 3) and kind[0] in ("UnboundLocalError",)
                                      or e.kind == "undefined-name" and kind[0] == "NameError"
                                      or e.kind == "missing-attr" and kind[0] == "AttributeError") and sc.sat(b_and(e.guard, g))]
    named = x.args[1][0] if len(x.args) > 1 and isinstance(x.args[1], tuple) and x.args[1] else None
    evs = [e for e in evs if named is None or any(d is named for d in e.data)]
    if not evs or not sc.sat(g):
        return None
    e = evs[-1]
    what = cval(e.data[-1]) if e.kind == "missing-attr" else show(e.data[-1] if e.kind != "raise" else e.data[1], 2)
    return ("%s:%s" % (e.loc[2] if e.loc and len(e.loc) > 2 else e.loc, what), e.loc, "fails with %s: %s" % (kind[0], what))


def lint(ctx):
    P = program().P
    ctx.stats["name obligations"] = names(ctx, P)
    ctx.stats["member obligations"] = members(ctx, P)
    ctx.stats["attribute obligations"] = attributes(ctx, P)
    ctx.stats["locals"] = locals_(ctx, P)


def operations(ctx, name, src, ci, var, stage, attrs=True, apart=()):
    """each operation on the object as the prefix leaves it; cheap ones share a scene"""
    groups = pokes(ci, var, stage)
    shared = [g for g in groups if not any(a in g[0][0] for a in apart)]
    for k in range(0, len(shared), 6):
        batch(ctx, "%s %s %d" % (name, stage, k // 6), src, shared[k:k + 6], attrs)
    for g in groups:
        if g not in shared:
            batch(ctx, "%s %s" % (name, g[0][0]), src, [g], attrs)


def batch(ctx, name, src, groups, attrs):
    sc = ctx.scene(name, src + "".join(g[1] for g in groups), must_complete=False)
    defined(ctx, sc, [l for g in groups for l in g[0]], attrs)


USE = {
    "aux": """
o.set_selection_probability(Sel("keep"))
o.set_secondary_sampler(Smp("sec"))
o.set_spatial_values(WHERE)
o.set_luminosity(array('Lum', integer('N')))
o.draw(size=integer('N'))
""",
    "spatial": "o.draw_distance(size=integer('N'))\no.draw_sky_positions(integer('N'))\n",
    "lum": "o.compute_probability(o.draw_luminosity(size=integer('N')))\n",
    "sel": """
o.set_uses(["obs_value"])
for w in ("set_distance", "set_luminosity", "set_observed_flux", "set_observed_value"):
    if hasattr(o, w):
        getattr(o, w)(array(w, integer('N')))
if hasattr(o, "set_spatial_distribution"):
    o.set_spatial_distribution(SPD)
o.select(integer('N'))
""",
}


def building_block(ctx, it):
    src = COMMON + it.build("o", extra="observed=flag('observed')" if "observed" in it.optional else "")
    operations(ctx, it.name, src, it.ci, "o", "fresh", False)
    operations(ctx, it.name, src + USE[it.kind], it.ci, "o", "drawn")
    if it.kind in ("aux", "sel"):
        operations(ctx, it.name, src + USE[it.kind] + "o.reset()\n", it.ci, "o", "reset", False)


def population(ctx, derived, origin, tag, plain=False):
    ci = [c for c in program().P.classes.values() if c.name == "Population" and c.module.name == "popsynth.population"][0]
    src = COMMON + T.setup(derived, not plain)[len(T.GENERIC):] + "pop = synth.draw_survey(flux_sigma=%s)\n" % ("None" if plain else "real('fs')") + origin
    operations(ctx, "population", src, ci, "pop", tag, apart=("display", "writeto", "addto", "sub_pop"))


def synth(ctx, derived, lum, stage):
    ci = [c for c in program().P.classes.values() if c.name == "PopulationSynth"][0]
    src = COMMON + T.setup(derived, lum)[len(T.GENERIC):] + stage
    operations(ctx, "synth" + (" derived" if derived else "" if lum else " plain"), src, ci, "synth", "after " + (stage.strip() or "configuration").replace("\n", ", "),
               apart=(".draw_survey", "clean", "write_to", "add_", "set_", "to_dict"))


OBJECTS = (
    ("popsynth.simulated_variable", "SimulatedVariable", "SimulatedVariable(array('ov', integer('N')), array('lv', integer('N')), boolarray('sv', integer('N')))"),
    ("popsynth.auxiliary_sampler", "SecondaryContainer", "SecondaryContainer('sc', array('tv', integer('N')), array('ov', integer('N')), boolarray('sv', integer('N')), array('pv', integer('N')))"),
    ("popsynth.auxiliary_sampler", "SecondaryStorage", "SecondaryStorage()"),
    ("popsynth.distribution", "SpatialContainer", "SpatialContainer(array('Z', integer('N')), array('th', integer('N')), array('ph', integer('N')))"),
    ("popsynth.selection_probability.selection_probability", "DummySelection", "SEL + SEL"),
    ("popsynth.aux_samplers.sky_sampler", "SkySampler", "SkySampler()"),
    ("popsynth.utils.cosmology", "Cosmology", "Cosmology(Om=real('Om'), h0=real('h0'))"),
    ("popsynth.utils.logging", "LoggingState", "LoggingState(popsynth_usr_log_handler, popsynth_console_log_handler)"),
)
FUNCTION_ARGS = {"items": "{}", "path": "'/'", "dic": "{'a': {'b': real('v')}}", "graph_dict": "{'a': {}}", "fill_value": "'fill'", "xmin": "real('x0')", "alpha": "real('al')",
                 "u": "array('u', integer('N'))", "x0": "real('x0')", "x1": "real('x1')", "x2": "real('x2')", "a1": "real('a1')", "a2": "real('a2')",
                 "r0": "real('r0')", "a": "real('a')", "rise": "real('rise')", "decay": "real('decay')", "peak": "real('peak')", "Lambda": "real('Lambda')",
                 "delta": "real('delta')", "R": "array('R', integer('N'))", "func": "(lambda x: ufn('f', x))", "h5file": "h5py.File('a.h5', 'w')", "n": "integer('N')"}


def objects(ctx):
    P = program().P
    for mod, name, make in OBJECTS:
        ci = [c for c in P.classes.values() if c.name == name and c.module.name == mod]
        if not ci:
            ctx.notes.append("no class %s.%s" % (mod, name))
            continue
        skip = {"add_secondary", "__add__"} if name == "SecondaryStorage" else {"filter", "format"}
        src = COMMON + "from %s import *\nfrom %s import %s\no = %s\n" % (mod, mod, name, make)
        if name == "LoggingState":
            src = src.replace("from %s import *\n" % mod, "from %s import popsynth_usr_log_handler, popsynth_console_log_handler\n" % mod)
        if name == "SecondaryStorage":
            ok = [g for g in pokes(ci[0], "o", "used") if not any(k in g[0][0] for k in skip)]
            batch(ctx, name, src, ok, True)
        else:
            operations(ctx, name, src, ci[0], "o", "used")


def descriptions(ctx):
    src = COMMON + OPTIONAL + "i = 0\nfor c in CASES:\n    mark('read description %d' % i, attempt(popsynth.PopulationSynth.from_dict, description(c)))\n    i += 1\n"
    sc = ctx.scene("descriptions with optional parts", src, must_complete=False)
    defined(ctx, sc, ["read description %d" % i for i in range(75)])


def functions(ctx):
    P = program().P
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.qual):
        if f.cls is not None or f.parent is not None or f.module not in lib(P) or f.abstract or f.name.startswith("_"):
            continue
        a = [x.arg for x in f.node.args.args]
        a = a[:len(a) - len(f.node.args.defaults)]
        vals = [FUNCTION_ARGS.get(x, ARG.get(x)) for x in a]
        if any(v is None for v in vals):
            ctx.notes.append("function not called on its own: %s(%s)" % (f.qual, ", ".join(a)))
            continue
        ctx.run(function, ctx, f, vals)


def function(ctx, f, vals):
    l = "%s()" % f.qual
    batch(ctx, l, "import h5py\n" + COMMON + "import %s\n" % f.module.name, [([l], "mark(%r, attempt(%s))\n" % (l, ", ".join([f.qual] + vals)))], False)


REFUSED = """
import popsynth
from popsynth.populations.pareto_populations import ParetoHomogeneousSphericalPopulation as P
from popsynth.aux_samplers.normal_aux_sampler import NormalAuxSampler
from popsynth.distributions.spherical_distribution import ConstantSphericalDistribution
def kind(f, *a, **k):
    try:
        f(*a, **k)
    except AttributeError:
        return "a missing attribute"
    except NameError:
        return "an undefined name"
    except Exception:
        return "its own error"
    return "nothing"
class Other:
    pass
synth = P(Lambda=real("Lambda"), Lmin=real("Lmin"), alpha=real("alpha"), r_max=real("rmax"))
smp = NormalAuxSampler("smp")
for x in (integer("n"), None, "text", Other(), Other, [real("x")]):
    EQ(kind(synth.add_observed_quantity, x), "its own error", "add_observed_quantity refuses with")
    EQ(kind(synth.set_flux_selection, x), "its own error", "set_flux_selection refuses with")
    EQ(kind(synth.set_distance_selection, x), "its own error", "set_distance_selection refuses with")
    EQ(kind(synth.add_spatial_selector, x), "its own error", "add_spatial_selector refuses with")
    EQ(kind(smp.set_selection_probability, x), "its own error", "set_selection_probability refuses with")
    EQ(kind(popsynth.PopulationSynth, x), "its own error", "PopulationSynth refuses with")
    if x is not None:
        EQ(kind(popsynth.PopulationSynth, ConstantSphericalDistribution(), luminosity_distribution=x), "its own error", "PopulationSynth refuses with")
"""


def refusals(ctx):
    """what is passed instead of a sampler, a selection or a distribution may have none of their attributes"""
    sc = ctx.scene("refused arguments", REFUSED)
    ctx.check_all(sc, "refusal", labels=["add_observed_quantity refuses with"])


def check(ctx):
    ctx.run(lint, ctx)
    ctx.run(refusals, ctx)
    ctx.run(objects, ctx)
    functions(ctx)
    ctx.run(descriptions, ctx)
    for k in ("aux", "spatial", "lum", "sel"):
        for it in K.kinds(k):
            ctx.run(building_block, ctx, it)
    for derived in (False, True):
        for origin, tag in (("", "drawn"), ("pop = pop.to_sub_population()\n", "sub"), ("pop = pop.to_sub_population(observed=False)\n", "hidden"),
                            ("pop.writeto('a.h5')\npop = popsynth.Population.from_file('a.h5')\n", "read back")):
            ctx.run(population, ctx, derived, origin, tag)
        for stage in ("", "synth.draw_survey()\n", "synth.clean()\n", "synth.draw_survey()\nsynth.clean(reset=True)\n"):
            ctx.run(synth, ctx, derived, True, stage)
    ctx.run(population, ctx, False, "", "plain", True)
    ctx.run(synth, ctx, False, False, "")
