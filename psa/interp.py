"""Interprocedural abstract interpreter over value-number terms.

The analysed program (the package plus a small scenario module that uses it
through its public interface) is evaluated statement by statement in the abstract
domain of terms.py: both arms of a branch whose condition is not a constant are
evaluated and *joined* with gates, loops with unknown trip count are widened to a
generic iteration, external libraries are replaced by the summaries in lib.py.
Nothing of the package is imported, executed or handed to a solver."""
import ast
import builtins
import sys

from .model import FuncInfo, Program, own_walk
from .terms import *
from . import terms as T

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """the analysis itself cannot continue (unsupported construct, missing anchor)"""


class H(dict):
    """abstract store; `dirty` are the cells written since the entry of the current function"""
    __slots__ = ("dirty",)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.dirty = set()

    def fork(self):
        h = H(self)
        h.dirty = set(self.dirty)
        return h


class Exit:
    __slots__ = ("kind", "pc", "h", "val", "frame")

    def __init__(self, kind, pc, h, val, frame):
        self.kind, self.pc, self.h, self.val, self.frame = kind, pc, h, val, frame


class Event:
    __slots__ = ("kind", "guard", "data", "loc", "loops", "order", "stack")

    def __init__(self, kind, guard, data, loc, loops, order, stack):
        self.kind, self.guard, self.data, self.loc = kind, guard, data, loc
        self.loops, self.order, self.stack = loops, order, stack

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, show(self.data), self.loc)


class ObjInfo:
    __slots__ = ("oid", "kind", "cls", "label", "loc")

    def __init__(self, oid, kind, cls, label, loc):
        self.oid, self.kind, self.cls, self.label, self.loc = oid, kind, cls, label, loc


class Frame:
    __slots__ = ("fid", "func", "module", "locals", "parent", "cls", "exits", "guard", "facts", "yield_cb", "scope",
                 "globals", "loops")

    def __init__(self, fid, func, module, lcl, parent, cls):
        self.fid, self.func, self.module, self.locals, self.parent, self.cls = fid, func, module, lcl, parent, cls
        self.exits = []
        self.guard, self.facts = TRUE, {}
        self.yield_cb = None
        self.scope = "func"
        self.globals = ()


def contains_leaf(x, old):
    ls = leaves(x, 40)
    return ls is not None and old in ls


EXC = {n: getattr(builtins, n) for n in dir(builtins)
       if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

UFUNC_OF = {"Add": "add", "Sub": "subtract", "Mult": "multiply", "Div": "true_divide", "Pow": "power", "Mod": "mod",
            "FloorDiv": "floor_divide", "BitAnd": "bitwise_and", "BitOr": "bitwise_or", "BitXor": "bitwise_xor",
            "MatMult": "matmul", "LShift": "left_shift", "RShift": "right_shift",
            "Lt": "less", "LtE": "less_equal", "Gt": "greater", "GtE": "greater_equal", "Eq": "equal", "NotEq": "not_equal"}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "Mod": "mod", "FloorDiv": "floordiv",
          "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul", "LShift": "lshift", "RShift": "rshift"}
CMPD = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}
DICTLIKE = ("dict", "OrderedDict", "collections.OrderedDict", "dotmap.DotMap", "collections.UserDict",
            "collections.defaultdict", "typing.Dict", "UserDict", "collections.abc.MutableMapping")


def settle(v, cond):
    """the value at a loop exit, knowing that the exit condition holds"""
    v = simplify_under(v, cond)
    if v.op == "seq" and any(x.op == "ite" for x in v.args):
        xs = [simplify_under(x, cond) for x in v.args]
        v = raw("seq", *[x for x in xs if x is not ABSENT])
    return v


class Interp:
    def __init__(self, program=None, root="/repo", drivers=None, implicit_exc=False):
        from . import lib
        self.P = program or Program(root)
        self.lib = lib
        self.implicit_exc = implicit_exc
        self.h = H()
        self.pc = TRUE
        self.info = {}
        self.next_oid = 1
        self.next_fid = 1
        self.frames = []
        self.frame = None
        self.events = []
        self.order = 0
        self.loop_stack = ()
        self.next_loop = 1
        self.funcinfo = {}
        self.mod_state = {}
        self.checks = []
        self.calls_analysed = 0
        self.funcs_seen = set()
        self.loops = {}
        self.symn = 0
        self.lamdepth = 0
        self.unsupported = []
        self.stats = {"forks": 0, "joins": 0}
        self.classnode = {}
        self.localcache = {}
        self.nocheck = 0
        for c in self.P.classes.values():
            self.classnode[c.node] = c
        self.frame = Frame(0, None, None, set(), None, None)
        self.frames = [self.frame]

    # ------------------------------------------------------------------ utilities
    def loc(self):
        return T.CUR["loc"]

    def guard(self):
        return b_and(self.frame.guard, self.pc)

    def emit(self, kind, *data):
        if self.pc is FALSE:
            return
        self.order += 1
        e = Event(kind, self.guard(), data, self.loc(), self.loop_stack, self.order,
                  tuple(f.func.qual if f.func else "?" for f in self.frames[1:]))
        self.events.append(e)
        return e

    def alloc(self, kind, cls, label):
        oid = self.next_oid
        self.next_oid += 1
        self.info[oid] = ObjInfo(oid, kind, cls, label, self.loc())
        t = raw("obj", oid, "%s#%d" % (label, oid))
        self.put((oid, "$alive"), TRUE)
        return t

    def oinfo(self, t):
        return self.info[t.args[0]] if t.op == "obj" else None

    def oinfo_by_id(self, oid):
        oi = self.info.get(oid) if isinstance(self.info, dict) else self.info[oid]
        return "?" if oi is None else (oi.cls.qual if oi.cls else oi.label)

    def put(self, key, val):
        self.h[key] = val
        self.h.dirty.add(key)

    def get(self, key, default=ABSENT):
        v = self.h.get(key, default)
        if v.op == "ite":
            v = self.restrict(v)
        return v

    def restrict(self, v):
        f = self.frame.facts
        if self.pc is not TRUE:
            l = literals(self.pc)
            if l:
                f = dict(f)
                f.update(l)
        v = bdd_restrict(v, f)
        if v.op == "ite" and self.pc is not TRUE:
            v = simplify_under(v, self.pc)
        return v

    def new_list(self, items, label="list"):
        o = self.alloc("list", None, label)
        self.put((o.args[0], "$items"), raw("seq", *items))
        return o

    def new_dict(self, items=(), label="dict", cls=None):
        o = self.alloc("dict", cls, label)
        self.put((o.args[0], "$keys"), raw("keys"))
        for k, v in items:
            self.dict_set(o, k, v)
        return o

    # ---------------------------------------------------------------- fork / join
    def branch(self, c, fa, fb):
        """evaluate fa under c and fb under not c, join; returns the joined value"""
        c = self.restrict(c) if c.op == "ite" else c
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        if self.pc is FALSE:
            return BOTTOM
        self.stats["forks"] += 1
        h0, pc0 = self.h, self.pc
        fkey = None
        ha = h0.fork()
        self.h, self.pc = ha, b_and(pc0, c)
        if self.pc is FALSE:
            va = BOTTOM
        else:
            va = fa()
        ha, pca = self.h, self.pc
        self.h, self.pc = h0, b_and(pc0, b_not(c))
        if self.pc is FALSE:
            vb = BOTTOM
        else:
            vb = fb()
        hb, pcb = self.h, self.pc
        return self.join(c, (va, ha, pca), (vb, hb, pcb))

    def join(self, c, a, b):
        va, ha, pca = a
        vb, hb, pcb = b
        if pca is FALSE and pcb is FALSE:
            self.h, self.pc = ha, FALSE
            return BOTTOM
        if pca is FALSE:
            self.h, self.pc = hb, pcb
            return vb
        if pcb is FALSE:
            self.h, self.pc = ha, pca
            return va
        self.stats["joins"] += 1
        self.h = self.merge_heaps(c, ha, hb)
        self.pc = b_or(pca, pcb)
        if va is None and vb is None:
            return None
        if va is None or vb is None:
            return va if vb is None else vb
        return mk_ite(c, va, vb)

    def merge_heaps(self, c, ha, hb):
        keys = ha.dirty | hb.dirty
        out = hb
        for k in keys:
            x, y = ha.get(k, ABSENT), hb.get(k, ABSENT)
            if x is y:
                continue
            if x is ABSENT and (k[0], "$alive") not in ha and isinstance(k[0], int):
                v = y
            elif y is ABSENT and (k[0], "$alive") not in hb and isinstance(k[0], int):
                v = x
            elif k[0] == "L" and (x is ABSENT or y is ABSENT) and k[1] != self.frame.fid and not self.live_frame(k[1]):
                v = y if x is ABSENT else x
            elif k[1] == "$keys":
                v = self.merge_keys(x, y)
            elif k[1] == "$items" and x.op == "seq" and y.op == "seq":
                v = self.merge_seq(c, x, y)
            else:
                v = mk_ite(c, x, y)
            if v is ABSENT:
                out.pop(k, None)
            else:
                out[k] = v
        out.dirty = keys
        return out

    def live_frame(self, fid):
        return any(f.fid == fid for f in self.frames)

    def merge_keys(self, x, y):
        if x is ABSENT:
            return y
        if y is ABSENT:
            return x
        a, b = x.args, y.args
        if a[:len(b)] == b:
            return x
        if b[:len(a)] == a:
            return y
        return raw("keys", *(list(a) + [k for k in b if k not in a]))

    def merge_seq(self, c, x, y):
        """lists of two branches: common prefix, then guarded elements"""
        a, b = x.args, y.args
        out = []
        i = 0
        if len(a) == len(b):
            return raw("seq", *[mk_ite(c, p, q) for p, q in zip(a, b)])
        while i < len(a) and i < len(b) and a[i] is b[i]:
            out.append(a[i])
            i += 1
        out += [mk_ite(c, p, ABSENT) for p in a[i:]]
        out += [mk_ite(c, ABSENT, q) for q in b[i:]]
        return raw("seq", *out)

    def merge_exits(self, exits):
        """join a list of (pc, h, val) of disjoint path conditions"""
        pc, h, val = exits[-1]
        for p, hh, v in reversed(exits[:-1]):
            c = simplify_under(p, b_or(p, pc)) if p.op == "ite" else p
            h = self.merge_heaps(c, hh, h)
            if val is not None or v is not None:
                val = mk_ite(c, v if v is not None else NONE, val if val is not None else NONE)
            pc = b_or(p, pc)
        return pc, h, val

    def split(self, v, fn):
        """apply fn to every alternative of a gated value, under its gate, and join"""
        if v.op == "ite":
            v = self.restrict(v)
        if v.op != "ite" or self.pc is FALSE:
            return fn(v)
        at = v.args[0]
        return self.branch(atom_of(at), lambda: self.split(v.args[1], fn), lambda: self.split(v.args[2], fn))

    def lift(self, fn, *args, limit=64):
        """hoist gates out of pure operations"""
        if self.pc is FALSE:
            return BOTTOM
        if not any(a.op == "ite" for a in args):
            return fn(*args)
        n = 1
        for a in args:
            if a.op == "ite":
                l = leaves(a, limit)
                n *= 1000 if l is None else len(l)
        if n > limit:
            return fn(*args)
        memo = {}

        def go(xs):
            k = tuple(x.id for x in xs)
            r = memo.get(k)
            if r is not None:
                return r
            v = None
            for x in xs:
                if x.op == "ite" and (v is None or x.args[0].id < v.id):
                    v = x.args[0]
            if v is None:
                r = BOTTOM if any(x is BOTTOM for x in xs) else fn(*xs)
            else:
                r = mk_ite(atom_of(v), go([cof(x, v, True) for x in xs]), go([cof(x, v, False) for x in xs]))
            memo[k] = r
            return r
        return go(list(args))

    # --------------------------------------------------------------------- exits
    def exit(self, kind, val=None, frame=None):
        if self.pc is FALSE:
            return
        self.frame.exits.append(Exit(kind, self.pc, self.h, val, frame or self.frame.fid))
        self.h = H()          # dead
        self.pc = FALSE

    def raise_(self, name, *args):
        """raise a builtin exception"""
        self.emit("raise", const(name), *args)
        self.exit("raise", raw("exc", name, tuple(args)))
        return BOTTOM

    def raise_if(self, c, name, *args):
        """conditionally raise; analysis continues under not c"""
        c = self.restrict(c) if c.op == "ite" else c
        if c is FALSE or self.pc is FALSE:
            return
        if c is TRUE:
            self.raise_(name, *args)
            return
        self.branch(c, lambda: self.raise_(name, *args), lambda: None)

    # -------------------------------------------------------------------- modules
    def load(self, modname):
        """abstract import of a module"""
        st = self.mod_state.get(modname)
        if st:
            return
        if "." in modname:
            self.load(modname.rsplit(".", 1)[0])
            if self.mod_state.get(modname):
                return
        m = self.P.modules.get(modname)
        if m is None:
            return
        self.mod_state[modname] = "loading"
        self.in_frame(FuncInfo(m.tree, m, None, "<module>"), m, None, lambda fr: self.block(m.tree.body), scope="module")
        self.mod_state[modname] = "loaded"

    def in_frame(self, func, module, parent, body, scope="func", cls=None, lcl=None):
        fid = self.next_fid
        self.next_fid += 1
        fr = Frame(fid, func, module, lcl or set(), parent, cls)
        fr.scope = scope
        old, oldloc = self.frame, self.loc()
        fr.guard = b_and(old.guard, self.pc)
        fr.facts = dict(old.facts)
        fr.facts.update(literals(self.pc))
        pc0 = self.pc
        dirty0 = self.h.dirty
        self.h.dirty = set()
        self.pc = TRUE
        self.frames.append(fr)
        self.frame = fr
        try:
            if len(self.frames) > 180:
                raise AnalysisError("call depth")
            val = body(fr)
        finally:
            self.frames.pop()
            self.frame = old
        T.CUR["loc"] = oldloc
        # merge the normal exits
        outs = [(e.pc, e.h, e.val) for e in fr.exits if e.kind == "return" and e.frame == fid]
        if self.pc is not FALSE:
            outs.append((self.pc, self.h, val if val is not None else NONE))
        for e in fr.exits:
            if e.kind == "return" and e.frame == fid:
                continue
            e.h.dirty = e.h.dirty | dirty0
            e.pc = b_and(pc0, e.pc)
            if e.pc is not FALSE:
                old.exits.append(e)
        if not outs:
            self.pc = FALSE
            self.h = H()
            return BOTTOM
        pc, h, v = self.merge_exits(outs)
        h.dirty = h.dirty | dirty0
        self.h = h
        self.pc = b_and(pc0, pc)
        return v

    def gkey(self, module, name):
        return ("M", module.name, name)

    # ------------------------------------------------------------------ name lookup
    def lookup(self, name, node=None):
        fr = self.frame
        f = fr
        while f is not None and f.scope != "module":
            if f.scope == "class" and f is not fr:
                f = f.parent
                continue
            if name in f.locals and name not in f.globals:
                if f.scope == "class":
                    v = self.get(("C", f.cls, name))
                    if v is ABSENT:
                        f = f.parent
                        continue
                    return v
                v = self.get(("L", f.fid, name))
                if v is ABSENT or v is UNBOUND:
                    return self.raise_("UnboundLocalError", const(name))
                if v.op == "ite":
                    g = guard_of(v, lambda x: x is ABSENT)
                    if g is not FALSE:
                        self.raise_if(g, "UnboundLocalError", const(name))
                        v = map_leaves(v, lambda x: BOTTOM if x is ABSENT else x)
                return v
            f = f.parent
        m = fr.module
        v = self.global_(m, name)
        if v is not None:
            return v
        if name in self.lib.INTRINSICS and getattr(m, "driver", False) is not False or \
                (name in self.lib.INTRINSICS and m.name.startswith("psa_driver")):
            return raw("intr", name)
        if hasattr(builtins, name):
            if name == "NotImplemented":
                return NOTIMPL
            if name == "Ellipsis":
                return ELLIPSIS
            return raw("ext", name)
        if name in ("__name__",):
            return const(m.name)
        if name == "__file__":
            return const(m.rel)
        self.emit("undefined-name", const(name))
        return self.raise_("NameError", const(name))

    def global_(self, m, name):
        v = self.get(("M", m.name, name))
        if v is not ABSENT:
            return v
        if name in ("__name__",):
            return const(m.name)
        # submodule of a package
        sub = m.name + "." + name
        if m.is_pkg and sub in self.P.modules:
            self.load(sub)
            return raw("mod", self.P.modules[sub])
        return None

    def assign_name(self, name, val):
        f = self.frame
        if f.scope == "module" or name in f.globals:
            self.put(("M", f.module.name, name), val)
        elif f.scope == "class":
            self.put(("C", f.cls, name), val)
        else:
            if name not in f.locals:
                # nonlocal (or a walrus in a comprehension): the nearest enclosing function that has the name
                g = f.parent
                while g is not None and (g.scope != "func" or name not in g.locals):
                    g = g.parent
                if g is not None:
                    f = g
                elif f.func is not None and f.func.name == "<comp>":
                    self.put(("M", f.module.name, name), val)
                    return
            self.put(("L", f.fid, name), val)

    def ext(self, dotted):
        """value of a dotted name outside the package: modelled in the analysed language, or by a summary"""
        from . import pylib
        if dotted in pylib.NAMES:
            m = pylib.module(self)
            v = self.get(("M", m.name, pylib.NAMES[dotted]))
            if v is not ABSENT:
                return v
        return self.lib.ext_value(dotted)

    # ------------------------------------------------------------------- functions
    def finfo(self, node, name):
        fi = self.funcinfo.get(node)
        if fi is None:
            fr = self.frame
            cls = fr.cls if fr.scope == "class" else None
            kind = "lambda" if isinstance(node, ast.Lambda) else "func"
            fi = FuncInfo(node, fr.module, cls, name, kind, fr.func if fr.scope == "func" and fr.func else None)
            if not isinstance(node, ast.Lambda):
                self.P._decorate(fi)
            self.funcinfo[node] = fi
        return fi

    def locals_of(self, fi):
        r = self.localcache.get(fi.node)
        if r is not None:
            return r
        s, g = set(), set()
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            s.add(x.arg)
        if a.vararg:
            s.add(a.vararg.arg)
        if a.kwarg:
            s.add(a.kwarg.arg)
        body = fi.node.body if isinstance(fi.node.body, list) else [fi.node.body]
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                s.add(n.name)
                stack.extend(getattr(n, "decorator_list", []))
                continue
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if not isinstance(n, ast.Lambda):
                    stack.append(n.generators[0].iter)
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr):
                        s.add(w.target.id)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                s.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    s.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and n.name:
                s.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                s.add(n.rest)
            elif isinstance(n, (ast.Global,)):
                g.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                g.update(())
                s.difference_update(n.names)
                self.localcache.setdefault(("nl", fi.node), set()).update(n.names)
            stack.extend(ast.iter_child_nodes(n))
        nl = self.localcache.get(("nl", fi.node), set())
        s -= nl
        self.localcache[fi.node] = (s, g)
        return s, g

    def make_fn(self, node, name):
        fi = self.finfo(node, name)
        a = node.args
        defaults = tuple(self.ev(d) for d in a.defaults)
        kwd = tuple(self.ev(d) if d is not None else ABSENT for d in a.kw_defaults)
        clo = 0
        fr = self.frame
        while fr is not None and fr.scope == "class":
            fr = fr.parent          # names of a class body are not seen from its methods
        if fr is not None and fr.scope == "func":
            clo = fr.fid
            self.closures = getattr(self, "closures", {})
            self.closures[clo] = fr
        return raw("fn", fi, clo, defaults, kwd)

    def call_fn(self, fv, args, kwargs, body_override=None):
        fi, clo, defaults, kwd = fv.args
        if self.pc is FALSE:
            return BOTTOM
        depth = sum(1 for f in self.frames if f.func is fi)
        if depth > 12:
            self.emit("recursion", const(fi.qual))
            return raw("app", "rec:" + fi.qual, *args)
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = list(args)
        for n in names:
            if pos:
                vals[n] = pos.pop(0)
        extra = pos
        if extra and not a.vararg:
            return self.raise_("TypeError", const("too many arguments"), const(fi.qual))
        kwrest = []
        kwnames = set(names[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs:
            if k in kwnames:
                if k in vals:
                    return self.raise_("TypeError", const("multiple values"), const(fi.qual))
                vals[k] = v
            elif a.kwarg:
                kwrest.append((k, v))
            else:
                return self.raise_("TypeError", const("unexpected keyword %s" % k), const(fi.qual))
        nd = len(defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    return self.raise_("TypeError", const("missing argument %s" % n), const(fi.qual))
                vals[n] = defaults[j]
        for x, d in zip(a.kwonlyargs, kwd):
            if x.arg not in vals:
                if d is ABSENT:
                    return self.raise_("TypeError", const("missing argument %s" % x.arg), const(fi.qual))
                vals[x.arg] = d
        self.calls_analysed += 1
        self.funcs_seen.add(fi.qual)
        lcl, glb = self.locals_of(fi)
        parent = self.closures.get(clo) if clo else None

        def body(fr):
            fr.globals = glb
            for n, v in vals.items():
                self.put(("L", fr.fid, n), v)
            if a.vararg:
                self.put(("L", fr.fid, a.vararg.arg), raw("tuple", *extra))
            if a.kwarg:
                self.put(("L", fr.fid, a.kwarg.arg),
                         self.new_dict([(const(k), v) for k, v in kwrest], "kwargs"))
            if fi.abstract and not getattr(fi.module, "driver", False):
                pass
            if body_override is not None:
                return body_override(fr)
            if isinstance(fi.node, ast.Lambda):
                self.setloc(fi.node)
                return self.ev(fi.node.body)
            self.block(fi.node.body)
            return None
        r = self.in_frame(fi, fi.module, parent, body, cls=fi.cls, lcl=lcl)
        return r

    def setloc(self, node):
        fr = self.frame
        loc = T.CUR["loc"] = (getattr(node, "_mod", None) or (fr.module.rel if fr.module else "?"), getattr(node, "lineno", 0),
                              fr.func.qual if fr.func else "?")
        if loc[0].startswith("popsynth/"):
            if not loc[0].startswith("popsynth/utils") or len(self.frames) > 1 and getattr(self.frames[-2].module, "name", "").startswith("psa_driver"):
                T.CUR["lib"] = loc

    # -------------------------------------------------------------------- statements
    def block(self, stmts):
        if callable(stmts):
            stmts()
            return
        for s in stmts:
            if self.pc is FALSE:
                return
            self.setloc(s)
            getattr(self, "st_" + type(s).__name__, self.st_unsupported)(s)

    def st_unsupported(self, s):
        self.unsupported.append((type(s).__name__, self.loc()))
        self.emit("unsupported", const(type(s).__name__))

    def st_Pass(self, s):
        pass

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Global(self, s):
        pass

    def st_Nonlocal(self, s):
        pass

    def st_Import(self, s):
        for a in s.names:
            if a.name in self.P.modules or a.name.split(".")[0] == self.P.package:
                self.load(a.name)
                if a.asname:
                    self.assign_name(a.asname, raw("mod", self.P.modules[a.name]))
                else:
                    self.assign_name(a.name.split(".")[0], raw("mod", self.P.modules[a.name.split(".")[0]]))
            else:
                self.emit("import", const(a.name))
                self.assign_name(a.asname or a.name.split(".")[0], raw("ext", a.name if a.asname else a.name.split(".")[0]))

    def st_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            m = self.frame.module
            parts = m.name.split(".")
            up = s.level if not m.is_pkg else s.level - 1
            parts = parts[:len(parts) - up] if up else parts
            base = ".".join(parts + ([s.module] if s.module else []))
        internal = base in self.P.modules
        if internal:
            self.load(base)
        for a in s.names:
            if a.name == "*":
                if internal:
                    m = self.P.modules[base]
                    names = [k[2] for k in list(self.h) if k[0] == "M" and k[1] == base]
                    allv = self.get(("M", base, "__all__"))
                    if allv is not ABSENT:
                        it = self.get((allv.args[0], "$items")) if allv.op == "obj" else allv
                        names = [cval(x) for x in it.args]
                    else:
                        names = [n for n in names if not n.startswith("_")]
                    for n in names:
                        v = self.global_(m, n)
                        if v is None:
                            self.emit("missing-export", const(base), const(n))
                            self.raise_("AttributeError", const(n))
                            return
                        self.assign_name(n, v)
                continue
            if internal:
                v = self.global_(self.P.modules[base], a.name)
                if v is None:
                    if a.name == "get_versions" or base.endswith("_version"):
                        v = raw("ext", base + "." + a.name)
                    else:
                        self.emit("missing-import", const(base), const(a.name))
                        self.raise_("ImportError", const(a.name))
                        return
            elif base.split(".")[0] == self.P.package and not base.endswith("_version"):
                self.emit("missing-import", const(base), const(a.name))
                self.raise_("ImportError", const(base))
                return
            else:
                v = self.ext(base + "." + a.name)
            self.assign_name(a.asname or a.name, v)

    def st_FunctionDef(self, s):
        v = self.make_fn(s, s.name)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v)
        self.assign_name(s.name, v)

    st_AsyncFunctionDef = st_FunctionDef

    def decorate(self, d, v):
        # x.setter etc. inside a class body
        if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.attr in ("setter", "getter", "deleter"):
            p = self.ev(d.value)
            if p.op == "property":
                g, st = p.args[0], p.args[1]
                return raw("property", v if d.attr == "getter" else g, v if d.attr == "setter" else st)
        dv = self.ev(d)
        return self.lib.apply_decorator(self, dv, v)

    def st_ClassDef(self, s):
        ci = self.classnode.get(s)
        if ci is None:
            from .model import ClassInfo
            ci = ClassInfo(s, self.frame.module, s.name)
            for b in s.bases:
                v = self.ev(b)
                if v.op == "cls":
                    ci.bases.append(v.args[0])
                    v.args[0].subclasses.append(ci)
                elif v.op == "ext":
                    ci.ext_bases.append(v.args[0])
            ci.qual = (self.frame.func.qual if self.frame.func else self.frame.module.name) + "." + s.name
            self.classnode[s] = ci
        else:
            for b in s.bases:
                v = self.ev(b)
                if v.op == "cls" and "?" + ast.unparse(b) in ci.ext_bases:
                    # a base that only evaluation can tell, e.g. a call of namedtuple
                    ci.ext_bases.remove("?" + ast.unparse(b))
                    ci.bases.append(v.args[0])
                    v.args[0].subclasses.append(ci)
                    ci._mro = None
        meta = ABSENT
        ckw = []
        for k in s.keywords:
            if k.arg == "metaclass":
                meta = self.ev(k.value)
            elif k.arg:
                ckw.append((k.arg, self.ev(k.value)))
        ct = raw("cls", ci)
        fi = FuncInfo(s, self.frame.module, None, s.name)
        names = set()
        for n in own_walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        for n in s.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
        # class cells in textual order, for the attrs dict handed to a metaclass
        parent = self.frame if self.frame.scope == "func" else None
        self.in_frame(fi, self.frame.module, parent, lambda fr: self.block(s.body), scope="class", cls=ci, lcl=names)
        self.finish_class(ci, ct, ckw)
        if meta is ABSENT:
            for c in ci.mro()[1:]:
                mv = self.get(("C", c, "$meta"))
                if mv is not ABSENT:
                    meta = mv
                    break
        if meta is not ABSENT:
            self.put(("C", ci, "$meta"), meta)
            self.lib.run_metaclass(self, meta, ct, ci)
        v = ct
        for d in reversed(s.decorator_list):
            v = self.lib.apply_decorator(self, self.ev(d), v)
        self.assign_name(s.name, v)

    def finish_class(self, ci, ct, ckw):
        """what type.__new__ does after the class body: __set_name__, __init_subclass__, enumeration members, named tuples"""
        own = [(k[2], v) for k, v in list(self.h.items()) if k[0] == "C" and k[1] is ci and isinstance(k[2], str) and not k[2].startswith("$")]
        roots = ci.ext_root()
        if any(r.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag") and r.startswith("enum.") for r in roots):
            members = []
            for st in ci.node.body:
                ts = st.targets if isinstance(st, ast.Assign) else []
                for t in ts:
                    v = self.get(("C", ci, t.id)) if isinstance(t, ast.Name) and not t.id.startswith("_") else ABSENT
                    if v is ABSENT or v.op in ("fn", "property", "static", "clsm"):
                        continue
                    if v.op == "app" and v.args[0] == "enum.auto":
                        v = const(len(members) + 1)
                    m = self.alloc("inst", ci, ci.name + "." + t.id)
                    self.put((m.args[0], "value"), v)
                    self.put((m.args[0], "_value_"), v)
                    self.put((m.args[0], "name"), const(t.id))
                    self.put(("C", ci, t.id), m)
                    members.append(m)
            self.put(("C", ci, "$members"), raw("seq", *members))
        if any(r in ("typing.NamedTuple", "NamedTuple") for r in roots) and "typing.NamedTuple" in ci.ext_bases:
            from . import pylib
            names = [st.target.id for st in ci.node.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]
            d = self.new_dict([(const(n), self.get(("C", ci, n))) for n in names if self.get(("C", ci, n)) is not ABSENT])
            for n in names:
                self.put(("C", ci, n), ABSENT)
            self.put(("C", ci, "_fields"), raw("tuple", *[const(n) for n in names]))
            self.put(("C", ci, "_field_defaults"), d)
            base = self.get(("M", pylib.module(self).name, "NamedTupleBase")).args[0]
            ci.ext_bases = []
            ci.bases = [base]
            ci._mro = None
        for n, v in own:
            if v.op == "obj" and self.pc is not FALSE:
                sn = self.class_lookup(v, "__set_name__")
                if sn is not ABSENT:
                    self.call(self.bind(sn, v), [ct, const(n)], [])
        if self.pc is FALSE:
            return
        for c in ci.mro()[1:]:
            v = self.get(("C", c, "__init_subclass__"))
            if v is not ABSENT:
                self.call(v.args[0] if v.op in ("clsm", "static") else v, [ct], ckw)
                return

    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        fr = self.frame
        self.exit("return", v, fr.fid)

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is None:
            if self.frame.scope == "class" and isinstance(s.target, ast.Name):
                pass
            return
        self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if self.pc is FALSE:
            return
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr_(o, self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            self.setitem(o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.concrete_items(v)
                k = star[0]
                if items is None:
                    raise AnalysisError("star assignment of unknown sequence")
                after = n - k - 1
                parts = items[:k] + [self.new_list(items[k:len(items) - after])] + items[len(items) - after:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.unpack(v, i, n))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisError("assign target")

    def unpack(self, v, i, n):
        def one(x):
            items = self.concrete_items(x)
            if items is not None:
                if i < len(items):
                    return items[i]
                return self.raise_("ValueError", const("not enough values to unpack"))
            return self.lib.index(self, x, const(i))
        return self.split(v, one) if v.op == "ite" and not all(
            x.op in ("tuple", "obj") for x in (leaves(v) or [])) else self.lift(one, v)

    def st_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
            v = self.ev(s.value)
            self.assign_name(t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr_(o, self.mangle(t.attr))
            v = self.ev(s.value)
            self.setattr_(o, self.mangle(t.attr), self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            cur = self.getitem(o, i)
            v = self.ev(s.value)
            self.setitem(o, i, self.inplace(op, cur, v))

    def inplace(self, op, cur, v):
        if self.pc is FALSE:
            return BOTTOM

        def one(c):
            if c.op == "obj":
                m = self.class_lookup(c, "__i%s__" % DUNDER[op])
                if m is not ABSENT:
                    return self.call(self.bind(m, c), [v], [])
                oi = self.oinfo(c)
                if oi.kind == "list" and op == "Add":
                    self.lib.list_extend(self, c, v)
                    return c
                if oi.kind == "inst" and self.is_array_inst(c) and self.class_lookup(c, "__array_ufunc__") is not ABSENT:
                    return self.lib.ufunc_dispatch(self, UFUNC_OF[op], [c, v], [("out", raw("tuple", c))])
            res = self.binop(op, c, v)
            if self.pc is not FALSE and c.op not in ("obj", "const", "tuple", "ite"):
                res = self.mutate_array(c, res, "aug")
            return res
        return self.split(cur, one)

    def mutate_array(self, old, new, how):
        """an array was modified in place: every cell that holds the same array sees the new content"""
        from . import shape
        if old.op in ("const", "obj", "tuple", "bottom"):
            return new
        sh = shape.shape_of(self, old)
        if not shape.is_array(sh) and not (old.op == "fresh" and sh == ()):
            return new
        new = self.lib.fresh(self, new)
        self.emit("inplace", old, new, const(how))
        for k, x in list(self.h.items()):
            if x is old:
                self.put(k, new)
            elif x.op == "ite" and contains_leaf(x, old):
                self.put(k, map_leaves(x, lambda l: new if l is old else l))
            elif x.op in ("seq", "tuple") and old in x.args:
                self.put(k, raw(x.op, *[new if l is old else l for l in x.args]))
        return new

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if self.frame.scope == "module":
                    self.h.pop(("M", self.frame.module.name, t.id), None)
                else:
                    self.assign_name(t.id, ABSENT)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                i = self.ev(t.slice)
                self.split(o, lambda x: self.lib.delitem(self, x, i))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.split(o, lambda x: self.put((x.args[0], t.attr), ABSENT) if x.op == "obj" else None)

    def st_If(self, s):
        c = self.truth(self.ev(s.test))
        if self.pc is FALSE:
            return
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def st_Match(self, s):
        v = self.ev(s.subject)

        def cases(cs):
            if not cs or self.pc is FALSE:
                return
            c = cs[0]
            binds = []
            g = self.pattern(c.pattern, v, binds)
            if self.pc is FALSE:
                return

            def hit():
                for n, x in binds:
                    self.assign_name(n, x)
                if c.guard is None:
                    self.block(c.body)
                else:
                    t = self.truth(self.ev(c.guard))
                    if self.pc is not FALSE:
                        self.branch(t, lambda: self.block(c.body), lambda: cases(cs[1:]))
            self.branch(g, hit, lambda: cases(cs[1:]))
        cases(s.cases)

    def pattern(self, p, v, binds):
        """condition under which v matches the pattern; appends the names it binds"""
        k = type(p).__name__
        if k == "MatchValue":
            return self.truth(self.compare("Eq", v, self.ev(p.value)))
        if k == "MatchSingleton":
            return self.compare("Is", v, const(p.value))
        if k == "MatchAs":
            g = TRUE if p.pattern is None else self.pattern(p.pattern, v, binds)
            if p.name is not None:
                binds.append((p.name, v))
            return g
        if k == "MatchOr":
            g = FALSE
            for q in p.patterns:
                b2 = []
                g2 = self.pattern(q, v, b2)
                if b2 and g is not FALSE:
                    raise AnalysisError("match: alternatives that bind names")
                binds.extend(b2)
                g = b_or(g, g2)
            return g
        if k == "MatchSequence":
            items = self.concrete_items(v) if v.op in ("tuple", "seq") or v.op == "obj" and self.oinfo(v).kind == "list" else None
            if items is None:
                if v.op in ("const", "fn", "cls") or v.op == "obj":
                    return FALSE
                raise AnalysisError("match: sequence pattern over an unknown value")
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if not star and len(items) != n or star and len(items) < n - 1:
                return FALSE
            g = TRUE
            for i, q in enumerate(p.patterns):
                if star and i == star[0]:
                    if q.name:
                        binds.append((q.name, self.new_list(items[i:len(items) - (n - i - 1)])))
                    continue
                x = items[i] if not star or i < star[0] else items[len(items) - (n - i)]
                g = b_and(g, self.pattern(q, x, binds))
            return g
        if k == "MatchMapping":
            if not (v.op == "obj" and self.lib.is_dict(self, v)):
                return FALSE
            g = TRUE
            for kn, q in zip(p.keys, p.patterns):
                kk = self.ev(kn)
                x = self.dict_get(v, kk)
                if x is ABSENT:
                    return FALSE
                if x.op == "ite":
                    g = b_and(g, guard_of(x, lambda l: l is not ABSENT))
                    x = map_leaves(x, lambda l: BOTTOM if l is ABSENT else l)
                g = b_and(g, self.pattern(q, x, binds))
            if p.rest:
                binds.append((p.rest, self.new_dict([(x, self.dict_get(v, x)) for _, x in self.dict_keys(v) or []
                                                     if x not in [self.ev(q) for q in p.keys]])))
            return g
        if k == "MatchClass":
            cls = self.ev(p.cls)
            g = self.truth(self.call(raw("ext", "isinstance"), [v, cls], []))
            if g is FALSE:
                return FALSE
            names = list(p.kwd_attrs)
            pats = list(p.patterns) + list(p.kwd_patterns)
            if p.patterns:
                if cls.op == "ext" and len(p.patterns) == 1 and not names:
                    return b_and(g, self.pattern(p.patterns[0], v, binds))
                ma = self.getattr_(cls, "__match_args__", NONE)
                its = self.dataclass_fields(cls.args[0]) if ma is NONE and cls.op == "cls" else [cval(x) for x in self.concrete_items(ma)]
                names = its[:len(p.patterns)] + names
            for n, q in zip(names, pats):
                g = b_and(g, self.pattern(q, self.getattr_(v, n), binds))
            return g
        raise AnalysisError("match: " + k)

    def st_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if self.pc is FALSE or c is TRUE:
            return
        self.branch(c, lambda: None, lambda: self.raise_("AssertionError", *([] if s.msg is None else [self.ev(s.msg)])))

    def st_Raise(self, s):
        if s.exc is None:
            e = self.get(("L", self.frame.fid, "$exc"))
            if e is ABSENT:
                e = raw("exc", "RuntimeError", ())
        else:
            e = self.ev(s.exc)
            if s.cause is not None:
                self.ev(s.cause)
        if self.pc is FALSE:
            return
        if e.op == "cls" and any(r in EXC for r in e.args[0].ext_root()):
            e = self.call(e, [], [])
            if self.pc is FALSE:
                return
        e = map_leaves(e, self.as_exc)
        self.emit("raise", e)
        self.exit("raise", e)

    def as_exc(self, e):
        if e.op == "exc":
            return e
        if e.op == "ext":
            return raw("exc", e.args[0], ())
        if e.op == "cls":
            return raw("exc", e.args[0].name, (e,))
        if e.op == "obj":
            oi = self.oinfo(e)
            return raw("exc", oi.cls.name if oi.cls else "Exception", (e,))
        if e.op == "bottom":
            return e
        return raw("exc", "Exception", (e,))

    def exc_match(self, e, types):
        """TRUE/FALSE/None(maybe)"""
        name = e.args[0]
        res = FALSE
        for t in types:
            if t.op == "cls":
                for a in e.args[1]:
                    c = a.args[0] if a.op == "cls" else (self.oinfo(a).cls if a.op == "obj" else None)
                    if c is not None and hasattr(c, "mro") and t.args[0] in c.mro():
                        return TRUE
                continue
            tn = t.args[0] if t.op == "ext" else None
            base = name
            if base not in EXC:
                # repository or library exception: look at its external bases
                base = "Exception"
                for a in e.args[1]:
                    c = a.args[0] if a.op == "cls" else (self.oinfo(a).cls if a.op == "obj" else None)
                    if c is not None and hasattr(c, "ext_root"):
                        for r in c.ext_root():
                            if r in EXC:
                                base = r
                if tn and tn.split(".")[-1] == name.split(".")[-1]:
                    return TRUE
            if tn in EXC:
                if issubclass(EXC[base], EXC[tn]):
                    return TRUE
                if name == "$any" and issubclass(EXC[tn], Exception):
                    res = None
        return res

    def st_Try(self, s):
        fr = self.frame
        outer = fr.exits
        fr.exits = []
        self.block(s.body)
        inner = fr.exits
        fr.exits = []
        if self.pc is not FALSE and s.orelse:
            self.block(s.orelse)
        normal = [(self.pc, self.h, None)] if self.pc is not FALSE else []
        pending = [e for e in inner if e.kind != "raise"]
        raised = [e for e in inner if e.kind == "raise"]
        for hd in s.handlers:
            matched, rest = [], []
            types = None
            if hd.type is not None:
                # types are evaluated in some live state
                h0, pc0 = self.h, self.pc
                src = raised[0] if raised else None
                if src is None:
                    break
                self.h, self.pc = src.h.fork(), src.pc
                tv = self.ev(hd.type)
                self.h, self.pc = h0, pc0
                types = list(tv.args) if tv.op == "tuple" else [tv]
            for e in raised:
                if types is None:
                    matched.append((e.pc, e.h, e.val))
                    continue
                g = TRUE
                for lf in leaves(e.val) or []:
                    pass
                gm = self.match_guard(e.val, types)
                p1, p2 = b_and(e.pc, gm), b_and(e.pc, b_not(gm))
                if p1 is not FALSE:
                    matched.append((p1, e.h.fork() if p2 is not FALSE else e.h, e.val))
                if p2 is not FALSE:
                    rest.append(Exit("raise", p2, e.h, e.val, e.frame))
            raised = rest
            if matched:
                self.pc, self.h, ev = self.merge_exits(matched)
                if hd.name:
                    self.assign_name(hd.name, ev)
                self.put(("L", fr.fid, "$exc"), ev)
                self.setloc(hd)
                self.block(hd.body)
                if self.pc is not FALSE:
                    normal.append((self.pc, self.h, None))
        hexits = fr.exits
        fr.exits = outer
        pending += raised + hexits
        if not s.finalbody:
            outer.extend(pending)
        else:
            groups = {}
            for e in pending:
                groups.setdefault((e.kind, e.frame), []).append(e)
            for (kind, frm), es in groups.items():
                self.pc, self.h, val = self.merge_exits([(e.pc, e.h, e.val) for e in es])
                self.block(s.finalbody)
                if self.pc is not FALSE:
                    outer.append(Exit(kind, self.pc, self.h, val, frm))
                    self.pc = FALSE
        if normal:
            self.pc, self.h, _ = self.merge_exits(normal)
            if s.finalbody:
                self.block(s.finalbody)
        else:
            self.pc = FALSE
            self.h = H()

    st_TryStar = st_Try

    def match_guard(self, v, types):
        if v.op == "ite":
            return mk_ite(atom_of(v.args[0]), self.match_guard(v.args[1], types), self.match_guard(v.args[2], types))
        r = self.exc_match(v, types)
        if r is None:
            return atom_of(raw("sym", "exc-kind(%s)" % show(v), "flag"))
        return r

    def st_Break(self, s):
        self.exit("break", None, self.frame.fid)

    def st_Continue(self, s):
        self.exit("continue", None, self.frame.fid)

    def st_With(self, s, k=0):
        if k == len(s.items):
            self.block(s.body)
            return
        it = s.items[k]
        cm = self.ev(it.context_expr)
        if self.pc is FALSE:
            return

        def enter(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            self.st_With(s, k + 1)
        self.lib.with_(self, cm, enter)

    st_AsyncWith = st_With

    # ------------------------------------------------------------------------- loops
    def st_For(self, s):
        it = self.ev(s.iter)
        if self.pc is FALSE:
            return

        def one(x):
            self.for_value(s, x)
        self.split(it, one)

    st_AsyncFor = st_For

    def loop_body(self, fn):
        """run one iteration; returns break exits"""
        fr = self.frame
        outer = fr.exits
        fr.exits = []
        fn()
        mine = [e for e in fr.exits if e.kind in ("break", "continue") and e.frame == fr.fid]
        outer.extend(e for e in fr.exits if e not in mine)
        fr.exits = outer
        brk = [e for e in mine if e.kind == "break"]
        con = [(e.pc, e.h, None) for e in mine if e.kind == "continue"]
        if con:
            if self.pc is not FALSE:
                con.append((self.pc, self.h, None))
            self.pc, self.h, _ = self.merge_exits(con)
        return brk

    def for_value(self, s, it):
        items = self.lib.iter_items(self, it)
        if items is not None:
            breaks = []
            watched = it.args[0] if it.op == "obj" and self.oinfo(it) is not None and self.oinfo(it).kind == "list" else None
            items = list(items)
            for cond, x in items:
                if self.pc is FALSE:
                    break

                def step():
                    self.assign(s.target, x)
                    self.block(s.body)
                if cond is TRUE:
                    breaks += self.loop_body(step)
                else:
                    breaks += self.loop_body(lambda: self.branch(cond, step, lambda: None))
                if watched is not None and self.pc is not FALSE and len(items) < 200:
                    # the body may extend the list it runs over
                    now = self.lib.iter_items(self, it)
                    if now is not None and len(now) > len(items) and all(a[1] is b[1] for a, b in zip(now, items)):
                        items.extend(now[len(items):])
            if self.pc is not FALSE and s.orelse:
                self.block(s.orelse)
            if breaks:
                outs = [(e.pc, e.h, None) for e in breaks]
                if self.pc is not FALSE:
                    outs.append((self.pc, self.h, None))
                self.pc, self.h, _ = self.merge_exits(outs)
            return
        # unknown trip count: one generic iteration
        self.generic_loop(s, it)

    def trial(self, run):
        """cells modified by a loop body"""
        h0, pc0, ev0, ord0 = self.h, self.pc, len(self.events), self.order
        ck0 = len(self.checks)
        fr = self.frame
        ex0 = fr.exits
        fr.exits = []
        h = h0.fork()
        h.dirty = set()
        self.h = h
        allh = []
        oid0 = self.next_oid
        brk = self.loop_body(run)
        if self.pc is not FALSE:
            allh.append(self.h)
        allh += [e.h for e in brk]
        mod = set()
        for hh in allh:
            for k in hh.dirty:
                if isinstance(k[0], int) and k[0] >= oid0:
                    continue
                if k[0] == "L" and k[1] != fr.fid and not self.live_frame(k[1]):
                    continue
                if hh.get(k, ABSENT) is not h0.get(k, ABSENT):
                    mod.add(k)
        fr.exits = ex0
        del self.events[ev0:]
        del self.checks[ck0:]
        self.h, self.pc, self.order = h0, pc0, ord0
        return mod

    def generic_loop(self, s, it):
        from . import shape
        lid = self.next_loop
        self.next_loop += 1
        elem, count = self.lib.generic_elem(self, it, lid)
        self.loops[lid] = {"kind": "for", "iter": it, "count": count, "elem": elem, "loc": self.loc(),
                           "func": self.frame.func.qual if self.frame.func else "?"}
        ls0 = self.loop_stack

        def run():
            self.loop_stack = ls0 + (lid,)
            self.assign(s.target, elem)
            self.block(s.body)
        mod = set()
        for _ in range(6):
            self.havoc(lid, mod)
            m2 = self.trial(run)
            self.unhavoc(lid, mod)
            if m2 <= mod:
                break
            mod |= m2
        h_init = {k: self.h.get(k, ABSENT) for k in mod}
        self.havoc(lid, mod)
        pc0 = self.pc
        # the body runs under the assumption that there is an iteration
        some = atom_of(raw("sym", "iter%d" % lid, "flag", ()))
        hz = self.h.fork()
        brk = self.loop_body(run)
        self.loop_stack = ls0
        outs = []
        if self.pc is not FALSE:
            h_next = self.h
            for k in mod:
                nxt = h_next.get(k, ABSENT)
                ini = h_init[k]
                h_next[k] = self.mu(lid, k, ini, nxt, count)
            if brk:
                self.pc = b_or(self.pc, FALSE)
            outs.append((self.pc, h_next, None))
        if s.orelse and self.pc is not FALSE:
            self.block(s.orelse)
            outs = [(self.pc, self.h, None)] if self.pc is not FALSE else []
        for e in brk:
            outs.append((e.pc, e.h, None))
        if not outs:
            self.pc = FALSE
            self.h = H()
            return
        if brk:
            # break conditions depend on the generic iteration
            pc, h, _ = self.merge_exits(outs)
            self.pc, self.h = pc, h
        else:
            self.pc, self.h, _ = outs[0]

    def havoc(self, lid, mod):
        for k in mod:
            v = self.h.get(k, ABSENT)
            self.loops.setdefault("saved", {}).setdefault(lid, {})[k] = v
            if v.op == "keys":
                continue
            self.put(k, raw("phi", lid, k, v))

    def unhavoc(self, lid, mod):
        for k in mod:
            v = self.loops["saved"][lid][k]
            if v is ABSENT:
                self.h.pop(k, None)
            else:
                self.h[k] = v

    def mu(self, lid, k, ini, nxt, count):
        phi = raw("phi", lid, k, ini)
        if nxt is phi:
            return ini
        # list append
        if nxt.op == "seqappend" and nxt.args[0] is phi and ini.op == "seq":
            return raw("maplist", lid, ini, nxt.args[1], count)
        if nxt.op == "store" and nxt.args[0] is phi:
            return raw("mapstore", lid, ini, nxt.args[1], nxt.args[2], count)
        if nxt.op == "keys":
            return nxt
        if not contains(nxt, lambda t: t.op == "phi" and t.args[0] == lid) and ini is ABSENT:
            return raw("last", lid, nxt)
        return raw("mu", lid, ini, nxt, count)

    def st_While(self, s):
        lid = self.next_loop
        self.next_loop += 1
        self.loops[lid] = {"kind": "while", "loc": self.loc(), "func": self.frame.func.qual if self.frame.func else "?"}
        ls0 = self.loop_stack
        t0 = self.truth(self.ev(s.test))
        if self.pc is FALSE:
            return
        if t0 is FALSE:
            self.block(s.orelse)
            return
        if self.while_unrolled(s, t0):
            return

        def run():
            self.loop_stack = ls0 + (lid,)
            t = self.truth(self.ev(s.test))
            if self.pc is FALSE:
                return
            self.branch(t, lambda: self.block(s.body), lambda: self.exit("break", None, self.frame.fid))
        mod = set()
        for _ in range(6):
            self.havoc(lid, mod)
            m2 = self.trial(run)
            self.unhavoc(lid, mod)
            if m2 <= mod:
                break
            mod |= m2
        # cells that the back edge leaves alone are invariants
        for _ in range(8):
            h0, pc0, ev0, ord0, ck0 = self.h, self.pc, len(self.events), self.order, len(self.checks)
            fr = self.frame
            ex0 = fr.exits
            fr.exits = []
            self.h = h0.fork()
            self.havoc(lid, mod)
            facts0 = dict(fr.facts)
            brk, back, texit = self.while_once(s, lid, ls0)
            inv = set()
            for k in mod:
                phi = raw("phi", lid, k, h0.get(k, ABSENT))
                if back is None:
                    inv.add(k)
                else:
                    nb = simplify_under(back[1].get(k, ABSENT), back[0])
                    if nb is phi or nb is h0.get(k, ABSENT):
                        inv.add(k)
            fr.exits = ex0
            fr.facts = facts0
            del self.events[ev0:]
            del self.checks[ck0:]
            self.h, self.pc, self.order = h0, pc0, ord0
            if not inv:
                break
            mod -= inv
        # final pass
        self.havoc(lid, mod)
        facts0 = dict(self.frame.facts)
        h_pre, pc_pre = self.h.fork(), self.pc
        brk, back, texit = self.while_once(s, lid, ls0)
        self.frame.facts = facts0
        self.loop_stack = ls0
        if texit is not None and s.orelse:
            self.pc, self.h, _ = texit
            self.block(s.orelse)
            texit = (self.pc, self.h, None) if self.pc is not FALSE else None
        outs = [(e.pc, e.h, None) for e in brk]
        if texit is not None:
            outs.append(texit)
        exitc = FALSE
        for p, _, _ in outs:
            exitc = b_or(exitc, p)
        self.loops[lid]["exit"] = exitc
        self.loops[lid]["mod"] = mod
        if not outs:
            self.pc = FALSE
            self.h = H()
            return
        pc, h, _ = self.merge_exits(outs)
        # the exit happens in some iteration: drop the conditions that are only about that iteration
        self.h = h
        self.pc = pc_pre
        for k in mod:
            v = h.get(k, ABSENT)
            if contains(v, lambda t: t.op == "phi" and t.args[0] == lid and t.args[1] == k):
                h[k] = raw("mu", lid, h_pre.get(k, ABSENT).args[2] if h_pre.get(k, ABSENT).op == "phi" else ABSENT, v, const(0))

    def decided(self, c):
        """the condition depends on the configuration only (flags of the scene), not on numbers or draws"""
        if c.op != "ite":
            return True
        return not contains(c, lambda t: t.op in ("phi", "mu", "rand", "lt", "le", "iterelem", "app", "call", "nonempty"))

    def while_unrolled(self, s, t):
        """interpret a loop whose course is fixed by the configuration turn by turn; False if it is not"""
        if not self.decided(t):
            return False
        fr = self.frame
        h0, pc0, ev0, ord0, ck0, ex0 = self.h, self.pc, len(self.events), self.order, len(self.checks), fr.exits
        marks0, facts0 = dict(getattr(self, "marks", {})), dict(fr.facts)
        loc0, uns0 = T.CUR.get("loc"), len(self.unsupported)
        self.h = h0.fork()
        fr.exits = []
        breaks, ends, ok = [], [], True
        for turn in range(65):
            if turn:
                t = self.truth(self.ev(s.test))
                if self.pc is FALSE:
                    break
                if t.op == "ite":
                    t = self.restrict(t)
            if t is FALSE:
                ends.append((self.pc, self.h, None))
                self.pc = FALSE
                break
            if t is not TRUE:
                if not self.decided(t) or turn > 24:
                    ok = False
                    break
                ends.append((b_and(self.pc, b_not(t)), self.h.fork(), None))
                self.pc = b_and(self.pc, t)
            brk = self.loop_body(lambda: self.block(s.body))
            if self.pc is not FALSE and not all(self.decided(e.pc) for e in brk):
                ok = False
                break
            breaks += brk
            if self.pc is FALSE:
                break
        else:
            ok = False
        if not ok:
            fr.exits = ex0
            fr.facts = facts0
            del self.events[ev0:]
            del self.checks[ck0:]
            del self.unsupported[uns0:]
            self.marks = marks0
            self.h, self.pc, self.order = h0, pc0, ord0
            T.CUR["loc"] = loc0
            return False
        ex0.extend(fr.exits)
        fr.exits = ex0
        outs = [(e.pc, e.h, None) for e in breaks]
        if ends:
            self.pc, self.h, _ = self.merge_exits(ends)
            if s.orelse:
                self.block(s.orelse)
            if self.pc is not FALSE:
                outs.append((self.pc, self.h, None))
        if outs:
            self.pc, self.h, _ = self.merge_exits(outs)
        else:
            self.pc = FALSE
            self.h = H()
        return True

    def while_once(self, s, lid, ls0):
        """one generic iteration: (break exits, back-edge (cond, heap), exit through the test)"""
        self.loop_stack = ls0 + (lid,)
        t = self.truth(self.ev(s.test))
        pc0 = self.pc
        if t is not TRUE:
            self.pc = b_and(self.pc, t)
        brk = self.loop_body(lambda: self.block(s.body))
        texit = back = None
        if self.pc is not FALSE:
            pcb = self.pc
            t2 = self.truth(self.ev(s.test))
            hb = self.h
            pb, pe = b_and(pcb, t2), b_and(pcb, b_not(t2))
            # conditions under which this iteration started are not exit conditions
            if t is not TRUE and t.op == "ite":
                lits = literals(t)
                pb, pe = bdd_restrict(pb, lits), bdd_restrict(pe, lits)
                brk2 = []
                for e in brk:
                    e.pc = bdd_restrict(e.pc, lits)
            if pb is not FALSE:
                back = (pb, hb)
            if pe is not FALSE:
                he = hb.fork() if back else hb
                for k in list(he.dirty):
                    v = he.get(k, ABSENT)
                    if v.op in ("ite", "seq"):
                        he[k] = settle(v, pe)
                texit = (pe, he, None)
        for e in brk:
            for k in list(e.h.dirty):
                v = e.h.get(k, ABSENT)
                if v.op in ("ite", "seq"):
                    e.h[k] = settle(v, e.pc)
        self.loop_stack = ls0
        self.pc = pc0
        return brk, back, texit

    # -------------------------------------------------------------------- expressions
    def ev(self, n):
        if self.pc is FALSE:
            return BOTTOM
        return getattr(self, "ex_" + type(n).__name__, self.ex_unsupported)(n)

    def ex_unsupported(self, n):
        self.unsupported.append((type(n).__name__, self.loc()))
        return raw("app", "unsupported:" + type(n).__name__)

    def ex_Constant(self, n):
        return ELLIPSIS if n.value is Ellipsis else const(n.value)

    def ex_Name(self, n):
        return self.lookup(n.id, n)

    def ex_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__") and self.frame.func is not None:
            c = None
            for f in reversed(self.frames):
                if f.cls is not None:
                    c = f.cls
                    break
                if f.parent is None:
                    break
            if c is not None:
                return "_%s%s" % (c.name.lstrip("_"), attr)
        return attr

    def ex_Attribute(self, n):
        o = self.ev(n.value)
        if self.pc is FALSE:
            return BOTTOM
        return self.getattr_(o, self.mangle(n.attr))

    def ex_Subscript(self, n):
        o = self.ev(n.value)
        i = self.ev(n.slice)
        if self.pc is FALSE:
            return BOTTOM
        return self.getitem(o, i)

    def ex_Slice(self, n):
        return raw("slice", *[self.ev(x) if x is not None else NONE for x in (n.lower, n.upper, n.step)])

    def ex_Index(self, n):
        return self.ev(n.value)

    def ex_Tuple(self, n):
        return raw("tuple", *self.elts(n.elts))

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                items = self.concrete_items(self.ev(e.value))
                if items is None:
                    out.append(raw("app", "star"))
                else:
                    out.extend(items)
            else:
                out.append(self.ev(e))
        return out

    def ex_List(self, n):
        return self.new_list(self.elts(n.elts))

    def ex_Set(self, n):
        o = self.alloc("set", None, "set")
        self.put((o.args[0], "$keys"), raw("keys"))
        for x in self.elts(n.elts):
            self.dict_set(o, x, TRUE)
        return o

    def ex_Dict(self, n):
        o = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.lib.dict_update(self, o, self.ev(v))
            else:
                kk = self.ev(k)
                vv = self.ev(v)
                self.setitem(o, kk, vv)
        return o

    def ex_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                spec = ast.unparse(v.format_spec) if v.format_spec is not None else None
                parts.append(self.lib.to_str(self, x) if spec is None and v.conversion in (-1, 115) else
                             raw("app", "format", x, const(spec), const(v.conversion)))
        return self.lib.concat_str(self, parts)

    def ex_FormattedValue(self, n):
        return self.lib.to_str(self, self.ev(n.value))

    def ex_Lambda(self, n):
        return self.make_fn(n, "<lambda>")

    def ex_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        if self.pc is FALSE:
            return BOTTOM
        return self.branch(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def ex_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)

        def go(i):
            v = self.ev(n.values[i])
            if i == len(n.values) - 1 or self.pc is FALSE:
                return v
            c = self.truth(v)
            if is_and:
                return self.branch(c, lambda: go(i + 1), lambda: self.falsy(v, c))
            return self.branch(c, lambda: v if v.op != "ite" or v is not c else TRUE, lambda: go(i + 1))
        return go(0)

    def falsy(self, v, c):
        return FALSE if v is c else v

    def ex_UnaryOp(self, n):
        v = self.ev(n.operand)
        if self.pc is FALSE:
            return BOTTOM
        op = type(n.op).__name__
        if op == "Not":
            return b_not(self.truth(v))
        if op == "USub":
            return self.unop("neg", "negative", v, mk_neg)
        if op == "UAdd":
            return v
        return self.unop("invert", "invert", v, lambda x: self.lib.invert(self, x))

    def unop(self, dunder, uf, v, fn):
        def one(x):
            if x.op == "obj":
                m = self.class_lookup(x, "__%s__" % dunder)
                if m is not ABSENT:
                    return self.call(self.bind(m, x), [], [])
                if self.is_array_inst(x):
                    return self.lib.ufunc_dispatch(self, uf, [x], [])
            return fn(x)
        if v.op == "ite" and any(x.op == "obj" for x in leaves(v) or ()):
            return self.split(v, one)
        return self.lift(one, v)

    def ex_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        if self.pc is FALSE:
            return BOTTOM
        return self.binop(type(n.op).__name__, a, b)

    def has_obj(self, *vs):
        for v in vs:
            if v.op == "obj":
                return True
            if v.op == "ite":
                l = leaves(v)
                if l is None or any(x.op == "obj" for x in l):
                    return True
        return False

    def binop(self, op, a, b):
        if op in ("LShift", "RShift") and all(x.op == "const" and x.args[0] == "int" for x in (a, b)) and 0 <= cval(b) < 64:
            return const(cval(a) << cval(b) if op == "LShift" else cval(a) >> cval(b))
        if self.has_obj(a, b):
            return self.split(a, lambda x: self.split(b, lambda y: self.binop1(op, x, y)))
        if op == "Pow" and any(self.lib.is_array(self.lib.shape_of(self, x)) for x in (a, b)):
            self.lib.int_power(self, a, b)
        return self.lift(lambda x, y: self.lib.arith(self, op, x, y), a, b)

    def binop1(self, op, a, b):
        if a is BOTTOM or b is BOTTOM:
            return BOTTOM
        if a.op == "obj":
            m = self.class_lookup(a, "__%s__" % DUNDER[op])
            if m is not ABSENT:
                r = self.call(self.bind(m, a), [b], [])
                if r is not NOTIMPL:
                    return r
        if b.op == "obj":
            m = self.class_lookup(b, "__r%s__" % DUNDER[op])
            if m is not ABSENT:
                return self.call(self.bind(m, b), [a], [])
        if (a.op == "obj" and self.is_array_inst(a)) or (b.op == "obj" and self.is_array_inst(b)):
            return self.lib.ufunc_dispatch(self, UFUNC_OF[op], [a, b], [])
        if a.op == "obj" and self.oinfo(a).kind in ("list", "dict", "set"):
            r = self.lib.container_binop(self, op, a, b)
            if r is not None:
                return r
        return self.lib.arith(self, op, self.base(a), self.base(b))

    def is_array_inst(self, o):
        oi = self.oinfo(o)
        return oi is not None and oi.kind == "inst" and (o.args[0], "$base") in self.h

    def base(self, v):
        """plain array behind an instance of an ndarray subclass"""
        if v.op == "obj" and (v.args[0], "$base") in self.h:
            return self.get((v.args[0], "$base"))
        return v

    def ex_Compare(self, n):
        left = self.ev(n.left)
        if len(n.ops) == 1:
            r = self.ev(n.comparators[0])
            if self.pc is FALSE:
                return BOTTOM
            return self.compare(type(n.ops[0]).__name__, left, r)
        # chain
        def go(i, l):
            r = self.ev(n.comparators[i])
            if self.pc is FALSE:
                return BOTTOM
            v = self.compare(type(n.ops[i]).__name__, l, r)
            if i == len(n.ops) - 1:
                return v
            return self.branch(self.truth(v), lambda: go(i + 1, r), lambda: FALSE)
        return go(0, left)

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.lift(lambda x, y: self.lib.is_(self, x, y), a, b)
            return r if op == "Is" else b_not(r)
        if op in ("In", "NotIn"):
            r = self.split(b, lambda y: self.truth(self.lib.contains_(self, y, a)))
            return r if op == "In" else b_not(r)
        if self.has_obj(a, b):
            return self.split(a, lambda x: self.split(b, lambda y: self.compare1(op, x, y)))
        return self.lift(lambda x, y: self.lib.cmp_value(self, CMPD[op], x, y), a, b)

    def compare1(self, op, a, b):
        if a is BOTTOM or b is BOTTOM:
            return BOTTOM
        if a.op == "obj":
            m = self.class_lookup(a, "__%s__" % CMPD[op])
            if m is not ABSENT:
                return self.call(self.bind(m, a), [b], [])
        if (a.op == "obj" and self.is_array_inst(a)) or (b.op == "obj" and self.is_array_inst(b)):
            return self.lib.ufunc_dispatch(self, UFUNC_OF[op], [a, b], [])
        if op in ("Eq", "NotEq") and (a.op == "obj" or b.op == "obj"):
            if a is b:
                return const(op == "Eq")
            r = self.lib.deep_eq(self, a, b)
            return r if op == "Eq" else b_not(r)
        return self.lib.cmp_value(self, CMPD[op], self.base(a), self.base(b))

    # comprehensions
    def comp(self, n, add):
        fi = self.funcinfo.get(n)
        if fi is None:
            fi = FuncInfo(ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                     body=n), self.frame.module, None, "<comp>", "lambda", self.frame.func)
            self.funcinfo[n] = fi
        names = set()
        for g in n.generators:
            for w in ast.walk(g.target):
                if isinstance(w, ast.Name):
                    names.add(w.id)
        first = self.ev(n.generators[0].iter)
        if self.pc is FALSE:
            return BOTTOM

        def body(fr):
            def gen(i):
                g = n.generators[i]
                it = first if i == 0 else self.ev(g.iter)

                def inner():
                    def conds(j):
                        if j == len(g.ifs):
                            if i + 1 < len(n.generators):
                                gen(i + 1)
                            else:
                                add()
                            return
                        c = self.truth(self.ev(g.ifs[j]))
                        self.branch(c, lambda: conds(j + 1), lambda: None)
                    conds(0)

                class L:
                    pass
                loop = L()
                loop.target, loop.orelse = g.target, []
                loop.body = inner
                self.split(it, lambda x: self.for_value(loop, x))
            gen(0)
            return NONE
        parent = self.frame if self.frame.scope in ("func", "class") else None
        if parent is not None and parent.scope == "func":
            self.closures = getattr(self, "closures", {})
            self.closures[parent.fid] = parent
        # block() of a callable body
        self.in_frame(fi, self.frame.module, parent, body, cls=self.frame.cls, lcl=names)

    def ex_ListComp(self, n):
        o = self.new_list([])
        self.comp(n, lambda: self.lib.list_append(self, o, self.ev(n.elt)))
        return o if self.pc is not FALSE else BOTTOM

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, n):
        o = self.alloc("set", None, "set")
        self.put((o.args[0], "$keys"), raw("keys"))
        self.comp(n, lambda: self.dict_set(o, self.ev(n.elt), TRUE))
        return o if self.pc is not FALSE else BOTTOM

    def ex_DictComp(self, n):
        o = self.new_dict()

        def add():
            k = self.ev(n.key)
            v = self.ev(n.value)
            self.setitem(o, k, v)
        self.comp(n, add)
        return o if self.pc is not FALSE else BOTTOM

    def ex_Starred(self, n):
        return self.ev(n.value)

    def ex_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        for f in reversed(self.frames):
            if f.yield_cb is not None:
                return f.yield_cb(v)
        self.unsupported.append(("Yield", self.loc()))
        return NONE

    def ex_YieldFrom(self, n):
        v = self.ev(n.value)
        if self.pc is FALSE:
            return BOTTOM
        for f in reversed(self.frames):
            if f.yield_cb is not None:
                def one(x):
                    its = self.lib.iter_items(self, x)
                    if its is None:
                        self.unsupported.append(("YieldFrom", self.loc()))
                        f.yield_cb(raw("app", "elements", self.opaque_arg(x)))
                        return
                    for g, y in its:
                        self.branch(g, lambda: f.yield_cb(y), lambda: None)
                self.split(v, one)
                return NONE
        self.unsupported.append(("YieldFrom", self.loc()))
        return NONE

    def ex_Await(self, n):
        return self.ev(n.value)

    # ------------------------------------------------------------------------- calls
    def ex_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in self.frame.locals:
            return self.super_(n)
        f = self.ev(n.func)
        args = self.elts(n.args)
        kwargs = []
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if self.pc is FALSE:
                    return BOTTOM
                items = self.lib.kw_items(self, v)
                if items is None:
                    kwargs.append(("**", v))
                else:
                    kwargs.extend(items)
            else:
                kwargs.append((k.arg, v))
        if self.pc is FALSE:
            return BOTTOM
        loc = self.loc()
        self.setloc(n)
        r = self.call(f, args, kwargs)
        T.CUR["loc"] = loc
        return r

    def super_(self, n):
        cls = selfv = None
        if n.args:
            c = self.ev(n.args[0])
            cls = c.args[0]
            selfv = self.ev(n.args[1])
        else:
            f = self.frame
            while f is not None and (f.func is None or isinstance(f.func.node, ast.Lambda) or f.func.cls is None):
                f = f.parent
            if f is None:
                return self.raise_("RuntimeError", const("super(): no arguments"))
            cls = f.func.cls
            a = f.func.node.args
            if not a.posonlyargs + a.args:
                selfv = self.get(("L", f.fid, a.vararg.arg))
                return raw("super", cls, selfv.args[0])
            first = (a.posonlyargs + a.args)[0].arg
            selfv = self.get(("L", f.fid, first))
        if self.pc is FALSE:
            return BOTTOM
        return raw("super", cls, selfv)

    def call(self, f, args, kwargs):
        if self.pc is FALSE:
            return BOTTOM
        if f.op == "ite":
            return self.split(f, lambda g: self.call(g, args, kwargs))
        op = f.op
        if op == "fn":
            fi = f.args[0]
            if fi.is_gen:
                o = self.alloc("list", None, "generator")
                return raw("gen", f, tuple(args), tuple(kwargs), o.args[0])
            return self.call_fn(f, list(args), list(kwargs))
        if op == "bound":
            if f.args[0].op == "fn":
                return self.call(f.args[0], [f.args[1]] + list(args), kwargs)
            return self.call(f.args[0], [f.args[1]] + list(args), kwargs)
        if op == "cls":
            return self.instantiate(f.args[0], args, kwargs)
        if op == "static":
            return self.call(f.args[0], args, kwargs)
        if op == "intr":
            return self.lib.intrinsic(self, f.args[0], args, kwargs)
        if op == "memo":
            return self.lib.call_memo(self, f, args, kwargs)
        if op == "wrapped":
            return self.call(f.args[0], args, kwargs)
        if op == "ctx":
            return raw("ctxcall", f.args[0], tuple(args), tuple(kwargs))
        if op == "ext":
            return self.lib.call_ext(self, f.args[0], args, kwargs)
        if op == "extm":
            return self.lib.call_method(self, f.args[0], f.args[1], args, kwargs)
        if op == "partial":
            return self.call(f.args[0], list(f.args[1]) + list(args), list(f.args[2]) + list(kwargs))
        if op == "obj":
            m = self.class_lookup(f, "__call__")
            if m is not ABSENT:
                return self.call(self.bind(m, f), args, kwargs)
            return self.lib.call_obj(self, f, args, kwargs)
        if op == "bottom":
            return BOTTOM
        if op == "const":
            return self.raise_("TypeError", const("not callable"))
        self.emit("call-unknown", f, *args)
        return raw("app", "call", f, *[self.opaque_arg(a) for a in args],
                   *[raw("kw", k, self.opaque_arg(v)) for k, v in sorted(kwargs, key=lambda x: x[0])])

    def instantiate(self, ci, args, kwargs):
        ct = raw("cls", ci)
        members = self.get(("C", ci, "$members"))
        if members is not ABSENT and len(args) == 1:
            for m in reversed(members.args):
                pass
            r = None
            for m in members.args:
                c = self.truth(self.compare("Eq", self.get((m.args[0], "value")), args[0])) if args[0] is not m else TRUE
                if c is TRUE:
                    return m
                if c is not FALSE:
                    r = m if r is None else mk_ite(c, m, r)
            return r if r is not None else self.raise_("ValueError", const("not a member"), args[0])
        for c in ci.mro():
            nv = self.get(("C", c, "__new__"))
            if nv is not ABSENT:
                fn = nv.args[0] if nv.op == "static" else nv
                o = self.call(fn, [ct] + list(args), kwargs)
                if self.pc is FALSE:
                    return BOTTOM
                if o.op != "obj" or self.oinfo(o).kind != "inst" or ci not in self.oinfo(o).cls.mro():
                    return o
                init = self.class_attr(ci, "__init__")
                if init is not ABSENT and o.op == "obj":
                    self.call(self.bind(init, o), args, kwargs)
                return o
        if any(r in EXC for r in ci.ext_root()):
            o = self.alloc("inst", ci, ci.name)
            self.put((o.args[0], "args"), raw("tuple", *args))
            init = self.class_attr(ci, "__init__")
            if init is not ABSENT:
                self.call(self.bind(init, o), args, kwargs)
            return o
        ab = self.get(("C", ci, "__abstractmethods__"))
        o = self.alloc("inst", ci, ci.name)
        if self.is_dictlike(ci):
            self.put((o.args[0], "$keys"), raw("keys"))
        init = self.class_attr(ci, "__init__")
        if init is ABSENT and self.get(("C", ci, "$dataclass")) is not ABSENT:
            self.dataclass_init(ci, o, args, kwargs)
        elif init is not ABSENT:
            self.call(self.bind(init, o), args, kwargs)
        elif args or kwargs:
            if self.is_dictlike(ci):
                for a in args:
                    self.lib.dict_update(self, o, a)
            elif not ci.ext_root() or set(ci.ext_root()) <= {"object"}:
                return self.raise_("TypeError", const("takes no arguments"), const(ci.qual))
        return o if self.pc is not FALSE else BOTTOM

    def dataclass_fields(self, ci):
        out = {}
        for c in reversed(ci.mro()):
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and "ClassVar" not in ast.unparse(st.annotation):
                    out[st.target.id] = st
        return list(out)

    def dataclass_init(self, ci, o, args, kwargs):
        names = self.dataclass_fields(ci)
        noinit = set()
        for n in names:
            d = self.class_attr(ci, n)
            if d.op == "field" and len(d.args) > 2 and d.args[2] is FALSE:
                noinit.add(n)
        vals = dict(zip([n for n in names if n not in noinit], args))
        if len(args) > len(names):
            self.raise_("TypeError", const("too many arguments"))
            return
        for k, v in kwargs:
            if k not in names or k in vals or k in noinit:
                self.raise_("TypeError", const("bad keyword"), const(k))
                return
            vals[k] = v
        for n in names:
            if n not in vals:
                d = self.class_attr(ci, n)
                if d is ABSENT and n in noinit:
                    continue
                if d is ABSENT:
                    self.raise_("TypeError", const("missing"), const(n))
                    return
                if d.op == "field":
                    fac = d.args[0]
                    d = self.call(fac, [], []) if fac is not ABSENT else d.args[1]
                vals[n] = d
            self.put((o.args[0], n), vals[n])
        post = self.class_attr(ci, "__post_init__")
        if post is not ABSENT and self.pc is not FALSE:
            self.call(self.bind(post, o), [], [])

    def is_dictlike(self, ci):
        return any(r in DICTLIKE for r in ci.ext_root())

    # --------------------------------------------------------------------- attributes
    def class_attr(self, ci, name):
        for c in ci.mro():
            v = self.get(("C", c, name))
            if v is not ABSENT:
                return v
        return ABSENT

    def class_lookup(self, o, name):
        oi = self.oinfo(o)
        if oi is None or oi.kind != "inst":
            return ABSENT
        return self.class_attr(oi.cls, name)

    def bind(self, v, o):
        if v.op in ("fn", "memo"):
            return raw("bound", v, o)
        if v.op == "wrapped":
            return raw("bound", v, o) if v.args[0].op in ("fn", "memo") else self.bind(v.args[0], o)
        if v.op == "static":
            return v.args[0]
        if v.op == "clsm":
            oi = self.oinfo(o)
            return raw("bound", v.args[0], raw("cls", oi.cls) if oi else o)
        if v.op == "ctx":
            return raw("ctx", raw("bound", v.args[0], o))
        return v

    def getattr_(self, o, name, default=None):
        if self.pc is FALSE:
            return BOTTOM
        if o.op == "ite":
            ls = leaves(o)
            if ls is not None and not any(x.op in ("obj", "cls", "super", "mod", "const") for x in ls):
                return self.lift(lambda x: self.getattr1(x, name, default), o)
            return self.split(o, lambda x: self.getattr1(x, name, default))
        return self.getattr1(o, name, default)

    def missing_attr(self, o, name, default):
        if default is not None:
            return default
        self.emit("missing-attr", o, const(name))
        return self.raise_("AttributeError", const(name), o)

    def getattr1(self, o, name, default=None):
        op = o.op
        if op == "obj":
            return self.inst_attr(o, name, default)
        if op == "cls":
            ci = o.args[0]
            if name == "__name__":
                return const(ci.name)
            if name == "__qualname__":
                return const(ci.name)
            if name == "mro":
                return raw("extm", o, "mro")
            if name == "__mro__":
                return raw("tuple", *[raw("cls", c) for c in ci.mro()], raw("ext", "object"))
            if name == "__dict__":
                return raw("classdict", ci)
            if name == "__class__":
                return raw("ext", "type")
            if name == "__bases__":
                return raw("tuple", *[raw("cls", c) for c in ci.bases])
            if name == "__subclasses__":
                return raw("clssubs", o)
            if name == "__members__" and self.get(("C", ci, "$members")) is not ABSENT:
                ms = self.get(("C", ci, "$members")).args
                return self.new_dict([(self.get((m.args[0], "name")), m) for m in ms])
            v = self.class_attr(ci, name)
            if v is not ABSENT:
                if v.op == "clsm":
                    return raw("bound", v.args[0], o)
                if v.op == "static":
                    return v.args[0]
                if v.op == "property":
                    return v
                if v.op == "obj" and self.class_lookup(v, "__get__") is not ABSENT:
                    return self.call(self.bind(self.class_lookup(v, "__get__"), v), [NONE, o], [])
                return v
            if set(r.split(".")[-1] for r in ci.ext_root()) - {"object", "ABC", "Generic", "Protocol"}:
                return raw("extm", o, name)
            if name in dir(object) or name == "__module__":
                return raw("ext", "object." + name)
            return self.missing_attr(o, name, default)
        if op == "mod":
            m = o.args[0]
            v = self.global_(m, name)
            if v is None:
                return self.missing_attr(o, name, default)
            return v
        if op == "ext":
            if o.args[0].startswith("numpy.") and name in ("nout", "nin", "__name__"):
                fn = o.args[0].split(".")[-1]
                if name == "__name__":
                    return const(fn)
                if name == "nout":
                    return const(2 if fn in ("divmod", "modf", "frexp") else 1)
                import numpy as _np
                u = getattr(_np, fn, None)
                if isinstance(u, _np.ufunc):
                    return const(u.nin)
            return self.ext(o.args[0] + "." + name)
        if op == "super":
            return self.super_attr(o, name, default)
        if op in ("fn", "memo", "wrapped", "bound"):
            v = self.get(("FN", o, name))
            if v is not ABSENT and guard_of(v, lambda x: x is ABSENT) is FALSE:
                return v
        if op == "memo":
            if name in ("cache_clear", "cache_info"):
                return raw("extm", o, name)
            return self.getattr1(o.args[0], name, default)
        if op == "wrapped":
            if name == "__wrapped__":
                return o.args[1]
            if name in ("__name__", "__qualname__", "__doc__", "__module__"):
                return self.getattr1(o.args[1], name, default)
            return self.getattr1(o.args[0], name, default)
        if op == "bound":
            if name == "__func__":
                return o.args[0]
            if name == "__self__":
                return o.args[1]
            if name in ("__name__", "__qualname__", "__doc__", "__module__", "__wrapped__"):
                return self.getattr1(o.args[0], name, default)
        if op == "partial" and name in ("func", "args", "keywords"):
            if name == "keywords":
                return self.new_dict([(const(k), v) for k, v in o.args[2]])
            return o.args[0] if name == "func" else raw("tuple", *o.args[1])
        if op == "fn":
            if name == "__isabstractmethod__":
                return TRUE if o.args[0].abstract else self.missing_attr(o, name, default)
            if name in ("__name__", "__qualname__"):
                return const(o.args[0].name)
            if name == "__doc__":
                return const("")
            return self.missing_attr(o, name, default)
        if op == "property":
            if name == "__isabstractmethod__":
                g = o.args[0]
                return TRUE if g.op == "fn" and g.args[0].abstract else FALSE
            if name == "fget":
                return o.args[0]
            if name == "fset":
                return o.args[1]
            return self.missing_attr(o, name, default)
        if op in ("static", "clsm"):
            return self.getattr1(o.args[0], name, default)
        if op == "bottom":
            return BOTTOM
        return self.lib.value_attr(self, o, name, default)

    def inst_attr(self, o, name, default):
        oi = self.oinfo(o)
        oid = o.args[0]
        if oi.kind == "inst":
            ci = oi.cls
            if name == "__class__":
                return raw("cls", ci)
            if name == "__dict__":
                return raw("instdict", o)
            cv = self.class_attr(ci, name)
            if cv.op == "ite":
                cv = leaves(cv)[0]
            if cv.op == "property":
                g = cv.args[0]
                return self.call(g, [o], [])
            isdesc = cv.op == "obj" and self.oinfo(cv).kind == "inst"
            if isdesc:
                dg = self.class_lookup(cv, "__get__")
                ds = self.class_lookup(cv, "__set__")
                if dg is not ABSENT and ds is not ABSENT:
                    return self.call(self.bind(dg, cv), [o, raw("cls", ci)], [])
            v = self.get((oid, name))
            if v is not ABSENT:
                g = guard_of(v, lambda x: x is ABSENT) if v.op == "ite" else FALSE
                if g is FALSE:
                    return v
                rest = map_leaves(v, lambda x: BOTTOM if x is ABSENT else x)
                return self.branch(g, lambda: self.inst_attr2(o, oi, cv, name, default),
                                   lambda: self.restrict(rest) if rest.op == "ite" else rest)
            return self.inst_attr2(o, oi, cv, name, default)
        if oi.kind == "xobj":
            v = self.get((oid, name))
            if v is not ABSENT and v.op != "ite":
                return v
            if v is not ABSENT and guard_of(v, lambda x: x is ABSENT) is FALSE:
                return v
        return self.lib.obj_attr(self, o, oi, name, default)

    def inst_attr2(self, o, oi, cv, name, default):
        if cv is not ABSENT:
            if cv.op in ("fn", "static", "clsm", "ctx", "memo", "wrapped"):
                return self.bind(cv, o)
            if cv.op == "obj":
                dg = self.class_lookup(cv, "__get__")
                if dg is not ABSENT:
                    return self.call(self.bind(dg, cv), [o, raw("cls", oi.cls)], [])
            return cv
        ga = self.class_attr(oi.cls, "__getattr__")
        if ga is not ABSENT:
            return self.call(self.bind(ga, o), [const(name)], [])
        if self.is_dictlike(oi.cls) or (o.args[0], "$base") in self.h:
            return self.lib.obj_attr(self, o, oi, name, default)
        roots = [r for r in oi.cls.ext_root() if r not in ("object", "abc.ABC", "ABC")]
        if roots:
            if name.startswith("__") or name in self.lib.EXT_MEMBERS.get(roots[0], ()):
                return raw("extm", o, name)
            if roots[0].split(".")[0] in ("logging", "numpy"):
                return raw("extm", o, name)
        if name in ("__setattr__", "__repr__", "__str__", "__hash__", "__eq__"):
            return raw("extm", o, name)
        if name == "__doc__":
            return const("")
        return self.missing_attr(o, name, default)

    def super_attr(self, s, name, default):
        cls, selfv = s.args
        if selfv.op == "obj":
            mro = self.oinfo(selfv).cls.mro()
        elif selfv.op == "cls":
            mro = selfv.args[0].mro()
        else:
            mro = cls.mro()
        i = mro.index(cls) if cls in mro else 0
        for c in mro[i + 1:]:
            v = self.get(("C", c, name))
            if v is not ABSENT:
                if v.op == "property":
                    return self.call(v.args[0], [selfv], [])
                if selfv.op == "cls":
                    if v.op == "clsm":
                        return raw("bound", v.args[0], selfv)
                    return v.args[0] if v.op == "static" else v
                return self.bind(v, selfv)
        return raw("extm", s, name)

    def setattr_(self, o, name, v):
        if self.pc is FALSE:
            return
        if o.op == "ite":
            self.split(o, lambda x: self.setattr1(x, name, v))
        else:
            self.setattr1(o, name, v)

    def setattr1(self, o, name, v, plain=False):
        if o.op == "obj":
            oi = self.oinfo(o)
            if oi.kind == "inst":
                if not plain:
                    sa = self.class_attr(oi.cls, "__setattr__")
                    if sa is not ABSENT:
                        self.call(self.bind(sa, o), [const(name), v], [])
                        return
                cv = self.class_attr(oi.cls, name)
                if cv.op == "property":
                    if cv.args[1] is NONE or cv.args[1] is ABSENT:
                        self.raise_("AttributeError", const("can't set attribute"), const(name))
                        return
                    self.call(cv.args[1], [o, v], [])
                    return
                if cv.op == "obj":
                    ds = self.class_lookup(cv, "__set__")
                    if ds is not ABSENT:
                        self.call(self.bind(ds, cv), [o, v], [])
                        return
            self.emit("setattr", o, const(name), v)
            if oi.kind in ("xobj", "dict"):
                if self.lib.xobj_setattr(self, o, oi, name, v):
                    return
            self.put((o.args[0], name), v)
        elif o.op == "cls":
            self.emit("setattr", o, const(name), v)
            self.put(("C", o.args[0], name), v)
        elif o.op == "mod":
            self.emit("setattr", o, const(name), v)
            self.put(("M", o.args[0].name, name), v)
        elif o.op in ("fn", "memo", "wrapped", "bound"):
            self.put(("FN", o, name), v)
        elif o.op in ("bottom",):
            pass
        elif o is NONE or o.op == "const":
            self.raise_("AttributeError", const(name), o)
        else:
            self.emit("setattr", o, const(name), v)

    # ---------------------------------------------------------------------- items
    def concrete_items(self, v):
        """list of element terms if the sequence is known, else None"""
        if v.op in ("tuple", "seq"):
            return list(v.args)
        it = self.lib.iter_items(self, v)
        if it is None or any(c is not TRUE for c, _ in it):
            return None
        return [x for _, x in it]

    def getitem(self, o, i):
        if self.pc is FALSE:
            return BOTTOM
        if self.has_obj(o):
            return self.split(o, lambda x: self.getitem1(x, i))
        return self.getitem1(o, i) if o.op != "ite" else self.lift(lambda x: self.getitem1(x, i), o)

    def getitem1(self, o, i):
        if o.op == "cls":
            ms = self.get(("C", o.args[0], "$members"))
            if ms is not ABSENT and i.op == "const":
                for m in ms.args:
                    if self.get((m.args[0], "name")) is i:
                        return m
                return self.raise_("KeyError", i)
            m = self.class_attr(o.args[0], "__class_getitem__")
            if m is not ABSENT:
                return self.call(m.args[0] if m.op in ("clsm", "static") else m, [o, i], [])
        if o.op == "obj":
            m = self.class_lookup(o, "__getitem__")
            if m is not ABSENT:
                return self.call(self.bind(m, o), [i], [])
            return self.split(i, lambda j: self.lib.obj_getitem(self, o, j))
        if i.op == "ite" and o.op in ("tuple", "const"):
            return self.split(i, lambda j: self.lib.index(self, o, j))
        return self.lib.index(self, o, i)

    def setitem(self, o, i, v):
        if self.pc is FALSE:
            return
        self.split(o, lambda x: self.setitem1(x, i, v))

    def setitem1(self, o, i, v):
        if o.op == "obj":
            m = self.class_lookup(o, "__setitem__")
            if m is not ABSENT:
                self.call(self.bind(m, o), [i, v], [])
                return
            self.split(i, lambda j: self.lib.obj_setitem(self, o, j, v))
            return
        if o.op == "bottom":
            return
        if o.op == "instdict":
            self.lib.call_method(self, o, "__setitem__", [i, v], [])
            return
        new = self.lib.store(self, o, i, v)
        self.emit("setitem", o, i, v)
        self.mutate_array(o, new, "store")

    # dictionaries ------------------------------------------------------------------
    def dkey(self, k):
        if k.op == "const" and k.args[0] in ("int", "float", "bool"):
            return ("n", k.args[1])
        return k

    def dict_set(self, o, k, v):
        oid = o.args[0]
        kk = ("k", k)
        cur = self.h.get((oid, kk), ABSENT)
        keys = self.h.get((oid, "$keys"), None)
        if keys is None:
            keys = raw("keys")
        if cur is ABSENT or k not in keys.args:
            if k not in keys.args:
                self.put((oid, "$keys"), raw("keys", *keys.args, k))
            else:
                # re-inserted after deletion: goes to the end
                self.put((oid, "$keys"), raw("keys", *[x for x in keys.args if x is not k], k))
        self.put((oid, kk), v)

    def dict_get(self, o, k):
        return self.get((o.args[0], ("k", k)))

    def dict_keys(self, o):
        """[(presence guard, key)]"""
        keys = self.h.get((o.args[0], "$keys"))
        if keys is None:
            return []
        if keys.op != "keys":
            return None
        out = []
        for k in keys.args:
            v = self.get((o.args[0], ("k", k)))
            if v is ABSENT:
                continue
            g = guard_of(v, lambda x: x is not ABSENT) if v.op == "ite" else TRUE
            if g is not FALSE:
                out.append((g, k))
        return out

    def dict_del(self, o, k):
        self.put((o.args[0], ("k", k)), ABSENT)

    # ------------------------------------------------------------------------- truth
    def truth(self, v):
        if self.pc is FALSE:
            return FALSE
        if v is TRUE or v is FALSE:
            return v
        if v.op == "ite":
            v = self.restrict(v)
            ls = leaves(v, 200)
            if ls is not None and all(x is TRUE or x is FALSE for x in ls):
                return v
            if self.has_obj(v):
                return self.split(v, self.truth1)
            return self.lift(self.truth1, v)
        return self.truth1(v)

    def truth1(self, v):
        return self.lib.truth(self, v)

    # ------------------------------------------------------------------ opaque arguments
    def arity(self, v):
        """number of positional arguments a function value must be given; None when unknown"""
        names = self.open_params(v)
        return None if names is None else len(names)

    def open_params(self, v):
        if v.op == "fn":
            if v.args[0].is_gen:
                return None
            a = v.args[0].node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            return names[:len(names) - len(a.defaults)]
        if v.op == "bound":
            r = self.open_params(v.args[0])
            return None if r is None else r[1:]
        if v.op in ("memo", "wrapped"):
            return self.open_params(v.args[0])
        if v.op == "partial":
            r = self.open_params(v.args[0])
            if r is None:
                return None
            given = {k for k, _ in v.args[2]}
            return [x for x in r[len(v.args[1]):] if x not in given]
        return None

    def opaque_arg(self, v, depth=0):
        """value handed to code outside the analysed program: containers are frozen,
        closures become function terms"""
        if v.op == "ite":
            return map_leaves(v, lambda x: self.opaque_arg(x, depth))
        if v.op in ("fn", "bound", "partial", "memo", "wrapped"):
            n = self.arity(v)
            if n is None or n > 3 or self.lamdepth > 2:
                return v
            self.lamdepth += 1
            bvs = [raw("bv", self.lamdepth, i) for i in range(n)]
            try:
                body = self.call(v, bvs, [])
            finally:
                self.lamdepth -= 1
            return raw("lam", n, self.lamdepth, body)
        if v.op == "obj":
            return self.lib.freeze(self, v)
        if v.op == "tuple":
            return raw("tuple", *[self.opaque_arg(x, depth + 1) for x in v.args])
        return v

    def add_module(self, source, name):
        """add a module that is not part of the repository to the program"""
        from .model import Module
        tree = ast.parse(source)
        for n in ast.walk(tree):
            n._mod = name + ".py"
        m = Module(name, name + ".py", name + ".py", tree, False, source)
        self.P.modules[name] = m
        self.P._scan_body(m, tree.body)
        for q, c in list(self.P.classes.items()):
            if c.module is m and q.startswith(name + "."):
                self.classnode[c.node] = c
                c.bases, c.ext_bases = [], []
                for b in c.base_exprs:
                    r = self.P.resolve_expr(m, b)
                    if r and r[0] == "class":
                        c.bases.append(r[1])
                        r[1].subclasses.append(c)
                    elif r and r[0] == "ext":
                        c.ext_bases.append(r[1])
                    else:
                        c.ext_bases.append("?" + ast.unparse(b))
        return m

    def in_module(self, m, classdef):
        """evaluate a class definition as if it stood in module m"""
        self.in_frame(FuncInfo(m.tree, m, None, "<module>"), m, None, lambda fr: self.st_ClassDef(classdef), scope="module")
        return self.get(("M", m.name, classdef.name))

    def run_driver(self, source, name="psa_driver", package_import=True):
        """add a scenario module and analyse it"""
        from . import pylib
        if pylib.NAME not in self.P.modules:
            pylib.setup(self)
        m = self.add_module(source, name)
        self.load(self.P.package)
        if self.pc is FALSE:
            ex = [show(e.val) for e in self.frame.exits]
            raise AnalysisError("importing the package cannot complete: %s" % ex)
        self.mod_state.pop(name, None)
        self.load(name)
        return m
