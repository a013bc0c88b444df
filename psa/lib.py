"""Summaries of Python's built-ins and of the libraries the analysed package uses."""
import builtins
import math

from .terms import *
from . import shape as S
from .shape import shape_of, bc, is_array, kind_of, stripf, count, ELEMENTWISE

INTRINSICS = {"real", "array", "flag", "integer", "text", "opaque", "opaque_arr", "opaque_mask", "mark", "EQ", "SAME", "freeze",
              "HOLDS", "arrayof", "boolarray", "intarray", "heapfreeze", "attempt", "rngstate", "ASSUME", "anyarray", "cell", "opaquecls", "ufn", "hash_order", "userval"}
EXT_MEMBERS = {}


# ------------------------------------------------------------------ helpers
def sym(name, kind, dims=()):
    return raw("sym", name, kind, dims)


def fresh(I, t):
    """a new array with the value t"""
    t = stripf(t)
    I.freshn = getattr(I, "freshn", 0) + 1
    return raw("fresh", t, I.freshn)


def deep_strip(t):
    """value without allocation identity (also inside frozen containers)"""
    t = stripf(t)
    if t.op in ("tuple", "seq") and any(x.op == "fresh" for x in t.args):
        return raw(t.op, *[deep_strip(x) for x in t.args])
    return t


def val(I, t):
    t = stripf(I.base(t))
    if t.op == "obj":
        oi = I.oinfo(t)
        if oi.kind == "list":
            return list_value(I, t)
        if oi.kind == "arrayobj":
            return t
    if t.op == "tuple":
        return raw("tuple", *[val(I, x) for x in t.args])
    return t


def list_value(I, o):
    it = I.get((o.args[0], "$items"))
    if it.op == "seq":
        return raw("seq", *[val(I, x) for x in it.args])
    if it.op == "ite":
        return map_leaves(it, lambda x: raw("seq", *[val(I, y) for y in x.args]) if x.op == "seq" else x)
    return it


def isarr(I, t):
    return is_array(shape_of(I, t))


# --------------------------------------------------------------- truth, identity
def truth(I, v):
    v = stripf(v)
    op = v.op
    if op == "h5bool":
        return truth(I, v.args[0])
    if op == "const":
        return TRUE if v.args[1] else FALSE
    if op == "bottom":
        return FALSE
    if op == "notimpl":
        return TRUE
    if op in ("tuple", "seq"):
        return TRUE if v.args else FALSE
    if op == "obj":
        oi = I.oinfo(v)
        if oi.kind == "list":
            it = I.get((v.args[0], "$items"))
            if it.op == "ite":
                return map_leaves(it, lambda x: truth_items(I, x))
            return truth_items(I, it)
        if oi.kind in ("dict", "set") or (oi.kind == "inst" and I.is_dictlike(oi.cls)):
            if oi.kind == "inst":
                m = I.class_lookup(v, "__bool__")
                if m is not ABSENT:
                    return I.truth(I.call(I.bind(m, v), [], []))
            ks = I.dict_keys(v)
            if ks is None:
                return atom_of(raw("nonempty", v))
            r = FALSE
            for g, _ in ks:
                r = b_or(r, g)
            return r
        for m in ("__bool__", "__len__"):
            f = I.class_lookup(v, m)
            if f is not ABSENT:
                return I.truth(I.call(I.bind(f, v), [], []))
        if I.is_array_inst(v):
            return truth(I, I.base(v))
        return TRUE
    if op in ("fn", "cls", "ext", "extm", "bound", "mod", "intr", "property", "exc", "partial", "static", "clsm"):
        return TRUE
    if op in ("le", "lt", "eq", "ne"):
        return cmp_atom(v)
    if op == "bite":
        return mk_ite(truth(I, v.args[0]), truth(I, v.args[1]), truth(I, v.args[2]))
    if op == "sym" and v.args[1] == "flag":
        return atom_of(v)
    if op == "call" and (v.args[0] in S.BOOLCALLS):
        return atom_of(v)
    if op == "rand" and v.args[0] == "boolrand":
        return atom_of(v)
    k = kind_of(I, v)
    if k == "bool":
        return atom_of(v)
    if k in ("real", "int"):
        return b_not(cmp_atom(mk_cmp("eq", v, const(0))))
    if op == "app" and v.args[0] in ("concat",):
        for x in v.args[1:]:
            if is_str(x) and cval(x):
                return TRUE
    return atom_of(raw("truth", v))


def cmp_atom(v):
    if v is TRUE or v is FALSE:
        return v
    if v.op == "ne":
        return b_not(atom_of(mk_cmp("eq", v.args[0], v.args[1])))
    if v.op == "lt":
        return b_not(atom_of(mk_cmp("le", v.args[1], v.args[0])))
    return atom_of(v)


def truth_items(I, it):
    if it.op != "seq":
        return atom_of(raw("nonempty", it))
    r = FALSE
    for x in it.args:
        r = b_or(r, guard_of(x, lambda l: l is not ABSENT) if x.op == "ite" else TRUE)
    return r


SINGLETONS = ("const", "obj", "cls", "fn", "ext", "notimpl", "ellipsis", "mod", "tuple", "bound", "exc", "extm", "sym", "property")


def is_(I, a, b):
    if a is BOTTOM or b is BOTTOM:
        return BOTTOM
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x in (NONE, TRUE, FALSE, NOTIMPL, ELLIPSIS) or x.op in ("cls", "ext", "fn", "mod"):
            if y.op == "sym" and y.args[1] == "opaque":
                return atom_of(raw("is", y, x))
            if y.op == "app" and kind_of(I, y) in ("str", "bytes"):
                return FALSE
            if y.op in ("app", "phi", "mu", "last") or (y.op == "index" and kind_of(I, y) is None and not shape_of(I, y)):
                return atom_of(raw("is", y, x))
            if x in (TRUE, FALSE) and y.op == "sym" and y.args[1] == "flag":
                return atom_of(y) if x is TRUE else b_not(atom_of(y))
            return FALSE
    if a.op in ("obj", "const", "cls", "fn") and b.op in ("obj", "const", "cls", "fn"):
        return FALSE
    return atom_of(raw("is", a, b) if a.id < b.id else raw("is", b, a))


def cmp_value(I, op, a, b):
    a, b = stripf(a), stripf(b)
    if a is BOTTOM or b is BOTTOM:
        return BOTTOM
    if op in ("eq", "ne"):
        if a.op in ("tuple", "seq") or b.op in ("tuple", "seq"):
            r = deep_eq(I, a, b)
            return r if op == "eq" else b_not(r)
        if a.op in ("cls", "fn", "ext", "mod") or b.op in ("cls", "fn", "ext", "mod") or NONE in (a, b):
            r = is_(I, a, b)
            return r if op == "eq" else b_not(r)
        ka, kb = kind_of(I, a), kind_of(I, b)
        num = ("int", "real", "bool")
        if (ka == "str" and kb in num) or (kb == "str" and ka in num) or {ka, kb} == {"str", "bytes"}:
            return const(op == "ne")
    if op in ("lt", "le", "gt", "ge") and (a is NONE or b is NONE):
        return I.raise_("TypeError", const("comparison with None"))
    if a is b and kind_of(I, a) in ("int", "bool", "str") and shape_of(I, a) == ():
        return const(op in ("eq", "le", "ge"))
    return keep(I, mk_cmp(op, a, b), a, b)


def deep_eq(I, a, b):
    if a is b:
        return TRUE
    if a.op in ("tuple", "seq") and b.op == a.op:
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = b_and(r, I.truth(I.compare("Eq", x, y)))
        return r
    if a.op == "obj" and b.op == "obj":
        ka, kb = I.oinfo(a).kind, I.oinfo(b).kind
        if ka != kb:
            return FALSE
        if ka == "list":
            x, y = list_value(I, a), list_value(I, b)
            return deep_eq(I, x, y) if x.op == "seq" and y.op == "seq" else atom_of(raw("eq", x, y))
        if ka in ("dict", "set"):
            fa, fb = freeze(I, a), freeze(I, b)
            return TRUE if fa is fb else atom_of(raw("eq", fa, fb))
        return FALSE
    if a.op == "obj" or b.op == "obj":
        return FALSE
    return I.truth(mk_cmp("eq", a, b))


# -------------------------------------------------------------------- arithmetic
def keep(I, res, *ops):
    """an element-wise operation that folded to a scalar still yields an array of the operands' shape"""
    if res.op == "const" or res is TRUE or res is FALSE or shape_of(I, res) == ():
        if res is BOTTOM or res.op in ("obj", "ite", "tuple"):
            return res
        sh = bc(*[shape_of(I, o) for o in ops])
        if sh:
            return raw("full", sh[0] if len(sh) == 1 else raw("tuple", *sh), res)
    return res


def fin(I, res, *ops):
    """the result of an array operation is a new array"""
    res = keep(I, res, *ops)
    if any(res is o for o in ops) and isarr(I, res):
        return fresh(I, res)
    return res


def arith(I, op, a0, b0):
    a, b = stripf(a0), stripf(b0)
    if a is BOTTOM or b is BOTTOM:
        return BOTTOM
    if a.op == "fresh" or b.op == "fresh":
        a, b = stripf(a), stripf(b)
    if op == "Mod" and is_str(a):
        return str_format_percent(I, a, b)
    if op == "Mod" and kind_of(I, a) == "str":
        return raw("app", "strmod", a, I.opaque_arg(b))
    if op == "Add":
        if a.op in ("tuple", "seq") and b.op in ("tuple", "seq"):
            return raw("tuple", *(a.args + b.args))
        if kind_of(I, a) == "str" or kind_of(I, b) == "str":
            if {kind_of(I, a), kind_of(I, b)} & {"int", "real", "none", "bool"}:
                return I.raise_("TypeError", const("str + non str"))
            return concat_str(I, [a, b])
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if x.op in ("tuple",) and is_num(y):
                return raw("tuple", *(x.args * int(cval(y))))
            if is_str(x) and is_num(y):
                return const(cval(x) * int(cval(y)))
    if op == "Div" and kind_of(I, a) in ("path",) or a.op == "path":
        return raw("path", *(a.args + (path_part(b),)))
    if a is NONE or b is NONE:
        return I.raise_("TypeError", const("arithmetic with None"))
    if a.op in ("cls", "fn") or b.op in ("cls", "fn"):
        return raw("app", "binop:" + op, a, b)
    res = arith1(I, op, a, b)
    return fin(I, res, a, b)


def path_part(b):
    return b


def arith1(I, op, a, b):
    if op == "Add":
        return mk_add(a, b)
    if op == "Sub":
        return mk_add(a, mk_neg(b))
    if op == "Mult":
        if (a.op == "bite" or b.op == "bite" or a.op in ("le", "lt") or b.op in ("le", "lt")) and \
                kind_of(I, a) == "bool" and kind_of(I, b) == "bool":
            return unatom(el_ite(el_atom(a), el_atom(b), FALSE))
        return mk_mul(a, b)
    if op == "Div":
        return mk_div(a, b)
    if op == "Pow":
        return mk_pow(a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        ka, kb = kind_of(I, a), kind_of(I, b)
        if is_num(a) and is_num(b):
            x, y = cval(a), cval(b)
            return const(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
        if ka == "int" and kb == "int":
            return raw("call", "bit" + op, a, b)
        x, y = el_atom(boolish(a)), el_atom(boolish(b))
        if op == "BitAnd":
            return unatom(el_ite(x, y, FALSE))
        if op == "BitOr":
            return unatom(el_ite(x, TRUE, y))
        return unatom(el_ite(x, el_ite(y, FALSE, TRUE), y))
    if op == "FloorDiv":
        if is_num(a) and is_num(b) and cval(b):
            return const(cval(a) // cval(b))
        return raw("call", "floor_divide", a, b)
    if op == "Mod":
        if is_num(a) and is_num(b) and cval(b):
            return const(cval(a) % cval(b))
        return raw("call", "mod", a, b)
    return raw("call", op, a, b)


def boolish(t):
    """gates over scalars used element-wise"""
    if t.op == "ite":
        return map_bdd(t)
    if t.op == "ne":
        return unatom(el_ite(el_atom(mk_cmp("eq", t.args[0], t.args[1])), FALSE, TRUE))
    return t


def map_bdd(t):
    if t.op != "ite":
        return t
    return unatom(el_ite(el_atom(t.args[0]), map_bdd(t.args[1]), map_bdd(t.args[2])))


def invert(I, x):
    x = stripf(x)
    if is_num(x):
        v = cval(x)
        return const(~v) if not isinstance(v, bool) else const(~int(v))
    k = kind_of(I, x)
    if k == "int":
        return raw("call", "invertint", x)
    return keep(I, unatom(el_ite(el_atom(boolish(x)), FALSE, TRUE)), x)


def container_binop(I, op, a, b):
    oi = I.oinfo(a)
    if oi.kind == "list":
        if op == "Add":
            la = I.get((a.args[0], "$items"))
            lb = seq_of(I, b)
            if la.op == "seq" and lb is not None and lb.op in ("seq", "tuple"):
                return I.new_list(la.args + lb.args)
            return raw("app", "listadd", freeze(I, a), I.opaque_arg(b))
        if op == "Mult":
            la = I.get((a.args[0], "$items"))
            if la.op == "seq" and is_num(b):
                return I.new_list(la.args * int(cval(b)))
            if la.op == "seq" and len(la.args) == 1:
                return listof(I, la.args[0], b)
    if oi.kind == "set" and op in ("BitOr", "Sub", "BitAnd"):
        kb = {k for _, k in (I.dict_keys(b) or [])} if b.op == "obj" else set()
        ka = [k for _, k in (I.dict_keys(a) or [])]
        if op == "BitOr":
            ks = ka + [k for k in kb if k not in ka]
        elif op == "Sub":
            ks = [k for k in ka if k not in kb]
        else:
            ks = [k for k in ka if k in kb]
        return new_set(I, ks)
    if oi.kind == "dict" and op == "BitOr":
        o = I.new_dict()
        dict_update(I, o, a)
        dict_update(I, o, b)
        return o
    return None


def listof(I, x, n):
    o = I.new_list([])
    I.put((o.args[0], "$items"), raw("listof", x, n))
    return o


def new_set(I, ks):
    o = I.alloc("set", None, "set")
    I.put((o.args[0], "$keys"), raw("keys"))
    for k in ks:
        I.dict_set(o, k, TRUE)
    return o


# ----------------------------------------------------------------------- strings
def to_str(I, x):
    if x.op == "ite":
        return I.lift(lambda y: to_str(I, y), x)
    x = stripf(x)
    if x.op == "const":
        return const(str(x.args[1]))
    if kind_of(I, x) == "str":
        return x
    if x.op == "obj":
        for m in ("__str__", "__repr__", "__format__"):
            f = I.class_lookup(x, m)
            if f is not ABSENT:
                if m != "__format__" and f.op == "fn" and not any(fr.func is f.args[0] for fr in I.frames):
                    return I.call(I.bind(f, x), [], [])
                return raw("app", "strof", const(I.oinfo(x).cls.name))
        return raw("app", "str", const(I.oinfo(x).label))
    if x.op == "exc":
        a = x.args[1]
        if len(a) == 1 and a[0].op == "obj" and I.oinfo(a[0]).kind == "inst" and I.oinfo(a[0]).cls.name == x.args[0]:
            if I.class_lookup(a[0], "__str__") is not ABSENT:
                return to_str(I, a[0])
            aa = I.get((a[0].args[0], "args"))
            a = aa.args if aa.op == "tuple" else a
        if not a:
            return const("")
        if len(a) == 1 and x.args[0] not in ("KeyError", "OSError"):
            return to_str(I, a[0])
    if x.op == "tuple":
        return raw("app", "str", I.opaque_arg(x))
    if x.op == "path":
        return x
    return raw("app", "str", x)


def concat_str(I, parts):
    if any(p.op == "ite" for p in parts):
        n = 1
        for p in parts:
            n *= len(leaves(p) or [0] * 100) if p.op == "ite" else 1
        if n <= 32:
            return I.lift(lambda *xs: concat_str(I, list(xs)), *parts)
    out = []
    for p in parts:
        if p is BOTTOM:
            return BOTTOM
        ps = p.args[1:] if p.op == "app" and p.args[0] == "concat" else (p,)
        for q in ps:
            if is_str(q) and out and is_str(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    out = [q for q in out if not (is_str(q) and cval(q) == "")]
    if not out:
        return const("")
    if len(out) == 1:
        q = out[0]
        return q if kind_of(I, q) == "str" or q.op in ("app", "path", "bytes") else raw("app", "str", q)
    return raw("app", "concat", *out)


def str_format_percent(I, f, b):
    args = list(b.args) if b.op == "tuple" else [b]
    s = cval(f)
    parts, cur, i, k = [], "", 0, 0
    while i < len(s):
        if s[i] == "%" and i + 1 < len(s):
            if s[i + 1] == "%":
                cur += "%"
                i += 2
                continue
            j = i + 1
            while j < len(s) and s[j] not in "sdrfgeixc":
                j += 1
            if k >= len(args):
                return I.raise_("TypeError", const("not enough arguments for format string"))
            parts.append(const(cur))
            cur = ""
            parts.append(to_str(I, args[k]) if s[i + 1] in "s" else
                         (const(s[i:j + 1] % cval(args[k])) if is_num(args[k]) and s[j] not in "c" else
                          raw("app", "fmt" + s[i:j + 1], I.opaque_arg(args[k]))))
            k += 1
            i = j + 1
            continue
        cur += s[i]
        i += 1
    parts.append(const(cur))
    return concat_str(I, parts)


# --------------------------------------------------------------------- sequences
def seq_of(I, v):
    """`seq`/`tuple` term with the elements (possibly guarded), or the raw items term"""
    v = stripf(v)
    if v.op in ("tuple", "seq"):
        return v
    if v.op == "obj":
        oi = I.oinfo(v)
        if oi.kind == "list":
            return I.get((v.args[0], "$items"))
        if oi.kind in ("dict", "set") or (oi.kind == "inst" and I.is_dictlike(oi.cls)) or (v.args[0], "$keys") in I.h:
            ks = I.dict_keys(v)
            if ks is None:
                return None
            if oi.kind == "set" and getattr(I, "hash_order", 0) and len(ks) > 1:
                # one of the orders in which a set may hand out its elements
                ks = ks[::-1]
            return raw("seq", *[mk_ite(g, k, ABSENT) for g, k in ks])
    return None


def iter_items(I, v):
    """[(guard, element)] of an iterable with statically known elements, else None"""
    v = stripf(v)
    if v.op == "ite":
        return None
    if v.op == "const" and isinstance(v.args[1], str):
        return [(TRUE, const(c)) for c in v.args[1]]
    if v.op == "obj":
        m = I.class_lookup(v, "__iter__")
        if m is not ABSENT:
            r = I.call(I.bind(m, v), [], [])
            if r is not v:
                return iter_items(I, r)
            nx = I.class_lookup(v, "__next__")
            out = []
            while nx is not ABSENT and len(out) < 64:
                e0 = len(I.frame.exits)
                x = I.call(I.bind(nx, v), [], [])
                new = I.frame.exits[e0:]
                stop = [e for e in new if e.kind == "raise" and e.val.op == "exc" and e.val.args[0] == "StopIteration"]
                if I.pc is FALSE and len(new) == 1 and stop:
                    del I.frame.exits[e0:]
                    I.pc, I.h = stop[0].pc, stop[0].h
                    return out
                if stop or I.pc is FALSE:
                    break
                out.append((TRUE, x))
            if nx is not ABSENT:
                I.unsupported.append(("iterator object", I.loc()))
            return None
        oi = I.oinfo(v)
        if I.is_array_inst(v):
            b = I.base(v)
            if b is not v:
                return iter_items(I, b)
        if oi.kind == "xobj":
            from . import libext
            r = libext.xiter(I, v, oi)
            if r is not None:
                return iter_items(I, r)
    if v.op == "ext" and v.args[0] == "object.__dict__":
        return [(TRUE, const(k)) for k in object.__dict__]
    if v.op == "classdict":
        from . import libext
        return iter_items(I, libext.class_attrs(I, v.args[0]))
    if v.op == "instdict":
        from . import libext
        return iter_items(I, libext.instdict_method(I, v, "keys", [], []))
    if v.op == "gen":
        return gen_items(I, v)
    if v.op == "range":
        a = v.args
        if all(is_num(x) for x in a):
            r = range(*[int(cval(x)) for x in a])
            if len(r) <= 64:
                return [(TRUE, const(i)) for i in r]
        return None
    if v.op == "cls":
        ms = I.get(("C", v.args[0], "$members"))
        return [(TRUE, m) for m in ms.args] if ms is not ABSENT else None
    if v.op == "zip":
        its = [iter_items(I, x) for x in v.args if x.op != "counter"]
        if len(its) < len(v.args) and its and all(x is not None for x in its):
            n = min(len(x) for x in its)
            def count(x, i):
                return x.args[0] if x.args[1] is NONE else const(cval(x.args[0]) + i * cval(x.args[1]))
            its = [[(TRUE, count(x, i)) for i in range(n)] if x.op == "counter" else iter_items(I, x) for x in v.args]
        if any(x is None or any(g is not TRUE for g, _ in x) for x in its):
            return None
        return [(TRUE, raw("tuple", *[x[1] for x in row])) for row in zip(*its)]
    if v.op == "enumerate":
        it = iter_items(I, v.args[0])
        if it is None or any(g is not TRUE for g, _ in it):
            return None
        return [(TRUE, raw("tuple", const(i + int(cval(v.args[1]))), x[1])) for i, x in enumerate(it)]
    s = seq_of(I, v)
    if s is None:
        if v.op == "full" or v.op == "call" and v.args[0] == "array" and False:
            return None
        if v.op == "call" and v.args[0] in ("array", "atleast_1d") and v.args[1].op in ("seq", "tuple", "flist"):
            s = v.args[1]
        elif v.op == "flist":
            s = v
        else:
            return None
    if s.op == "ite":
        s2 = I.restrict(s)
        if s2.op == "ite":
            return None
        s = s2
    if s.op not in ("seq", "tuple", "flist"):
        return None
    out = []
    for x in s.args:
        if x.op == "ite":
            x = I.restrict(x)
        if x is ABSENT:
            continue
        g = guard_of(x, lambda l: l is not ABSENT) if x.op == "ite" else TRUE
        if g is TRUE:
            out.append((TRUE, x))
        else:
            out.append((g, simplify_under(map_leaves(x, lambda l: BOTTOM if l is ABSENT else l), g)))
    return out


def gen_items(I, g):
    """run a generator function of the package, collecting what it yields"""
    fv, args, kwargs, oid = g.args
    cur = I.get((oid, "$items"))
    if cur is not ABSENT:
        # already started: what is left
        left = seq_of(I, raw("obj", oid))
        I.put((oid, "$items"), raw("seq"))
        return iter_items(I, left) if left is not None else None
    out = I.new_list([])
    frame0 = I.frame

    def body(fr):
        def cb(v):
            list_append(I, out, v)
            return NONE
        fr.yield_cb = cb
        I.block(fr.func.node.body)
        return None
    I.call_fn(fv, list(args), list(kwargs), body_override=body)
    if I.pc is FALSE:
        return []
    I.put((oid, "$items"), raw("seq"))
    return iter_items(I, out)


def generic_elem(I, it, lid):
    """element and trip count of a loop over an iterable of unknown length"""
    it = stripf(I.base(it))
    if it.op == "obj":
        s = seq_of(I, it)
        if s is not None:
            it = s
    if it.op == "zip":
        es = [generic_elem(I, x, lid) for x in it.args]
        return raw("tuple", *[e for e, _ in es]), es[0][1]
    if it.op == "enumerate":
        e, n = generic_elem(I, it.args[0], lid)
        return raw("tuple", raw("iterelem", lid, raw("range", const(0), n, const(1))), e), n
    if it.op == "range":
        a = it.args
        n = a[1] if a[0] is const(0) and a[2] is const(1) else raw("call", "rangelen", *a)
        return raw("iterelem", lid, it), n
    sh = shape_of(I, it)
    n = sh[0] if sh else raw("len", it)
    if it.op == "listof":
        return it.args[0], it.args[1]
    return index(I, it, raw("iterelem", lid, raw("range", const(0), n, const(1)))) if sh else raw("iterelem", lid, it), n


def length(I, v):
    v = stripf(v)
    if v.op == "const" and v.args[0] in ("str", "bytes"):
        return const(len(v.args[1]))
    if v.op in ("tuple",):
        return const(len(v.args))
    if v.op == "obj":
        m = I.class_lookup(v, "__len__")
        if m is not ABSENT:
            return I.call(I.bind(m, v), [], [])
        if I.is_array_inst(v):
            return length(I, I.base(v))
        oi = I.oinfo(v)
        if oi.kind == "xobj":
            from . import libext
            r = libext.xiter(I, v, oi)
            if r is not None:
                return length(I, r)
        s = seq_of(I, v)
        if s is not None:
            return items_len(I, s)
        return raw("len", v)
    if v in (NONE,) or is_num(v):
        return I.raise_("TypeError", const("object has no len()"))
    if v.op in ("seq", "maplist", "seqappend", "listof"):
        return items_len(I, v)
    sh = shape_of(I, v)
    if sh == ():
        if kind_of(I, v) == "str":
            return raw("call", "len", v)
        return I.raise_("TypeError", const("len() of unsized object"))
    if sh:
        return sh[0]
    return raw("call", "len", v)


def items_len(I, s):
    if s.op == "ite":
        return map_leaves(s, lambda x: items_len(I, x))
    if s.op in ("seq", "tuple"):
        n = const(0)
        for x in s.args:
            if x.op == "ite":
                g = guard_of(x, lambda l: l is not ABSENT)
                n = mk_add_ite(I, n, g)
            elif x is not ABSENT:
                n = I.lift(lambda m: mk_add(m, const(1)), n)
        return n
    if s.op == "maplist":
        return mk_add(const(len(s.args[1].args)), s.args[3])
    if s.op == "listof":
        return s.args[1]
    return raw("call", "len", s)


def mk_add_ite(I, n, g):
    return mk_ite(g, map_leaves(n, lambda m: mk_add(m, const(1))), n)


def list_append(I, o, v):
    it = I.get((o.args[0], "$items"))

    def app(x):
        if x.op == "seq":
            return raw("seq", *x.args, v)
        return raw("seqappend", x, v)
    I.put((o.args[0], "$items"), map_leaves(it, app))


def list_extend(I, o, v):
    its = iter_items(I, v)
    if its is None:
        it = I.get((o.args[0], "$items"))
        I.put((o.args[0], "$items"), raw("app", "extend", it, I.opaque_arg(v)))
        return
    it = I.get((o.args[0], "$items"))
    add = tuple(mk_ite(g, x, ABSENT) for g, x in its)
    I.put((o.args[0], "$items"), map_leaves(it, lambda x: raw("seq", *(x.args + add)) if x.op == "seq" else raw("app", "extend", x, raw("seq", *add))))


# ------------------------------------------------------------------------- index
def index(I, x0, i0):
    if I.pc is FALSE:
        return BOTTOM
    x, i = stripf(x0), stripf(I.base(i0))
    if i.op == "obj" and I.oinfo(i).kind == "list":
        i = list_value(I, i)
    if x is BOTTOM or i is BOTTOM:
        return BOTTOM
    if x.op == "ite" and i.op == "ite":
        pass
    if x.op in ("tuple", "seq", "flist"):
        if is_num(i):
            return nth(I, x, int(cval(i)))
        if i.op == "slice" and all(is_num(z) or z is NONE for z in i.args):
            if all(y.op != "ite" or not contains_absent(y) for y in x.args):
                return raw(x.op, *x.args[slice(*[None if z is NONE else int(cval(z)) for z in i.args])])
        if i.op == "ite":
            return I.split(i, lambda j: index(I, x, j))
        return raw("index", x, i)
    if x.op == "const":
        if x.args[0] in ("str", "bytes"):
            if is_num(i):
                try:
                    return const(x.args[1][int(cval(i))])
                except IndexError:
                    return I.raise_("IndexError", i)
            if i.op == "slice" and all(is_num(z) or z is NONE for z in i.args):
                return const(x.args[1][slice(*[None if z is NONE else cval(z) for z in i.args])])
            return raw("app", "strindex", x, i)
        return I.raise_("TypeError", const("not subscriptable"), x)
    if i.op == "tuple" and not i.args:
        return x0
    if i.op == "slice" and all(z is NONE for z in i.args):
        return x0
    if i is ELLIPSIS:
        return x0
    if x.op == "call" and x.args[0] == "array" and len(x.args) == 2 and x.args[1].op in ("seq", "tuple") and is_num(i) and not isinstance(cval(i), bool) \
            and all(y.op != "ite" or not contains_absent(y) for y in x.args[1].args) \
            and len({kind_of(I, y) for y in x.args[1].args}) == 1 and all(S.shape_of(I, y) == () for y in x.args[1].args):
        try:
            return x.args[1].args[int(cval(i))]
        except IndexError:
            return I.raise_("IndexError", i)
    if kind_of(I, i) == "bool" and kind_of(I, x) in ("real", "int") and shape_of(I, x) == () and shape_of(I, i) == ():
        return I.raise_("TypeError", const("not subscriptable"), x) if x0.op == "sym" else x0
    if x.op == "full" and x.args[1].op != "ite":
        si = S.index_shape(I, x, i)
        if si == ():
            return x.args[1]
        if si is not None:
            return raw("full", si[0] if len(si) == 1 else raw("tuple", *si), x.args[1])
    if x.op == "store":
        if x.args[1] is i:
            v = x.args[2]
            return v
    if x.op == "cls":
        return x          # generic alias  List[int]
    if x.op == "ext":
        return raw("ext", x.args[0])
    if x.op == "maplist" and False:
        return x
    if x.op == "path":
        return raw("app", "pathindex", x, i)
    if i.op == "const" and i.args[0] == "str" and x.op not in ("sym", "app", "iterelem", "index", "phi", "mu", "call"):
        if x.op in ("classdict", "instdict"):
            v = I.get(("C", x.args[0], cval(i))) if x.op == "classdict" else I.get((x.args[0].args[0], cval(i)))
            if v is ABSENT:
                return I.raise_("KeyError", i)
            if v.op == "ite":
                I.raise_if(guard_of(v, lambda l: l is ABSENT), "KeyError", i)
            return v
        return I.raise_("TypeError", const("string index"), x)
    return raw("index", x, i)


def contains_absent(y):
    return guard_of(y, lambda l: l is ABSENT) is not FALSE


def nth(I, s, n):
    a = list(s.args)
    if all(y.op != "ite" or not contains_absent(y) for y in a):
        if -len(a) <= n < len(a):
            return a[n]
        return I.raise_("IndexError", const(n))
    if n < 0:
        a = a[::-1]
        n = -n - 1

    def go(k, m):
        if k >= len(a):
            return ABSENT
        y = a[k]
        g = guard_of(y, lambda l: l is not ABSENT) if y.op == "ite" else TRUE
        if m == 0:
            return mk_ite(g, y, go(k + 1, 0) if g is not TRUE else ABSENT)
        return mk_ite(g, go(k + 1, m - 1), go(k + 1, m) if g is not TRUE else ABSENT)
    r = go(0, n)
    g = guard_of(r, lambda l: l is ABSENT) if r.op == "ite" else (TRUE if r is ABSENT else FALSE)
    if g is not FALSE:
        I.raise_if(g, "IndexError", const(n))
        r = map_leaves(r, lambda l: BOTTOM if l is ABSENT else l)
        if I.pc is FALSE:
            return BOTTOM
        r = simplify_under(r, b_not(g))
    return r


def int_power(I, a, b):
    """numpy refuses (and compiled code truncates) an integer to a negative integer power"""
    a, b = stripf(a), stripf(b)
    if kind_of(I, a) in ("int", "bool") and kind_of(I, b) in ("int", "bool"):
        c = atom_of(mk_cmp("lt", b, const(0))) if not is_num(b) else (TRUE if cval(b) < 0 else FALSE)
        if c is not FALSE:
            I.emit("int-power", a, b, c)


def store(I, x, i, v):
    x, i = stripf(x), stripf(I.base(i))
    v = val(I, v)
    if v.op != "ite" and kind_of(I, x) == "int" and kind_of(I, v) == "real":
        v = raw("call", "int", v)            # an integer array keeps integers
    if i.op == "slice" and all(z is NONE for z in i.args):
        if shape_of(I, v) == ():
            sh = shape_of(I, x)
            if sh and len(sh) == 1:
                return raw("full", sh[0], v)
        elif shape_of(I, v) is not None and shape_of(I, v) == shape_of(I, x):
            return v
    if shape_of(I, x) == () and kind_of(I, i) == "bool" and shape_of(I, i) == ():
        return mk_ite(atom_of(i), v, x)      # a zero-dimensional array
    if x.op == "store" and x.args[1] is i:
        return raw("store", x.args[0], i, v)
    return raw("store", x, i, v)


def delitem(I, x, i):
    if x.op == "obj":
        m = I.class_lookup(x, "__delitem__")
        if m is not ABSENT:
            I.call(I.bind(m, x), [i], [])
            return
        oi = I.oinfo(x)
        if oi.kind == "list":
            it = I.get((x.args[0], "$items"))
            if it.op == "seq" and is_num(i):
                l = list(it.args)
                del l[int(cval(i))]
                I.put((x.args[0], "$items"), raw("seq", *l))
            return
        cur = I.dict_get(x, i)
        g = guard_of(cur, lambda l: l is ABSENT) if cur.op == "ite" else (TRUE if cur is ABSENT else FALSE)
        I.raise_if(g, "KeyError", i)
        if I.pc is not FALSE:
            I.dict_del(x, i)


# -------------------------------------------------------------------------- dicts
def is_dict(I, o):
    if o.op != "obj":
        return False
    oi = I.oinfo(o)
    return oi.kind in ("dict", "set") or (oi.kind == "inst" and I.is_dictlike(oi.cls))


def is_dotmap(I, o):
    oi = I.oinfo(o)
    return oi.kind == "inst" and any(r.startswith("dotmap") for r in oi.cls.ext_root()) or oi.label == "DotMap"


def obj_getitem(I, o, k):
    from . import libext
    oi = I.oinfo(o)
    if I.is_array_inst(o):
        return index(I, I.base(o), k)
    if oi.kind == "list":
        it = I.get((o.args[0], "$items"))
        if it.op == "ite":
            return I.split(it, lambda s: list_get(I, s, k))
        return list_get(I, it, k)
    if is_dict(I, o):
        v = I.dict_get(o, k)
        if v is ABSENT:
            if k.op != "const" and I.dict_keys(o):
                r = sym_lookup(I, o, k)
                if r is not None:
                    return r
            mm = I.class_lookup(o, "__missing__") if oi.kind == "inst" else ABSENT
            if mm is not ABSENT:
                return I.call(I.bind(mm, o), [k], [])
            fac = I.get((o.args[0], "$factory"))
            if fac is not ABSENT and fac is not NONE:
                n = I.call(fac, [], [])
                if I.pc is not FALSE:
                    I.dict_set(o, k, n)
                return n
            if is_dotmap(I, o):
                n = I.new_dict(label="DotMap")
                I.dict_set(o, k, n)
                return n
            return I.raise_("KeyError", k)
        if v.op == "ite":
            g = guard_of(v, lambda l: l is ABSENT)
            if g is not FALSE:
                I.raise_if(g, "KeyError", k)
                if I.pc is FALSE:
                    return BOTTOM
                v = simplify_under(map_leaves(v, lambda l: BOTTOM if l is ABSENT else l), b_not(g))
        return v
    if oi.kind == "xobj":
        return libext.xgetitem(I, o, oi, k)
    if oi.kind == "inst":
        return I.raise_("TypeError", const("not subscriptable"), o)
    return raw("app", "getitem", o, k)


def sym_lookup(I, o, k):
    """lookup with a symbolic key that equals one of the keys of the dictionary"""
    for g, kk in I.dict_keys(o):
        if kk.op != "const":
            return None
    return None


def list_get(I, it, k):
    k = stripf(k)
    if it.op == "seq":
        if k.op == "slice":
            r = index(I, it, k)
            if r.op == "seq":
                return I.new_list(r.args)
            return r
        return index(I, it, k)
    if it.op == "maplist" and k.op == "const" and False:
        return it
    return raw("index", it, k)


def obj_setitem(I, o, k, v):
    from . import libext
    oi = I.oinfo(o)
    if I.is_array_inst(o):
        b = I.base(o)
        new = store(I, b, k, v)
        I.emit("setitem", o, k, v)
        I.mutate_array(b, new, "store")
        return
    if oi.kind == "list":
        it = I.get((o.args[0], "$items"))
        I.emit("setitem", o, k, v)
        if it.op == "ite":
            it = I.restrict(it)
        if it.op == "seq" and k.op == "slice" and all(x is NONE or is_num(x) for x in k.args):
            new = iter_items(I, v)
            if new is not None and all(g is TRUE for g, _ in new):
                l = list(it.args)
                try:
                    l[slice(*[None if x is NONE else int(cval(x)) for x in k.args])] = [x for _, x in new]
                except ValueError:
                    I.raise_("ValueError", const("extended slice"))
                    return
                I.put((o.args[0], "$items"), raw("seq", *l))
                return
        if it.op == "seq" and is_num(k):
            l = list(it.args)
            try:
                l[int(cval(k))] = v
            except IndexError:
                I.raise_("IndexError", k)
                return
            I.put((o.args[0], "$items"), raw("seq", *l))
        else:
            I.put((o.args[0], "$items"), raw("store", it, k, v))
        return
    if is_dict(I, o):
        I.emit("setitem", o, k, v)
        if k.op == "iterelem" or (k.op not in ("const", "sym", "tuple", "app", "cls", "obj") and k.op != "exc"):
            I.dict_set(o, k, v)
            return
        I.dict_set(o, k, v)
        return
    if oi.kind == "xobj":
        libext.xsetitem(I, o, oi, k, v)
        return
    I.raise_("TypeError", const("does not support item assignment"))


def dict_update(I, o, v):
    if v.op == "ite":
        I.split(v, lambda x: dict_update(I, o, x))
        return
    if v.op == "obj" and (v.args[0], "$keys") in I.h:
        ks = I.dict_keys(v)
        if ks is None:
            I.put((o.args[0], "$keys"), raw("app", "update", I.opaque_arg(v)))
            return
        for g, k in ks:
            x = I.dict_get(v, k)
            if g is TRUE:
                I.setitem(o, k, x)
            else:
                xx = map_leaves(x, lambda l: BOTTOM if l is ABSENT else l)
                I.branch(g, lambda: I.setitem(o, k, I.restrict(xx)), lambda: None)
        return
    its = iter_items(I, v)
    if its is not None:
        for g, x in its:
            I.branch(g, lambda: I.setitem(o, I.unpack(x, 0, 2), I.unpack(x, 1, 2)), lambda: None)
        return
    if v.op == "classdict":
        return
    I.emit("call-unknown", const("dict.update"), v)


def kw_items(I, v):
    if v.op == "ite":
        return None
    if v.op == "obj" and (v.args[0], "$keys") in I.h:
        out = []
        for g, k in I.dict_keys(v) or []:
            x = I.dict_get(v, k)
            if is_str(k):
                if g is not TRUE:
                    x = map_leaves(x, lambda l: BOTTOM if l is ABSENT else l)
                out.append((cval(k), x))
        return out
    return None


def contains_(I, container, x):
    c = stripf(container)
    if x.op == "ite":
        return I.lift(lambda y: I.truth(contains_(I, c, y)), x)
    if is_str(c):
        if is_str(x):
            return const(cval(x) in cval(c))
        if x.op == "const":
            return I.raise_("TypeError", const("in <string> requires string"))
        return atom_of(raw("in", stripf(x), c))
    if c.op == "obj":
        m = I.class_lookup(c, "__contains__")
        if m is not ABSENT:
            return I.call(I.bind(m, c), [x], [])
        oi = I.oinfo(c)
        if is_dict(I, c):
            v = I.dict_get(c, x)
            if v is ABSENT:
                # membership of a symbolic key
                if x.op != "const" and any(k.op != "const" or True for _, k in I.dict_keys(c) or []):
                    r = FALSE
                    for g, k in I.dict_keys(c) or []:
                        if x.op in ("sym",) and k.op in ("sym", "const") and x.args[1] == "text":
                            continue          # distinct names are distinct
                        if kind_of(I, x) == "str" and k.op == "const":
                            e = I.truth(mk_cmp("eq", x, k))
                            r = b_or(r, b_and(g, e))
                    return r
                return FALSE
            return guard_of(v, lambda l: l is not ABSENT) if v.op == "ite" else TRUE
        if oi.kind == "xobj":
            from . import libext
            r = libext.xcontains(I, c, oi, x)
            if r is not None:
                return r
    its = iter_items(I, c)
    if its is not None:
        r = FALSE
        for g, y in its:
            e = TRUE if x is y else I.truth(I.compare("Eq", x, y))
            r = b_or(r, b_and(g, e))
        return r
    if c is raw("ext", "object.__dict__") and is_str(x):
        return const(cval(x) in object.__dict__)
    if c.op == "classdict":
        if is_str(x):
            return const(I.get(("C", c.args[0], cval(x))) is not ABSENT)
        return atom_of(raw("in", x, c))
    if c.op == "instdict":
        if is_str(x):
            v = I.get((c.args[0].args[0], cval(x)))
            return guard_of(v, lambda l: l is not ABSENT) if v.op == "ite" else const(v is not ABSENT)
    if c.op == "const" and is_str(c) and is_str(x):
        return const(cval(x) in cval(c))
    return atom_of(raw("in", stripf(x), c))


# ------------------------------------------------------------------------ freezing
def freeze(I, v, seen=None, depth=0):
    """value-number of a whole object graph (deep snapshot)"""
    if v.op == "ite":
        return map_leaves(v, lambda x: freeze(I, x, seen, depth) if x is not ABSENT else x)
    v = stripf(v)
    if v.op == "frozenval":
        return v.args[0]
    if v.op == "tuple" or v.op == "seq":
        return raw(v.op, *[freeze(I, x, seen, depth + 1) for x in v.args])
    if v.op == "bound":
        return raw("bound", v.args[0], freeze(I, v.args[1], seen, depth + 1))
    if v.op != "obj":
        return v
    if seen is None:
        seen = []
    if v in seen:
        return raw("backref", const(len(seen) - seen.index(v)))
    seen = seen + [v]
    oi = I.oinfo(v)
    oid = v.args[0]
    if oi.kind == "list":
        it = I.get((oid, "$items"))
        return map_leaves(it, lambda s: raw("flist", *[freeze(I, x, seen, depth + 1) if x.op != "ite" else
                                                       map_leaves(x, lambda l: l if l is ABSENT else freeze(I, l, seen, depth + 1))
                                                       for x in s.args]) if s.op == "seq" else
                          raw("flistof", deep_freeze_term(I, s, seen)))
    fields = []
    if (oid, "$keys") in I.h:
        ks = I.dict_keys(v)
        if ks is None:
            fields.append(raw("fkeys", I.h[(oid, "$keys")]))
        else:
            for _, k in ks:
                x = I.dict_get(v, k)
                fields.append(raw("item", freeze(I, k, seen, depth + 1) if k.op in ("tuple",) else k,
                                  map_leaves(x, lambda l: l if l is ABSENT else freeze(I, l, seen, depth + 1))))
        fields.sort(key=lambda t: show(t.args[0]) if t.op == "item" else "")
    if oi.kind in ("dict", "set"):
        return raw("fdict", *fields)
    if oi.kind == "xobj":
        if oi.label in ("logger", "handler", "plt", "module"):
            return raw("fobj", oi.label)
    names = sorted(k[1] for k in list(I.h) if k[0] == oid and isinstance(k[1], str) and k[1] not in ("$alive", "$keys"))
    for n in names:
        x = I.get((oid, n))
        if x is ABSENT:
            continue
        fields.append(raw("item", const(n), map_leaves(x, lambda l: l if l is ABSENT else freeze(I, l, seen, depth + 1))))
    return raw("fobj", oi.cls.qual if oi.cls else oi.label, *fields)


def deep_freeze_term(I, t, seen):
    return t


# ----------------------------------------------------------------------- attributes
def value_attr(I, v, name, default):
    """attribute of a non-heap value (arrays, strings, tuples, ...)"""
    from . import libext
    v0 = v
    v = stripf(v)
    if v.op == "const" and v.args[0] == "NoneType":
        if name in ("__class__",):
            return raw("ext", "NoneType")
        if hasattr(None, name):
            return raw("extm", v0, name)
        return I.missing_attr(v, name, default)
    if v.op in ("instdict", "classdict"):
        return raw("extm", v, name)
    if v.op in ("const", "path", "bytes") or kind_of(I, v) == "str":
        if v.op == "path":
            return libext.path_attr(I, v, name, default)
        pyt = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes}.get(v.args[0] if v.op == "const" else
                                                                                         ("bytes" if v.op == "bytes" else "str"))
        if pyt is not None and not hasattr(pyt, name):
            if v.op == "const" and v.args[0] in ("int", "float", "bool") and hasattr_np(name):
                return raw("extm", v0, name)      # may as well be a numpy scalar
            return I.missing_attr(v, name, default)
        return raw("extm", v0, name)
    if v.op == "exc":
        if v.args[1] and v.args[1][0].op == "obj" and I.oinfo(v.args[1][0]).kind == "inst" and len(v.args[1]) == 1 \
                and I.oinfo(v.args[1][0]).cls.name == v.args[0]:
            return I.getattr_(v.args[1][0], name, default)
        if name == "args":
            return raw("tuple", *v.args[1])
        if name == "__class__":
            return raw("ext", v.args[0])
        if name in ("__cause__", "__context__", "__traceback__"):
            return raw("app", "excattr:" + name, v)
        return raw("app", "excattr:" + name, v)
    if v.op == "excclass" and name in ("__name__", "__qualname__") and v.args[0].op == "exc":
        return const(v.args[0].args[0])
    if v.op in ("frozen", "genobj", "sfm"):
        return raw("extm", v0, name)
    if v.op in ("tuple", "seq") and not hasattr(tuple, name):
        return I.missing_attr(v, name, default)
    if name == "shape":
        sh = shape_of(I, v)
        return raw("tuple", *sh) if sh is not None else raw("app", "shape", v)
    if name == "size":
        sh = shape_of(I, v)
        if sh is not None and len(sh) <= 1:
            return sh[0] if sh else const(1)
        return raw("app", "size", v)
    if name == "ndim":
        sh = shape_of(I, v)
        return const(len(sh)) if sh is not None else raw("app", "ndim", v)
    if name == "T":
        return v0
    if name == "dtype":
        return raw("app", "dtype", const(kind_of(I, v)))
    if name == "value" and v.op in ("app", "call"):
        return raw("app", "value", v)
    if name in ("__class__",):
        return raw("ext", "numpy.ndarray")
    sh = shape_of(I, v)
    if v.op == "app" and str(v.args[0]).startswith("sky"):
        # coordinate transformation: an element-wise function of the angles, named by the chain of frames and components
        chain = str(v.args[0])
        if name in ("deg", "degree", "rad", "radian", "radians", "value", "hour", "hourangle") and "." in chain:
            ELEMENTWISE.add(chain + "." + name)
            return raw("call", chain + "." + name, *v.args[1:])
        return raw("app", chain + "." + name, *v.args[1:])
    if v.op in ("app", "sym") and sh is None and not hasattr_np(name):
        return raw("app", "attr:" + name, v)
    if v.op == "sym" and v.args[1] in ("opaque",):
        return raw("extm", v0, name) if default is None else raw("app", "attr:" + name, v)
    if v.op == "app":
        return raw("extm", v0, name)
    if sh is not None and not hasattr_np(name):
        return I.missing_attr(v, name, default)
    return raw("extm", v0, name)


NPATTR = {"view", "astype", "copy", "sum", "min", "max", "mean", "std", "all", "any", "shape", "size", "ndim", "T", "dtype", "tolist",
          "item", "reshape", "flatten", "ravel", "sort", "argsort", "cumsum", "fill", "real", "imag", "__getitem__", "__setitem__",
          "prod", "var", "round", "clip", "nonzero", "repeat", "dot", "take", "put", "argmax", "argmin", "squeeze", "tobytes", "flat",
          "__array_ufunc__", "__len__", "__array__", "__add__", "__mul__", "__sub__", "__and__", "__or__", "__invert__", "__class__",
          "__repr__", "__str__", "is_integer", "byteswap", "resize", "partition", "searchsorted", "transpose", "swapaxes", "trace", "flags",
          "base", "data", "nbytes", "itemsize", "strides", "setflags", "conj", "conjugate", "cumprod", "diagonal", "choose", "compress",
          "__truediv__", "__pow__", "__eq__", "__lt__", "__le__", "__gt__", "__ge__", "__ne__", "__radd__", "__rmul__", "__neg__", "__abs__"}


def hasattr_np(name):
    return name in NPATTR


def obj_attr(I, o, oi, name, default):
    """attribute of a heap object that is not found in its class or cells"""
    from . import libext
    oid = o.args[0]
    if (oid, "$base") in I.h:
        if name in ("shape", "size", "ndim", "dtype", "T"):
            return value_attr(I, I.base(o), name, default)
        if hasattr_np(name):
            return raw("extm", o, name)
        return I.missing_attr(o, name, default)
    if oi.kind == "list":
        if hasattr(list, name):
            return raw("extm", o, name)
        return I.missing_attr(o, name, default)
    if oi.kind == "set":
        if hasattr(set, name):
            return raw("extm", o, name)
        return I.missing_attr(o, name, default)
    if is_dict(I, o):
        if is_dotmap(I, o):
            if hasattr(dict, name) or name in ("empty", "toDict", "pprint", "bannerStr"):
                return raw("extm", o, name)
            v = I.dict_get(o, const(name))
            if v is not ABSENT:
                return v
            return obj_getitem(I, o, const(name))
        if oi.label == "Cfg":
            v = I.dict_get(o, const(name))
            if v is not ABSENT:
                return v
        if hasattr(dict, name) or name in ("move_to_end", "data"):
            return raw("extm", o, name)
        return I.missing_attr(o, name, default)
    if oi.kind == "xobj":
        return libext.xattr(I, o, oi, name, default)
    return I.missing_attr(o, name, default)


def xobj_setattr(I, o, oi, name, v):
    from . import libext
    if oi.kind == "dict":
        if is_dotmap(I, o) or oi.label == "Cfg":
            I.dict_set(o, const(name), v)
            return True
        return False
    return libext.xsetattr(I, o, oi, name, v)


# the rest of the library lives in libext
def ext_value(dotted):
    from . import libext
    return libext.ext_value(dotted)


def call_memo(I, f, args, kwargs):
    """functools.lru_cache: the value computed first for arguments that are the same"""
    fn, oid = f.args
    ks = list(args) + [x for k, v in sorted(kwargs, key=lambda x: x[0]) for x in (const(k), v)]
    ks = [stripf(k) for k in ks]
    for k in ks:
        bad = guard_of(k, lambda x: x.op == "obj" and (I.oinfo(x).kind in ("list", "dict", "set") or I.is_array_inst(x))
                       or x.op != "obj" and is_array(shape_of(I, x)))
        if bad is not FALSE:
            I.raise_if(bad, "TypeError", const("unhashable type"))
            if I.pc is FALSE:
                return BOTTOM
    key = raw("tuple", *ks)
    cell = (oid, ("memo", key))
    cur = I.get(cell)
    if cur is ABSENT:
        v = I.call(fn, args, kwargs)
        if I.pc is not FALSE:
            I.put(cell, v)
        return v
    g = guard_of(cur, lambda x: x is ABSENT)
    if g is FALSE:
        return cur

    def fresh():
        v = I.call(fn, args, kwargs)
        if I.pc is not FALSE:
            I.put(cell, v)
        return v
    return I.branch(g, fresh, lambda: map_leaves(cur, lambda x: BOTTOM if x is ABSENT else x))


def apply_decorator(I, dv, v):
    from . import libext
    return libext.apply_decorator(I, dv, v)


def run_metaclass(I, meta, ct, ci):
    from . import libext
    return libext.run_metaclass(I, meta, ct, ci)


def with_(I, cm, enter):
    from . import libext
    return libext.with_(I, cm, enter)


def ufunc_dispatch(I, name, args, kwargs):
    from . import libext
    return libext.ufunc_dispatch(I, name, args, kwargs)


def intrinsic(I, name, args, kwargs):
    from . import libext
    return libext.intrinsic(I, name, args, kwargs)


def call_ext(I, name, args, kwargs):
    from . import libext
    return libext.call_ext(I, name, args, kwargs)


def call_method(I, recv, name, args, kwargs):
    from . import libext
    return libext.call_method(I, recv, name, args, kwargs)


def call_obj(I, f, args, kwargs):
    from . import libext
    return libext.call_obj(I, f, args, kwargs)
