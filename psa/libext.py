"""Summaries of third-party libraries (numpy, scipy, h5py, yaml, networkx, ...) and of built-in calls."""
import logging as _logging
import math

from .terms import *
from . import shape as S
from . import terms as T
from .shape import shape_of, is_array, kind_of, stripf, count, ELEMENTWISE
from . import lib as L
from .lib import fresh, sym, val, index, new_set, freeze, iter_items

LEVELS = {n: getattr(_logging, n) for n in ("DEBUG", "INFO", "WARNING", "WARN", "ERROR", "CRITICAL", "FATAL", "NOTSET")}
CONSTS = {"numpy.pi": math.pi, "math.pi": math.pi, "numpy.inf": math.inf, "math.inf": math.inf, "numpy.e": math.e, "math.e": math.e,
          "typing.TYPE_CHECKING": False, "scipy.pi": math.pi}
CONSTS.update({"logging." + k: v for k, v in LEVELS.items()})
TYPENAMES = {"numpy.float_": "numpy.float64", "numpy.int_": "numpy.int64", "numpy.bool_": "numpy.bool_",
             "numpy.double": "numpy.float64"}


def ext_value(dotted):
    d = dotted
    if d in CONSTS:
        return const(CONSTS[d])
    if d in ("numpy.nan", "math.nan", "numpy.NaN"):
        return raw("call", "nan")
    if d == "numpy.newaxis":
        return NONE
    if d.startswith("astropy.constants.") and d.endswith(".value"):
        return const(299792458.0) if d.split(".")[-2] == "c" else sym(d, "real", ())
    if d.startswith("astropy.cosmology.WMAP9."):
        return sym(d, "real", ()) if d.split(".")[-1] in ("Onu0", "Ogamma0", "Om0", "Ode0", "h") else raw("ext", d)
    if d.startswith("colorama.") and d.count(".") >= 2 and d.split(".")[-1].isupper():
        return const("<%s>" % d)
    return raw("ext", d)


def is_scalar(I, t):
    return shape_of(I, t) == ()


def arr(I, t):
    """result of an allocating operation"""
    if t is BOTTOM or I.pc is FALSE:
        return BOTTOM
    if t.op == "ite":
        return map_leaves(t, lambda x: arr(I, x))
    sh = shape_of(I, t)
    if sh is None or is_array(sh):
        if t.op in ("obj", "const", "tuple", "cls", "fn", "ext"):
            return t
        return fresh(I, t)
    return t


def kwget(args, kwargs, pos, name, default=None):
    if pos is not None and pos < len(args):
        return args[pos]
    for k, v in kwargs:
        if k == name:
            return v
    return default


# ----------------------------------------------------------------- decorators and classes
def apply_decorator(I, dv, v):
    if dv.op == "ext":
        n = dv.args[0]
        s = n.split(".")[-1]
        if n == "property" or s in ("cached_property", "abstractproperty"):
            return raw("property", v, NONE)
        if n == "staticmethod":
            return raw("static", v)
        if n == "classmethod" or s == "abstractclassmethod":
            return raw("clsm", v)
        if s == "abstractstaticmethod":
            return raw("static", v)
        if s == "contextmanager":
            return raw("ctx", v)
        if s == "dataclass":
            if v.op == "cls":
                I.put(("C", v.args[0], "$dataclass"), TRUE)
            return v
        if s in ("abstractmethod", "njit", "jit", "vectorize", "total_ordering", "unique", "final", "override"):
            return v
        if n in ("functools.lru_cache", "functools.cache"):
            return raw("memo", v, I.alloc("xobj", None, "memo").args[0])
    if dv.op == "app":
        n = dv.args[0].split(".")[-1] if isinstance(dv.args[0], str) else ""
        if n in ("jitclass", "njit", "jit", "vectorize"):
            return v
        if n == "wraps":
            return raw("wrapped", v, dv.args[1]) if len(dv.args) > 1 else v
        if n == "lru_cache":
            return raw("memo", v, I.alloc("xobj", None, "memo").args[0])
        if n == "dataclass":
            I.put(("C", v.args[0], "$dataclass"), TRUE)
            return v
    return I.call(dv, [v], [])


def has_abstract(I, ci):
    v = I.get(("C", ci, "__abstractmethods__"))
    if v is ABSENT:
        return None
    if v.op == "obj":
        return bool(I.dict_keys(v))
    return None


def run_metaclass(I, meta, ct, ci):
    """metaclass(name, bases, attrs): interpret __new__ of the package's metaclass, then registration"""
    regs = []
    base = meta
    while base.op == "metareg":
        regs.append(base.args[0])
        base = base.args[1]
    if base.op == "cls":
        mnew = I.class_attr(base.args[0], "__new__")
        attrs = class_attrs(I, ci)
        if mnew is not ABSENT:
            I.making = getattr(I, "making", [])
            I.making.append(ct)
            bases = raw("tuple", *[raw("cls", b) for b in ci.bases])
            fn = mnew.args[0] if mnew.op == "static" else mnew
            I.call(fn, [base, const(ci.name), bases, attrs], [])
            I.making.pop()
        minit = I.class_attr(base.args[0], "__init__")
        if minit is not ABSENT and I.pc is not FALSE:
            I.call(minit, [ct, const(ci.name), raw("tuple", *[raw("cls", b) for b in ci.bases]), attrs], [])
    elif base.op == "ext":
        # abc.ABCMeta
        names = []
        for c in ci.mro():
            for k in list(I.h):
                if k[0] == "C" and k[1] is c and isinstance(k[2], str):
                    v = I.class_attr(ci, k[2])
                    f = v.args[0] if v.op in ("property", "static", "clsm") else v
                    if f.op == "fn" and f.args[0].abstract and k[2] not in names:
                        names.append(k[2])
        I.put(("C", ci, "__abstractmethods__"), new_set(I, [const(n) for n in names]))
    if I.pc is FALSE:
        return
    for reg in reversed(regs):
        if reg.op != "obj":
            continue
        if has_abstract(I, ci):
            continue
        an = I.get((reg.args[0], "attr_name"))
        key = I.class_attr(ci, cval(an)) if is_str(an) else ABSENT
        if key is ABSENT:
            I.raise_("AttributeError", an, ct)
            return
        I.dict_set(reg, key, ct)
        I.emit("register", reg, key, ct)


def class_attrs(I, ci):
    o = I.new_dict(label="attrs")
    I.dict_set(o, const("__module__"), const(ci.module.name))
    I.dict_set(o, const("__qualname__"), const(ci.name))
    for k in list(I.h):
        if k[0] == "C" and k[1] is ci and isinstance(k[2], str) and not k[2].startswith("$"):
            v = I.h[k]
            if v is not ABSENT:
                I.dict_set(o, const(k[2]), v)
    return o


def exc_type(v):
    def one(x):
        if x.op == "exc":
            for a in x.args[1]:
                if a.op == "cls":
                    return a
            return raw("excclass", x)
        return raw("ext", "Exception")
    return map_leaves(v, one)


# ------------------------------------------------------------------------------- with
def with_(I, cm, enter):
    if cm.op == "ite":
        I.split(cm, lambda x: with_(I, x, enter))
        return
    fr = I.frame
    if cm.op == "ctxcall":
        fn, args, kwargs = cm.args
        if fn.op == "bound":
            args = (fn.args[1],) + args
            fn = fn.args[0]

        def body(gfr):
            def cb(v):
                outer = fr.exits
                fr.exits = []
                I.frame = fr
                enter(v)
                inner = fr.exits
                fr.exits = outer
                I.frame = gfr
                gfr.exits.extend(inner)
                return NONE if I.pc is not FALSE else BOTTOM
            gfr.yield_cb = cb
            I.block(gfr.func.node.body)
            return None
        I.call_fn(fn, list(args), list(kwargs), body_override=body)
        return
    if cm.op == "obj" and I.oinfo(cm).kind == "inst":
        en, ex = I.class_lookup(cm, "__enter__"), I.class_lookup(cm, "__exit__")
        if en is not ABSENT and ex is not ABSENT:
            v = I.call(I.bind(en, cm), [], [])
            if I.pc is FALSE:
                return
            outer = fr.exits
            fr.exits = []
            enter(v)
            inner = fr.exits
            fr.exits = outer
            normal = (I.pc, I.h)
            swallowed = []
            for e in inner:
                I.pc, I.h = e.pc, e.h
                a = [NONE] * 3 if e.kind != "raise" else [exc_type(e.val), e.val, NONE]
                r = I.call(I.bind(ex, cm), a, [])
                if I.pc is FALSE:
                    continue
                t = I.truth(r) if e.kind == "raise" else FALSE
                if t is TRUE:
                    swallowed.append((I.pc, I.h, None))
                elif t is FALSE:
                    outer.append(type(e)(e.kind, I.pc, I.h, e.val, e.frame))
                else:
                    swallowed.append((b_and(I.pc, t), I.h.fork(), None))
                    outer.append(type(e)(e.kind, b_and(I.pc, b_not(t)), I.h, e.val, e.frame))
            I.pc, I.h = normal
            if I.pc is not FALSE:
                I.call(I.bind(ex, cm), [NONE] * 3, [])
            if swallowed:
                if I.pc is not FALSE:
                    swallowed.append((I.pc, I.h, None))
                I.pc, I.h, _ = I.merge_exits(swallowed)
            return
    handle = cm if cm.op == "obj" and I.oinfo(cm).kind == "xobj" else None
    if handle is not None:
        I.put((handle.args[0], "managed"), TRUE)
    outer = fr.exits
    fr.exits = []
    enter(cm)
    inner = fr.exits
    fr.exits = outer
    if handle is not None:
        key = (handle.args[0], "closed")
        for e in inner:
            e.h[key] = TRUE
            e.h.dirty.add(key)
        if I.pc is not FALSE:
            I.put(key, TRUE)
    outer.extend(inner)


# ------------------------------------------------------------------------- ufuncs
UF = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "true_divide": "Div", "divide": "Div", "power": "Pow", "mod": "Mod",
      "remainder": "Mod", "floor_divide": "FloorDiv", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor",
      "logical_and": "BitAnd", "logical_or": "BitOr", "logical_xor": "BitXor", "float_power": "Pow"}
CMPUF = {"less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}
UNARY = {"exp", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh",
         "abs", "absolute", "fabs", "isfinite", "isnan", "isinf", "floor", "ceil", "rint", "sign", "trunc", "negative", "positive",
         "sqrt", "square", "deg2rad", "rad2deg", "radians", "degrees", "invert", "logical_not", "reciprocal", "cbrt",
         "exp2", "arcsinh", "arccosh", "arctanh", "signbit", "conjugate", "modf", "frexp"}
BINARY = {"minimum", "maximum", "arctan2", "hypot", "fmod", "fmin", "fmax", "logaddexp", "logaddexp2", "copysign", "heaviside", "nextafter"}
TWO = {"modf", "frexp", "divmod"}
UFUNCS = set(UF) | set(CMPUF) | UNARY | BINARY | TWO


def ufunc_eval(I, name, vals):
    if name == "modf":
        w = I.lift(lambda x: unary(I, "trunc", stripf(x)), vals[0])
        return raw("tuple", I.lift(lambda x, y: L.arith(I, "Sub", x, y), vals[0], w), w)
    if name == "frexp":
        return raw("tuple", *[I.lift(lambda x: raw("call", n, stripf(x)), vals[0]) for n in ("frexp-m", "frexp-e")])
    if name == "divmod":
        return raw("tuple", *[I.lift(lambda x, y: L.arith(I, n, x, y), *vals) for n in ("FloorDiv", "Mod")])
    if name in UF:
        a, b = vals
        if name.startswith("logical_"):
            a, b = boolcast(I, a), boolcast(I, b)
        if name == "power":
            L.int_power(I, a, b)
        return I.lift(lambda x, y: L.arith(I, UF[name], x, y), a, b)
    if name in CMPUF:
        return I.lift(lambda x, y: L.cmp_value(I, CMPUF[name], x, y), vals[0], vals[1])
    if name in BINARY:
        n = {"fmin": "minimum", "fmax": "maximum"}.get(name, name)
        return I.lift(lambda x, y: call2(n, stripf(x), stripf(y)), vals[0], vals[1])
    return I.lift(lambda x: unary(I, name, stripf(x)), vals[0])


def boolcast(I, a):
    a = stripf(a)
    if kind_of(I, a) in ("int", "real"):
        return L.invert(I, mk_cmp("eq", a, const(0)))
    return a


def call2(n, a, b):
    if is_num(a) and is_num(b):
        if n == "minimum":
            return const(min(cval(a), cval(b)))
        if n == "maximum":
            return const(max(cval(a), cval(b)))
    if n in ("minimum", "maximum"):
        if a is b:
            return a
        if b.id < a.id:
            a, b = b, a
    return raw("call", n, a, b)


FOLD = {"exp": math.exp, "log": math.log, "log10": math.log10, "sin": math.sin, "cos": math.cos, "tan": math.tan, "log2": math.log2,
        "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan, "gamma": math.gamma, "log1p": math.log1p, "expm1": math.expm1,
        "abs": abs, "floor": math.floor, "ceil": math.ceil, "tanh": math.tanh}


def unary(I, name, x):
    if x is BOTTOM:
        return BOTTOM
    if x is NONE:
        return I.raise_("TypeError", const(name), x)
    if x.op == "full" and len(x.args) == 2 and x.args[1].op != "ite":
        return raw("full", x.args[0], unary(I, name, x.args[1]))
    if name in ("abs", "absolute", "fabs"):
        name = "abs"
    if name == "sqrt":
        return mk_pow(x, const(0.5))
    if name == "cbrt":
        return mk_pow(x, const(1 / 3))
    if name == "square":
        return mk_mul(x, x)
    if name == "reciprocal":
        return mk_pow(x, const(-1))
    if name == "negative":
        return mk_neg(x)
    if name == "positive":
        return x
    if name in ("deg2rad", "radians"):
        return mk_mul(const(math.pi / 180), x)
    if name in ("rad2deg", "degrees"):
        return mk_mul(const(180 / math.pi), x)
    if name in ("invert", "logical_not") and x.op == "const" and (name == "logical_not" or x.args[0] == "bool"):
        return const(not cval(x))
    if name in ("invert", "logical_not"):
        return L.invert(I, boolcast(I, x) if name == "logical_not" else x)
    if is_num(x) and name in FOLD:
        try:
            return const(FOLD[name](cval(x)))
        except (ValueError, OverflowError):
            pass
    if name == "isfinite" and is_num(x):
        return const(math.isfinite(cval(x)))
    return raw("call", name, x)


def ufunc_dispatch(I, name, args, kwargs):
    if I.pc is FALSE:
        return BOTTOM
    nin = 1 if name in UNARY else 2
    if len(args) > nin:
        args, kwargs = list(args)[:nin], list(kwargs) + [("out", args[nin])]
    kwargs = [(k, raw("tuple", v) if k == "out" and v is not NONE and v.op != "tuple" else v) for k, v in kwargs]
    for a in list(args) + [v for _, v in kwargs]:
        for x in (a.args if a.op == "tuple" else (a,)):
            if x.op == "obj":
                m = I.class_lookup(x, "__array_ufunc__")
                if m is not ABSENT:
                    r = I.call(I.bind(m, x), [raw("ext", "numpy." + name), const("__call__")] + list(args), kwargs)
                    if r is NOTIMPL:
                        return I.raise_("TypeError", const("unsupported operand"))
                    return r
    return ufunc_plain(I, name, args, kwargs)


def is_close(I, a, b, rel, ab, symmetric=False):
    """elementwise |a - b| <= atol + rtol |b| (or the larger of both limits, math.isclose)"""
    f = lambda n, *xs: ufunc_plain(I, n, list(xs), [])
    a, b = [as_array_value(I, x) if stripf(I.base(x)).op == "obj" else x for x in (a, b)]
    size = f("abs", b)
    if symmetric:
        size = f("maximum", f("abs", a), size)
        tol = f("maximum", f("multiply", rel, size), ab)
    else:
        tol = f("add", ab, f("multiply", rel, size))
    near = f("less_equal", f("abs", f("subtract", a, b)), tol)
    return f("logical_or", near, f("equal", a, b))


def ufunc_reduce(I, name, x):
    x = I.base(x)
    if name == "add":
        return I.lift(lambda y: np_sum(I, y), val(I, x))
    if name in ("maximum", "minimum"):
        return reduce_(I, name[:3], x)
    if name in ("logical_and", "logical_or"):
        return I.lift(lambda y: np_all(I, y, "all" if name == "logical_and" else "any"), val(I, x))
    return pure(I, {"multiply": "prod"}.get(name, "reduce:" + name), [x])


def ufunc_plain(I, name, args, kwargs):
    vals = [val(I, a) for a in args]
    res = ufunc_eval(I, name, vals)
    res = raw("tuple", *[arr(I, r) for r in res.args]) if res.op == "tuple" else arr(I, res)
    out = kwget((), kwargs, None, "out")
    where = kwget((), kwargs, None, "where")
    if out is not None and out is not NONE:
        if res.op == "tuple":
            outs = out.args if out.op == "tuple" else (out,)
            done = []
            for r, o in zip(res.args, outs):
                if o is NONE:
                    done.append(r)
                    continue
                new = I.mutate_array(I.base(o), r, "ufunc-out")
                done.append(o if o.op == "obj" else new)
            return raw("tuple", *done)
        o = out.args[0] if out.op == "tuple" else out
        if o is NONE:
            return res
        b = I.base(o)
        if where is not None:
            res = arr(I, L.unatom(el_ite(el_atom(val(I, where)), stripf(res), stripf(b))))
        new = I.mutate_array(b, res, "ufunc-out")
        return o if o.op == "obj" else new
    return res


# ------------------------------------------------------------------------ random numbers
def rng_tag(I):
    return "numba" if any(f.func is not None and f.func.jit for f in I.frames) else "np"


def rng_state(I, tag):
    v = I.h.get(("R", tag))
    return v if v is not None else sym("unseeded-rng:" + tag, "opaque", ())


def draw(I, kind, size, *params, **kw):
    tag = kw.get("tag") or rng_tag(I)
    if size is None:
        size = NONE
    size = val(I, size) if size.op != "ite" else size
    params = [val(I, p) for p in params]
    if size is NONE:
        for p in list(params) + list(kw.get("like", ())):
            sh = shape_of(I, p)
            if sh and len(sh) == 1:
                size = sh[0]
    st = rng_state(I, tag)
    t = raw("rand", kind, const(tag) if isinstance(tag, str) else tag, st, size, *params)
    I.put(("R", tag), raw("rngnext", st, const(kind), size))
    I.emit("rand", const(kind), const(tag) if isinstance(tag, str) else tag, st, size, *params)
    return arr(I, t) if size is not NONE else t


def add(I, a, b):
    return I.lift(lambda x, y: L.arith(I, "Add", x, y), val(I, a), val(I, b))


def mul(I, a, b):
    return I.lift(lambda x, y: L.arith(I, "Mult", x, y), val(I, a), val(I, b))


def sub(I, a, b):
    return I.lift(lambda x, y: L.arith(I, "Sub", x, y), val(I, a), val(I, b))


def un(I, name, a):
    return I.lift(lambda x: unary(I, name, stripf(x)), val(I, a))


def rand_call(I, fname, args, kwargs, tag=None):
    def g(pos, name, default=None):
        return kwget(args, kwargs, pos, name, default)
    one, zero = const(1), const(0)
    kw = {"tag": tag} if tag else {}
    if fname == "seed":
        s = g(0, "seed", NONE)
        I.put(("R", tag or rng_tag(I)), raw("rngseed", val(I, s)) if s is not NONE else sym("unseeded-rng:entropy", "opaque", ()))
        I.emit("seed", val(I, s), const(tag or rng_tag(I)))
        return NONE
    if fname == "uniform":
        lo, hi, size = g(0, "low", zero), g(1, "high", one), g(2, "size", NONE)
        u = draw(I, "u01", size, like=(val(I, lo), val(I, hi)), **kw)
        return arr(I, add(I, lo, mul(I, sub(I, hi, lo), u)))
    if fname in ("normal",):
        u = draw(I, "stdnormal", g(2, "size", NONE), like=(val(I, g(0, "loc", zero)), val(I, g(1, "scale", one))), **kw)
        return arr(I, add(I, g(0, "loc", zero), mul(I, g(1, "scale", one), u)))
    if fname == "lognormal":
        m, s = g(0, "mean", zero), g(1, "sigma", one)
        u = draw(I, "stdnormal", g(2, "size", NONE), like=(val(I, m), val(I, s)), **kw)
        return arr(I, un(I, "exp", add(I, m, mul(I, s, u))))
    if fname == "exponential":
        sc = g(0, "scale", one)
        return arr(I, mul(I, sc, draw(I, "stdexp", g(1, "size", NONE), like=(val(I, sc),), **kw)))
    if fname in ("random", "random_sample", "ranf", "sample"):
        return draw(I, "u01", g(0, "size", NONE), **kw)
    if fname == "rand":
        return draw(I, "u01", args[0] if args else NONE, **kw)
    if fname in ("standard_normal",):
        return draw(I, "stdnormal", g(0, "size", NONE), **kw)
    if fname == "randn":
        return draw(I, "stdnormal", args[0] if args else NONE, **kw)
    if fname == "standard_exponential":
        return draw(I, "stdexp", g(0, "size", NONE), **kw)
    if fname == "pareto":
        return draw(I, "pareto", g(1, "size", NONE), g(0, "a"), **kw)
    if fname == "poisson":
        return draw(I, "poisson", g(1, "size", NONE), g(0, "lam", one), **kw)
    if fname in ("randint", "integers"):
        lo, hi = g(0, "low"), g(1, "high", NONE)
        if hi is NONE:
            lo, hi = zero, lo
        return draw(I, "randint", g(2, "size", NONE), lo, hi, **kw)
    if fname == "choice":
        r = draw(I, "choice", g(1, "size", NONE), g(0, "a"), g(2, "replace", TRUE), g(3, "p", NONE), **kw)
        return r
    if fname == "permutation":
        return draw(I, "permutation", L.length(I, args[0]), args[0], **kw)
    if fname == "get_state":
        return rng_state(I, tag or rng_tag(I))
    if fname == "set_state":
        I.put(("R", tag or rng_tag(I)), args[0])
        I.emit("seed", args[0], const(tag or rng_tag(I)))
        return NONE
    size = g(None, "size", NONE)
    return draw(I, "np." + fname, size, *args, *[v for k, v in kwargs if k != "size"], **kw)


NSHAPE = {"norm": 0, "uniform": 0, "expon": 0, "truncnorm": 2, "loguniform": 2, "reciprocal": 2, "bernoulli": 1, "poisson": 1,
          "pareto": 1, "lognorm": 1, "gamma": 1, "beta": 2, "powerlaw": 1, "truncexpon": 1, "cauchy": 0, "laplace": 0, "rayleigh": 0,
          "chi2": 1, "t": 1, "binom": 2, "randint": 2, "halfnorm": 0, "logistic": 0, "gumbel_r": 0, "weibull_min": 1}
SHAPENAMES = {"truncnorm": ("a", "b"), "loguniform": ("a", "b"), "reciprocal": ("a", "b"), "bernoulli": ("p",), "poisson": ("mu",),
              "pareto": ("b",), "lognorm": ("s",), "gamma": ("a",), "beta": ("a", "b"), "powerlaw": ("a",), "truncexpon": ("b",),
              "chi2": ("df",), "t": ("df",), "binom": ("n", "p"), "randint": ("low", "high"), "weibull_min": ("c",)}


def stats_params(I, dist, args, kwargs):
    ns = NSHAPE.get(dist, 0)
    names = SHAPENAMES.get(dist, ())
    shp = []
    for i in range(ns):
        shp.append(kwget(args, kwargs, i, names[i] if i < len(names) else "?", const(1)))
    loc = kwget(args, kwargs, ns, "loc", const(0))
    discrete = dist in ("bernoulli", "poisson", "binom", "randint")
    scale = const(1) if discrete else kwget(args, kwargs, ns + 1, "scale", const(1))
    size = kwget(args, kwargs, ns + (1 if discrete else 2), "size", NONE)
    rs = kwget(args, kwargs, ns + (2 if discrete else 3), "random_state", NONE)
    return shp, loc, scale, size, rs


def stats_rvs(I, dist, args, kwargs):
    shp, loc, scale, size, rs = stats_params(I, dist, args, kwargs)
    kw = {}
    if rs is not NONE:
        I.emit("private-rng", const("scipy.stats.%s.rvs(random_state)" % dist), val(I, rs))
        tag = raw("rngprivate", val(I, rs) if rs.op != "obj" else rs)
        if rs.op == "obj" or rs.op in ("app", "sym", "ext"):
            kw["tag"] = tag
        else:
            I.put(("R", tag), raw("rngseed", val(I, rs)))
            kw["tag"] = tag
    like = [val(I, x) for x in shp + [loc, scale]]
    if dist == "norm":
        u = draw(I, "stdnormal", size, like=like, **kw)
    elif dist == "uniform":
        u = draw(I, "u01", size, like=like, **kw)
    elif dist == "expon":
        u = draw(I, "stdexp", size, like=like, **kw)
    elif dist in ("loguniform", "reciprocal"):
        u = draw(I, "u01", size, like=like, **kw)
        a, b = un(I, "log", shp[0]), un(I, "log", shp[1])
        u = arr(I, un(I, "exp", add(I, a, mul(I, sub(I, b, a), u))))
    else:
        u = draw(I, dist, size, *shp, like=like, **kw)
    return arr(I, add(I, loc, mul(I, scale, u)))


# --------------------------------------------------------------------- numpy functions
def np_dtype(I, d):
    if d is None or d is NONE:
        return None
    if d.op == "ext":
        n = d.args[0].split(".")[-1]
        if n in NARROW:
            return NARROW[n]
        if n in ("bool", "bool_", "bool8"):
            return "bool"
        if n.startswith("int") or n.startswith("uint"):
            return "int"
        if n.startswith("float") or n == "double":
            return "real"
        if n in ("str", "str_", "string_", "bytes_", "object", "object_"):
            return "object"
    if is_str(d):
        n = cval(d).lstrip("<>=|")
        if n in NARROW:
            return NARROW[n]
        return {"f": "real", "d": "real", "i": "int", "u": "int", "b": "bool", "?": "bool", "O": "object", "U": "object", "S": "object"}.get(n[:1])
    return None


# number formats that hold fewer digits (or a smaller range) than Python's own
NARROW = {"float32": "f4", "single": "f4", "f4": "f4", "f": "f4", "float16": "f2", "half": "f2", "f2": "f2", "e": "f2",
          "int8": "i1", "i1": "i1", "b": "i1", "byte": "i1", "int16": "i2", "i2": "i2", "h": "i2", "short": "i2",
          "uint8": "u1", "u1": "u1", "B": "u1", "ubyte": "u1", "uint16": "u2", "u2": "u2", "H": "u2", "ushort": "u2"}


def narrow(I, x, k):
    """the value rounded to (or wrapped into) a narrower number format"""
    if x.op == "full":
        return raw("full", x.args[0], narrow(I, x.args[1], k))
    if x.op == "const" and is_num(x):
        v = cval(x)
        if float(v).is_integer() and abs(v) < 100:
            return x
    if x.op == "call" and x.args[0] == "narrow:" + k or kind_of(I, x) == "bool":
        return x
    return raw("call", "narrow:" + k, x)


def cast(I, x, k):
    x = stripf(x)
    if x.op == "ite":
        return map_leaves(x, lambda l: cast(I, l, k))
    if k in NARROW:
        return narrow(I, stripf(cast(I, x, "real" if k[0] == "f" else "int")), k)
    if k is None or kind_of(I, x) == k or k == "object":
        return x
    if x.op == "const" and is_num(x):
        v = cval(x)
        return const({"bool": bool, "int": int, "real": float}[k](v))
    if x.op == "full":
        return raw("full", x.args[0], cast(I, x.args[1], k))
    if k == "bool":
        kk = kind_of(I, x)
        if x.op == "rand" and x.args[0] == "bernoulli":
            return mk_cmp("eq", x, const(1))
        return L.invert(I, mk_cmp("eq", x, const(0)))
    if k == "int" and kind_of(I, x) == "real":
        return raw("call", "int", x)
    return raw("cast", k, x)


def as_array_value(I, x):
    """value of np.array(x)"""
    v = stripf(I.base(x))
    if v.op == "obj":
        oi = I.oinfo(v)
        if oi.kind == "list":
            v = L.list_value(I, v)
        elif oi.kind == "xobj" and oi.label == "h5dataset":
            return I.get((v.args[0], "value"))
        else:
            return raw("app", "array", I.opaque_arg(v))
    if v.op == "ite":
        return map_leaves(v, lambda z: as_array_value(I, z))
    if v.op in ("tuple", "seq"):
        its = [val(I, y) for y in v.args]
        if any(y.op == "ite" and L.contains_absent(y) for y in its):
            return raw("call", "array", raw("seq", *its))
        return raw("call", "array", raw("seq", *its))
    if v.op in ("maplist", "listof", "seqappend", "aslist"):
        if v.op == "aslist":
            return v.args[0]
        return raw("call", "array", v)
    return v


def np_array(I, x, dtype=None):
    v = as_array_value(I, x)
    if v.op == "ite":
        return map_leaves(v, lambda z: arr(I, cast(I, z, dtype)))
    r = cast(I, v, dtype)
    if v.op != "fresh" and shape_of(I, r) == () and kind_of(I, r) in ("real", "int", "bool"):
        return fresh(I, r)                   # a zero-dimensional array
    return arr(I, r)


def np_full(I, shp, v):
    shp = val(I, shp)
    if shp.op == "tuple" and len(shp.args) == 1:
        shp = shp.args[0]
    return I.lift(lambda s: fresh(I, raw("full", s, v)), shp)


def np_sum(I, x):
    x = stripf(x)
    if x.op == "ite":
        return map_leaves(x, lambda l: np_sum(I, l))
    if kind_of(I, x) == "bool":
        return count(I, x)
    if x.op == "call" and x.args[0] == "array" and x.args[1].op in ("seq", "tuple") or x.op in ("seq", "tuple"):
        its = x.args[1].args if x.op == "call" else x.args
        r = const(0)
        for y in its:
            if y.op == "ite" and L.contains_absent(y):
                g = guard_of(y, lambda l: l is not ABSENT)
                yy = map_leaves(y, lambda l: BOTTOM if l is ABSENT else l)
                r = mk_ite(g, I.lift(lambda p, q: L.arith(I, "Add", p, q), r, yy), r)
            else:
                r = I.lift(lambda p, q: L.arith(I, "Add", p, q), r, y)
        return r
    if x.op == "full":
        s = shape_of(I, x)
        if s and len(s) == 1:
            return mk_mul(s[0], x.args[1])
    return raw("call", "sum", x)


def np_where3(I, c, a, b):
    return I.lift(lambda p, q, r: arr(I, L.unatom(el_ite(el_atom(L.boolish(stripf(p))), stripf(q), stripf(r)))),
                  val(I, c), val(I, a), val(I, b))


def pure(I, name, args, kwargs=()):
    vs = [val(I, a) for a in args] + [raw("kw", k, val(I, v)) for k, v in sorted(kwargs, key=lambda z: z[0])]
    return I.lift(lambda *xs: arr(I, raw("call", name, *[stripf(x) for x in xs])), *vs)


def np_all(I, x, which):
    x = stripf(x)
    if x.op == "ite":
        return map_leaves(x, lambda l: np_all(I, l, which))
    if x.op == "full":
        return np_all(I, x.args[1], which)
    if x is TRUE or x is FALSE:
        return x
    if x.op == "call" and x.args[0] == "array" and x.args[1].op in ("seq", "tuple", "flist"):
        r = const(which == "all")
        for y in x.args[1].args:
            t = I.truth(y)
            r = b_and(r, t) if which == "all" else b_or(r, t)
        return r
    if shape_of(I, x) == ():
        return I.truth(x)
    return raw("call", which, x)


def np_call(I, name, args, kwargs):
    """numpy.<name>"""
    def g(pos, kw, default=None):
        return kwget(args, kwargs, pos, kw, default)
    if name in UFUNCS:
        if any(x.op == "obj" and I.is_array_inst(x) for a in list(args) + [v for k, v in kwargs if k == "out"] for y in (leaves(a) or [a])
               for x in (y.args if y.op == "tuple" else (y,))):
            def go(i, done):
                if i == len(args):
                    return ufunc_dispatch(I, name, done, kwargs)
                return I.split(args[i], lambda x: go(i + 1, done + [x]))
            return go(0, [])
        pos = list(args)
        kws = list(kwargs)
        nin = 1 if name in UNARY else 2
        if len(pos) > nin:
            kws.append(("out", pos.pop()))
        return ufunc_plain(I, name, pos, kws)
    dtype = np_dtype(I, g(None, "dtype"))
    if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "asfarray", "atleast_1d", "copy"):
        dtype = np_dtype(I, g(1, "dtype")) if name != "copy" and len(args) > 1 else dtype
        if name == "asfarray":
            dtype = "real"

        def one(a):
            v = stripf(I.base(a))
            same = name in ("asarray", "asanyarray", "ascontiguousarray", "atleast_1d") and v.op not in ("tuple", "seq") and not (
                v.op == "obj") and is_array(shape_of(I, v))
            if same and (dtype is None or kind_of(I, v) == dtype):
                return I.base(a) if name != "asanyarray" else a
            cp = g(None, "copy")
            if name == "array" and cp is FALSE and is_array(shape_of(I, v)) and dtype is None:
                return I.base(a)
            r = np_array(I, a, dtype)
            if name == "atleast_1d" and shape_of(I, r) == ():
                return fresh(I, raw("call", "array", raw("seq", stripf(r))))
            return r
        return I.split(args[0], one)
    if name in ("zeros", "ones", "empty", "full"):
        if name == "full":
            v = val(I, g(1, "fill_value"))
        else:
            v = {"zeros": const(0.0), "ones": const(1.0), "empty": const(0.0)}[name]
            d = np_dtype(I, g(1, "dtype"))
            if d:
                v = cast(I, v, d)
            if name == "empty":
                I.emit("np-empty")
        return np_full(I, g(0, "shape"), v)
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        x = val(I, args[0])

        def like(x):
            k = dtype or kind_of(I, x) or "real"
            if name == "full_like":
                v = val(I, g(1, "fill_value"))
            else:
                v = cast(I, const(1.0 if name == "ones_like" else 0.0), k if k in ("bool", "int", "real") else "real")
            sh = shape_of(I, x)
            if sh == ():
                return fresh(I, v)
            if sh is None:
                return fresh(I, raw("full", raw("len", x), v))
            return fresh(I, raw("full", sh[0] if len(sh) == 1 else raw("tuple", *sh), v))
        return I.lift(like, x)
    if name in ("where", "nonzero", "flatnonzero", "argwhere"):
        if len(args) == 3:
            return np_where3(I, *args)
        r = pure(I, "nonzero", args[:1])
        return raw("tuple", r) if name in ("where", "nonzero") else r
    if name in ("sum", "max", "amax", "min", "amin", "all", "any", "prod") and args[0].op == "obj" and I.is_array_inst(args[0]) \
            and I.class_lookup(args[0], "__array_ufunc__") is not ABSENT:
        u = {"sum": "add", "max": "maximum", "amax": "maximum", "min": "minimum", "amin": "minimum", "all": "logical_and", "any": "logical_or",
             "prod": "multiply"}[name]
        return np_call(I, u + ".reduce", args[:1], [])
    if name in ("sum", "count_nonzero"):
        return I.lift(lambda x: np_sum(I, x), val(I, args[0]))
    if name in ("all", "alltrue", "any", "sometrue"):
        return I.lift(lambda x: np_all(I, x, "all" if name.startswith("all") else "any"), val(I, args[0]))
    if name in ("max", "amax", "nanmax"):
        return reduce_(I, "max", args[0])
    if name in ("min", "amin", "nanmin"):
        return reduce_(I, "min", args[0])
    if name in ("float64", "double", "float_"):
        return I.lift(lambda x: cast(I, x, "real") if shape_of(I, x) in ((), None) else x, val(I, args[0]))
    if name in NARROW and len(name) > 2:
        return I.lift(lambda x: cast(I, x, NARROW[name]), val(I, args[0]))
    if name in ("int64", "int32", "int_", "intp"):
        return I.lift(lambda x: cast(I, x, "int"), val(I, args[0]))
    if name == "bool_":
        return I.truth(args[0])
    if name in ("string_", "bytes_"):
        return I.lift(lambda x: raw("bytes", x) if kind_of(I, x) == "str" else raw("bytes", L.to_str(I, x)), args[0])
    if name == "str_":
        return L.to_str(I, args[0])
    if name == "clip":
        lo, hi = g(1, "a_min", NONE), g(2, "a_max", NONE)
        r = val(I, args[0])
        if lo is not NONE:
            r = I.lift(lambda x, y: call2("maximum", stripf(x), stripf(y)), r, val(I, lo))
        if hi is not NONE:
            r = I.lift(lambda x, y: call2("minimum", stripf(x), stripf(y)), r, val(I, hi))
        out = kwget((), kwargs, None, "out")
        if out is not None:
            return I.mutate_array(I.base(out), r, "out")
        return arr(I, r)
    if name == "linspace":
        a = [g(0, "start"), g(1, "stop"), g(2, "num", const(50))]
        return pure(I, name, a)
    if name in ("logspace", "geomspace"):
        return pure(I, name, [g(0, "start"), g(1, "stop"), g(2, "num", const(50))])
    if name == "arange":
        a = list(args)
        if len(a) == 2 and a[0] is const(0):
            a = a[1:]
        return pure(I, "arange", a)
    if name in ("repeat", "tile"):
        x = val(I, args[0])
        if shape_of(I, x) == ():
            return np_full(I, g(1, "repeats"), x)
        return pure(I, name, args)
    if name.endswith(".reduce") and name[:-7] in UFUNCS and len(args) >= 1:
        x = args[0]
        if x.op == "obj" and I.is_array_inst(x) and I.class_lookup(x, "__array_ufunc__") is not ABSENT:
            return I.call(I.bind(I.class_lookup(x, "__array_ufunc__"), x), [raw("ext", "numpy." + name[:-7]), const("reduce"), x], kwargs)
        sh = shape_of(I, val(I, x))
        if sh and len(sh) == 1 and x.op not in ("tuple", "seq") and (x.op != "obj" or (x.args[0], "$items") not in I.h):
            return ufunc_reduce(I, name[:-7], x)
    if name in ("logical_and.reduce", "logical_or.reduce"):
        its = iter_items(I, args[0])
        r = None
        for _, x in its or []:
            r = x if r is None else np_call(I, name.split(".")[0], [r, x], [])
        return r if r is not None else const(name.startswith("logical_and"))
    if name in ("concatenate", "hstack", "append"):
        its = [args[0], args[1]] if name == "append" else [x for _, x in (iter_items(I, args[0]) or [])]
        return I.lift(lambda *xs: fresh(I, raw("call", "concatenate", raw("seq", *[stripf(x) for x in xs]))), *[val(I, x) for x in its])
    if name in ("isclose", "allclose"):
        r = is_close(I, args[0], args[1], kwget(args, kwargs, 2, "rtol", const(1e-5)), kwget(args, kwargs, 3, "atol", const(1e-8)))
        return r if name == "isclose" else np_call(I, "all", [r], [])
    if name in ("sort", "cumsum", "argsort", "unique", "flip", "mean", "std", "var", "median", "prod", "argmax", "argmin", "round", "around",
                "nan_to_num", "dot", "trapz", "interp", "histogram", "percentile", "quantile", "diff", "cross", "isin", "in1d",
                "searchsorted", "array_equal", "allclose", "meshgrid", "vstack", "column_stack", "stack", "ravel", "reshape", "outer", "digitize",
                "take", "compress", "power", "gradient", "newaxis", "ndim", "shape", "size", "flip"):
        n = {"around": "round", "flip": "reverse"}.get(name, name)
        if name in ("ndim", "shape", "size"):
            return I.getattr_(args[0], name)
        if name == "take":
            return arr(I, I.lift(lambda x, y: index(I, x, y), val(I, args[0]), val(I, args[1])))
        if name == "compress":
            return arr(I, I.lift(lambda m, x: index(I, x, m), val(I, args[0]), val(I, args[1])))
        return pure(I, n, args, [(k, v) for k, v in kwargs if k not in ("axis", "out")])
    if name in ("dtype", "errstate", "seterr", "set_printoptions"):
        return raw("app", "numpy." + name, *[I.opaque_arg(a) for a in args])
    if name == "vectorize":
        return args[0]
    if name == "copyto":
        b = I.base(args[0])
        I.mutate_array(b, np_where_copy(I, b, args[1], kwget(args, kwargs, 3, "where")), "copyto")
        return NONE
    if name == "put" or name == "place" or name == "putmask":
        b = I.base(args[0])
        I.mutate_array(b, L.store(I, b, val(I, args[1]), args[2]), name)
        return NONE
    return None


def np_where_copy(I, b, v, where):
    v = val(I, v)
    if where is not None:
        return L.unatom(el_ite(el_atom(val(I, where)), v, stripf(b)))
    if shape_of(I, v) == ():
        sh = shape_of(I, b)
        return raw("full", sh[0], v) if sh else v
    return v


def reduce_(I, name, x):
    v = val(I, x)
    if I.implicit_exc and shape_of(I, v) != ():
        n = L.length(I, x)
        I.raise_if(I.truth(I.lift(lambda m: mk_cmp("eq", m, const(0)), n)), "ValueError", const("arg is an empty sequence"))
        if I.pc is FALSE:
            return BOTTOM

    def one(y):
        y = stripf(y)
        if y.op == "full" and len(y.args) == 2:
            return y.args[1]
        if y.op == "call" and y.args[0] == "array" and y.args[1].op == "seq":
            y = y.args[1]
        if y.op in ("seq", "tuple"):
            if len(y.args) == 1:
                return y.args[0]
            if y.args and all(is_num(z) for z in y.args):
                return const({"max": max, "min": min}[name](cval(z) for z in y.args))
            if y.args and not any(z.op == "ite" and L.contains_absent(z) for z in y.args):
                r = y.args[0]
                for z in y.args[1:]:
                    r = I.lift(lambda p, q: call2(name + "imum", p, q), r, z)
                return r
            if not y.args:
                return I.raise_("ValueError", const("max() arg is an empty sequence"))
        if shape_of(I, y) == ():
            return y
        return raw("call", name, y)
    return I.lift(one, v)


# ------------------------------------------------------------------------- isinstance
EXTSUB = {"collections.OrderedDict": "dict", "collections.defaultdict": "dict", "dotmap.DotMap": "collections.OrderedDict", "bool": "int",
          "numpy.float64": "float", "numpy.bool_": "numpy.generic", "numpy.int64": "numpy.integer"}
H5TYPES = {"h5dataset": ("h5py.Dataset", "h5py._hl.dataset.Dataset"), "h5group": ("h5py.Group", "h5py._hl.group.Group"),
           "h5file": ("h5py.File", "h5py.Group", "h5py._hl.files.File", "h5py._hl.group.Group")}


def typenames(I, v):
    """names of the types v is an instance of; None when unknown"""
    v = stripf(v)
    if v.op == "const":
        n = v.args[0]
        return {"bool": {"bool", "int"}, "NoneType": {"NoneType"}}.get(n, {n})
    if v.op == "tuple":
        return {"tuple"}
    if v.op == "obj":
        oi = I.oinfo(v)
        if oi.kind == "list":
            return {"list"}
        if oi.kind == "set":
            return {"set", "frozenset"} if oi.label == "frozenset" else {"set"}
        if oi.kind == "dict":
            s = {"dict"}
            if oi.label in ("OrderedDict", "DotMap"):
                s.add("collections.OrderedDict")
            if oi.label == "DotMap":
                s.add("dotmap.DotMap")
            if oi.label == "Cfg":
                s = {"omegaconf.DictConfig"}
            return s
        if oi.kind == "xobj":
            return set(H5TYPES.get(oi.label, ())) | {oi.label}
        return set()
    k = kind_of(I, v)
    if v.op in ("cls",):
        return {"type"}
    if v is NOTIMPL:
        return {"NotImplementedType"}
    if v.op in ("fn", "bound", "memo", "wrapped"):
        return {"function"}
    if v.op == "path":
        return {"pathlib.Path", "pathlib.PurePath"}
    if v.op == "h5bool":
        return {"numpy.bool_", "numpy.generic"}
    sh = shape_of(I, v)
    if is_array(sh):
        return {"numpy.ndarray"}
    if k == "str":
        return {"str"}
    if k == "bytes":
        return {"bytes"}
    if v.op == "count" or (v.op == "add" and any(x.op == "count" for x in v.args)):
        return {"numpy.int64", "numpy.integer"}
    if sh == ():
        if v.op == "sym":
            return {"flag": {"bool", "int"}, "int": {"int"}, "real": {"float"}, "text": {"str"}}.get(v.args[1])
        if k == "bool":
            return {"bool", "int", "numpy.bool_"}
        if k == "int":
            return {"int"}
        if k == "real":
            return {"float", "numpy.float64"}
    if v.op in ("pandas",):
        return {v.op}
    return None


def isinst(I, v, t):
    if t.op == "tuple":
        r = FALSE
        for x in t.args:
            r = b_or(r, isinst(I, v, x))
        return r
    if t.op == "obj":
        its = iter_items(I, t)
        return isinst(I, v, raw("tuple", *[x for _, x in its or []]))
    if v is BOTTOM:
        return BOTTOM
    if t.op == "cls":
        if v.op == "obj":
            oi = I.oinfo(v)
            return const(oi.kind == "inst" and t.args[0] in oi.cls.mro())
        if v.op == "cls":
            return FALSE
        if v.op == "exc":
            return I.match_guard(v, [t])
        if v.op in ("app", "sym", "phi", "iterelem", "mu", "last") and typenames(I, v) is None:
            return atom_of(raw("call", "isinstance", v, t))
        return FALSE
    if t.op == "ext":
        n = t.args[0]
        if n == "object":
            return TRUE
        if v.op == "exc":
            return I.match_guard(v, [t])
        if v.op == "obj" and I.oinfo(v).kind == "inst":
            roots = I.oinfo(v).cls.ext_root()
            for r in roots:
                while r:
                    if r == n or r.split(".")[-1] == n.split(".")[-1]:
                        return TRUE
                    r = EXTSUB.get(r)
            return const((v.args[0], "$base") in I.h and n == "numpy.ndarray")
        if v.op == "cls":
            return const(n == "type")
        names = typenames(I, v)
        if names is None:
            return atom_of(raw("call", "isinstance", stripf(v), t))
        n2 = n.split(".")[-1] if n.startswith(("numbers.", "typing.", "collections.abc.")) else n
        short = {"Number": {"int", "float", "bool", "numpy.int64", "complex"}, "Real": {"int", "float", "bool"},
                 "Mapping": {"dict", "omegaconf.DictConfig"}, "Sequence": {"list", "tuple", "str"}, "Iterable": {"list", "tuple", "dict", "set", "str", "numpy.ndarray"},
                 "Integral": {"int", "numpy.int64"}, "integer": {"numpy.int64"}, "numpy.integer": {"numpy.int64"},
                 "numpy.floating": {"numpy.float64"}, "numpy.number": {"numpy.float64", "numpy.int64"}, "numpy.bool_": {"numpy.bool_"},
                 "frozenset": {"frozenset"}, "OrderedDict": {"collections.OrderedDict"}, "DictConfig": {"omegaconf.DictConfig"}}
        if n in names or n2 in names:
            return TRUE
        return const(bool(short.get(n2, short.get(n, set())) & names))
    if t.op == "metareg" or t.op == "app":
        return atom_of(raw("call", "isinstance", stripf(v), t))
    return FALSE


# ------------------------------------------------------------------- deep copies
def deepcopy(I, v, memo=None, sort=False, plain=False):
    if memo is None:
        memo = {}
    if v.op == "ite":
        return map_leaves(v, lambda x: deepcopy(I, x, memo, sort, plain) if x is not ABSENT else x)
    if v.op == "tuple":
        if plain:
            return I.new_list([deepcopy(I, x, memo, sort, plain) for x in v.args])
        return raw("tuple", *[deepcopy(I, x, memo, sort, plain) for x in v.args])
    if v.op == "fresh":
        return fresh(I, v)
    if v.op != "obj":
        return v
    if v in memo:
        return memo[v]
    oi = I.oinfo(v)
    if oi.kind == "xobj" and oi.label in ("logger", "handler", "registry"):
        return v
    n = I.alloc(oi.kind, oi.cls, oi.label)
    memo[v] = n
    for k in [k for k in list(I.h) if k[0] == v.args[0]]:
        x = I.h[k]
        if k[1] == "$alive":
            continue
        if k[1] == "$items":
            x = map_leaves(x, lambda s: raw("seq", *[deepcopy(I, y, memo, sort, plain) for y in s.args]) if s.op == "seq" else s)
        elif k[1] == "$keys":
            if sort and x.op == "keys":
                x = raw("keys", *sorted(x.args, key=lambda t: (not is_str(t), show(t))))
        else:
            x = deepcopy(I, x, memo, sort, plain)
        I.put((n.args[0],) + tuple(k[1:]), x)
    return n


# ----------------------------------------------------------------------- xobj helpers
def xobj(I, label, **fields):
    o = I.alloc("xobj", None, label)
    for k, v in fields.items():
        I.put((o.args[0], k), v)
    return o


def F(I, o, name, default=NONE):
    v = I.get((o.args[0], name))
    return default if v is ABSENT else v


def xdict(I, label, **f):
    o = xobj(I, label, **f)
    I.put((o.args[0], "$keys"), raw("keys"))
    return o


# h5py ------------------------------------------------------------------------------
def path_key(I, p):
    if p.op == "obj":
        return p
    if p.op == "path":
        return p.args[0] if len(p.args) == 1 else p
    return p


def h5_open(I, args, kwargs):
    p = path_key(I, kwget(args, kwargs, 0, "name"))
    mode = kwget(args, kwargs, 1, "mode", const("r"))
    if not is_str(mode):
        return raw("app", "h5py.File", p, mode)
    m = cval(mode)
    key = ("FS", p)
    cur = I.get(key)
    I.emit("open", const("h5py.File"), p, mode)
    if m in ("r", "r+"):
        if cur is ABSENT:
            return I.raise_("OSError", const("unable to open file"), p)
        if cur.op == "ite":
            I.raise_if(guard_of(cur, lambda x: x is ABSENT), "OSError", const("unable to open file"))
            if I.pc is FALSE:
                return BOTTOM
            cur = map_leaves(cur, lambda x: BOTTOM if x is ABSENT else x)
        root = cur
    elif m == "a":
        root = cur if cur is not ABSENT else h5_group(I)
        I.put(key, root)
    else:
        if m in ("w-", "x") and cur is not ABSENT:
            return I.raise_("OSError", const("file exists"), p)
        root = h5_group(I)
        I.put(key, root)
    h = xobj(I, "h5file", root=root, mode=const(m), closed=FALSE, path=p, managed=FALSE)
    I.emit("opened", h, p, mode)
    return h


def h5_group(I):
    g = xdict(I, "h5group")
    I.put((g.args[0], "attrs"), xdict(I, "h5attrs"))
    return g


def h5_name(k):
    if is_str(k):
        return [const(x) for x in cval(k).split("/") if x != ""]
    if k.op == "app" and k.args[0] == "concat":
        out, cur = [], []
        for p in k.args[1:]:
            if is_str(p):
                bits = cval(p).split("/")
                for i, b in enumerate(bits):
                    if i > 0:
                        out.append(cur)
                        cur = []
                    if b:
                        cur.append(const(b))
            else:
                cur.append(p)
        out.append(cur)
        return [x[0] if len(x) == 1 else raw("app", "concat", *x) for x in out if x]
    return [k]


def h5_root(I, o):
    if I.oinfo(o).label == "h5file":
        if F(I, o, "closed") is TRUE:
            I.raise_("ValueError", const("file is closed"))
            return None
        return F(I, o, "root")
    return o


def h5_walk(I, o, k, fn, create=False):
    """fn(group holding the last component, that component), for every group the path may lead through"""
    g = h5_root(I, o)
    if g is None or I.pc is FALSE:
        return BOTTOM
    parts = h5_name(k)
    if not parts:
        return fn(g, None)

    def go(g, i):
        if I.pc is FALSE:
            return BOTTOM
        if g.op != "obj" or I.oinfo(g).label not in ("h5group",):
            return I.raise_("ValueError" if create else "KeyError", const("not a group"), parts[max(i - 1, 0)])
        if i == len(parts) - 1:
            return fn(g, parts[i])

        def step(v):
            if v is ABSENT:
                if not create:
                    return I.raise_("KeyError", parts[i])
                v = h5_group(I)
                I.dict_set(g, parts[i], v)
            return go(v, i + 1)
        return I.split(I.dict_get(g, parts[i]), step)
    return go(g, 0)


def h5_store_value(I, v):
    """what the file holds of v"""
    if v.op == "ite":
        return map_leaves(v, lambda x: h5_store_value(I, x))
    w = as_array_value(I, v) if v.op == "obj" or v.op == "fresh" else stripf(v)
    if v.op == "tuple":
        w = as_array_value(I, v)
    if w.op == "seq":
        w = raw("call", "array", w)
    if w is NONE:
        I.raise_("TypeError", const("Object dtype dtype('O') has no native HDF5 equivalent"))
        return BOTTOM
    if w.op in ("app",) and w.args[0] == "array":
        I.raise_("TypeError", const("no native HDF5 equivalent"))
        return BOTTOM
    return w


def fault(I, what):
    """fault injection: an operation on an open file may fail (once per place)"""
    fs = getattr(I, "faults", None)
    if fs is None or I.pc is FALSE:
        return
    lc = I.loc()
    key = (what, lc, tuple(f.func.qual if f.func else "?" for f in I.frames[-2:]))
    if key in fs:
        return
    fs[key] = lc
    I.raise_if(atom_of(raw("fault", const(len(fs)))), "OSError", const("operation on a file fails: " + what))


def h5_put(I, o, k, v, kind="dataset"):
    fault(I, "write")
    if I.pc is FALSE:
        return BOTTOM
    h5_check_mode(I, o)
    if I.pc is FALSE:
        return BOTTOM

    def put(g, last):
        cur = I.dict_get(g, last)
        if cur is not ABSENT:
            I.raise_if(guard_of(cur, lambda x: x is not ABSENT), "ValueError", const("name already exists"), last)
            if I.pc is FALSE:
                return BOTTOM
        if kind == "group":
            n = h5_group(I)
        else:
            w = h5_store_value(I, v)
            if I.pc is FALSE:
                return BOTTOM
            n = xobj(I, "h5dataset", value=w)
            I.put((n.args[0], "attrs"), xdict(I, "h5attrs"))
        I.dict_set(g, last, n)
        I.emit("h5-write", last, n)
        return n
    return h5_walk(I, o, k, put, create=True)


def h5_check_mode(I, o):
    if I.oinfo(o).label == "h5file":
        m = F(I, o, "mode")
        if is_str(m) and cval(m) == "r":
            I.raise_("OSError", const("file opened read-only"))


def h5_read(I, ds):
    fault(I, "read")
    if I.pc is FALSE:
        return BOTTOM
    def rd(w):
        if w.op == "ite":
            return map_leaves(w, rd)
        if kind_of(I, w) == "str":
            return raw("bytes", w)
        if w.op == "bytes":
            return w
        if w is TRUE or w is FALSE or kind_of(I, w) == "bool" and shape_of(I, w) == () and w.op != "h5bool":
            return raw("h5bool", w)
        return arr(I, w)
    return rd(F(I, ds, "value"))


def h5_keys(I, g):
    ks = I.dict_keys(g) or []
    return sorted(ks, key=lambda t: (not is_str(t[1]), cval(t[1]) if is_str(t[1]) else show(t[1])))


def guarded_list(I, items):
    o = I.new_list([])
    I.put((o.args[0], "$items"), raw("seq", *[mk_ite(g, x, ABSENT) for g, x in items]))
    return o


# graphs ----------------------------------------------------------------------------
def new_graph(I, directed):
    g = xobj(I, "graph", directed=directed)
    I.put((g.args[0], "_node"), I.new_dict(label="nodes"))
    I.put((g.args[0], "_adj"), I.new_dict(label="adj"))
    I.put((g.args[0], "graph"), I.new_dict())
    return g


def sub_dict(I, d, k):
    """d.setdefault(k, {}) returning the inner dictionary"""
    v = I.dict_get(d, k)
    if v is ABSENT:
        n = I.new_dict()
        I.dict_set(d, k, n)
        return n
    if v.op == "ite":
        g = guard_of(v, lambda x: x is ABSENT)
        if g is not FALSE:
            n = I.new_dict()
            I.dict_set(d, k, mk_ite(g, n, v))
            v = I.dict_get(d, k)
            if v.op == "ite":
                # all alternatives are dictionaries; writes below go through a split
                return v
    return v


def add_node(I, g, k, kwargs=()):
    nodes, adj = F(I, g, "_node"), F(I, g, "_adj")
    d = sub_dict(I, nodes, k)
    for name, v in kwargs:
        I.split(d, lambda x: I.dict_set(x, const(name), v))
    sub_dict(I, adj, k)


def add_edge(I, g, a, b, data=None, kwargs=()):
    add_node(I, g, a)
    add_node(I, g, b)
    adj = F(I, g, "_adj")
    directed = F(I, g, "directed")
    d = data if data is not None else None

    def one(u, w):
        row = sub_dict(I, adj, u)

        def put(r):
            cur = I.dict_get(r, w)
            if data is not None:
                I.dict_set(r, w, data)
            elif cur is ABSENT:
                I.dict_set(r, w, I.new_dict())
            elif cur.op == "ite":
                gg = guard_of(cur, lambda x: x is ABSENT)
                I.dict_set(r, w, mk_ite(gg, I.new_dict(), cur))
            for name, v in kwargs:
                I.split(I.dict_get(r, w), lambda x: I.dict_set(x, const(name), v))
        I.split(row, put)
    one(a, b)
    if directed is FALSE:
        one(b, a)


def graph_edges(I, g, data=False):
    out = []
    adj = F(I, g, "_adj")
    seen = set()
    for gu, u in I.dict_keys(adj) or []:
        row = I.dict_get(adj, u)
        rows = [(TRUE, row)] if row.op == "obj" else [(guard_of(row, lambda x, l=l: x is l), l) for l in leaves(row) if l.op == "obj"]
        for gr, r in rows:
            for gw, w in I.dict_keys(r) or []:
                if F(I, g, "directed") is FALSE and (w, u) in seen:
                    continue
                seen.add((u, w))
                out.append((b_and(gu, b_and(gr, gw)), raw("tuple", u, w) if not data else raw("tuple", u, w, I.dict_get(r, w))))
    return out


def pred_succ(I, g, n, succ):
    return guarded_list(I, [(c, e.args[1 if succ else 0]) for c, e in graph_edges(I, g) if e.args[0 if succ else 1] is n])


# configuration -----------------------------------------------------------------------
def cfg_structured(I, x):
    if x.op == "cls":
        x = I.call(x, [], [])
    d = I.new_dict(label="Cfg")
    ci = I.oinfo(x).cls
    for n in I.dataclass_fields(ci):
        v = I.get((x.args[0], n))
        if v.op == "obj" and I.oinfo(v).kind == "inst" and I.get(("C", I.oinfo(v).cls, "$dataclass")) is not ABSENT:
            v = cfg_structured(I, v)
        I.dict_set(d, const(n), v)
    return d


def cfg_merge(I, base, user, path=""):
    d = I.new_dict(label="Cfg")
    for g, k in I.dict_keys(base) or []:
        v = I.dict_get(base, k)
        p = (path + "." if path else "") + str(cval(k))
        if v.op == "obj" and is_cfg(I, v):
            if user.op == "obj":
                u = I.dict_get(user, k)
                v = cfg_merge(I, v, u, p) if u is not ABSENT and u.op == "obj" else (v if u is ABSENT else u)
            else:
                v = cfg_merge(I, v, user, p)
        elif user.op == "obj":
            u = I.dict_get(user, k)
            v = v if u is ABSENT else u
        else:
            kind = {"bool": "flag", "real": "real", "str": "text", "int": "real"}.get(kind_of(I, v), "opaque")
            v = mk_ite(atom_of(raw("userhas", const(p))), sym("user:" + p, kind, ()), v)
        I.dict_set(d, k, v)
    if user.op == "obj":
        for g, k in I.dict_keys(user) or []:
            if I.dict_get(d, k) is ABSENT:
                I.dict_set(d, k, I.dict_get(user, k))
    return d


def is_cfg(I, o):
    return o.op == "obj" and I.oinfo(o).label == "Cfg"


# logging ------------------------------------------------------------------------------
def levelno(I, v):
    if is_str(v):
        if cval(v) in LEVELS:
            return const(LEVELS[cval(v)])
        return I.raise_("ValueError", const("Unknown level"), v)
    if v.op == "ite":
        return I.lift(lambda x: levelno(I, x), v)
    if kind_of(I, v) == "str" or v.op == "app":
        return raw("call", "levelno", v)
    return v


def new_handler(I, name, args, kwargs):
    h = xobj(I, "handler", level=const(0), hclass=const(name))
    I.put((h.args[0], "filters"), I.new_list([]))
    I.put((h.args[0], "target"), args[0] if args else kwget(args, kwargs, 0, "filename", NONE))
    I.emit("handler", h, const(name), *args)
    return h


def get_logger(I, args):
    n = args[0] if args else const("root")
    key = ("LOGGER", n)
    cur = I.get(key)
    if cur is not ABSENT:
        return cur
    lg = xobj(I, "logger", level=const(0), propagate=TRUE, name=n, disabled=FALSE)
    I.put((lg.args[0], "handlers"), I.new_list([]))
    I.put((lg.args[0], "filters"), I.new_list([]))
    I.put(key, lg)
    return lg


# ------------------------------------------------------------------------- call_ext
def plot_event(I, name, args, kwargs):
    """calls of plotting libraries with their arguments as they are at the call (only where a rule asks for them)"""
    if getattr(I, "record_plots", False):
        I.emit("plot", const(name), raw("tuple", *[freeze(I, a) for a in args]), raw("tuple", *[raw("kw", k, freeze(I, v)) for k, v in kwargs]))


SAFE_NAMES = ()


def call_ext(I, name, args, kwargs):
    if I.pc is FALSE:
        return BOTTOM
    if name.startswith("typing."):
        return args[-1] if args else raw("ext", name)
    if not name.startswith("numpy.") or name.startswith("numpy.random"):
        I.emit("call-ext", const(name), *[a for a in args[:2]])
    h = BUILTINS.get(name)
    if h is not None:
        return h(I, args, kwargs)
    from .interp import EXC
    if name in EXC:
        return raw("exc", name, tuple(args))
    parts = name.split(".")
    if name.startswith("numpy.random."):
        f = parts[-1]
        if f in ("default_rng", "RandomState", "Generator", "PCG64", "SeedSequence", "MT19937"):
            I.emit("private-rng", const(name), *[val(I, a) for a in args])
            if f in ("default_rng", "RandomState"):
                o = xobj(I, "rng")
                s = args[0] if args else kwget(args, kwargs, 0, "seed", NONE)
                tag = raw("rngprivate", o)
                I.put(("R", tag), raw("rngseed", val(I, s)) if s is not NONE else sym("unseeded-rng:entropy", "opaque", ()))
                return o
            return raw("app", name, *[I.opaque_arg(a) for a in args])
        return rand_call(I, f, args, kwargs)
    if parts[0] == "numpy":
        sub_ = ".".join(parts[1:])
        r = np_call(I, sub_, args, kwargs)
        if r is not None:
            return r
        I.emit("call-ext", const(name), *args)
    if name == "math.isclose":
        return is_close(I, args[0], args[1], kwget((), kwargs, None, "rel_tol", const(1e-9)), kwget((), kwargs, None, "abs_tol", const(0)), True)
    if parts[0] == "math":
        f = {"pow": "power", "asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "fabs": "abs"}.get(parts[1], parts[1])
        if f in UFUNCS:
            return np_call(I, f, args, kwargs)
        return pure(I, parts[1], args)
    if name.startswith("scipy.stats."):
        if len(parts) == 4 and parts[3] == "rvs":
            return stats_rvs(I, parts[2], args, kwargs)
        if len(parts) == 4:
            shp, loc, scale, _, _ = stats_params(I, parts[2], args[1:], kwargs)
            x = args[0]
            std = not (loc is const(0) and scale is const(1))
            if parts[3] in ("ppf", "isf"):
                r = pure(I, parts[2] + "." + parts[3], [x] + shp)
                return arr(I, add(I, loc, mul(I, scale, r)))
            z = I.lift(lambda p, q: L.arith(I, "Div", p, q), sub(I, x, loc), val(I, scale))
            r = pure(I, parts[2] + "." + parts[3], [z] + shp)
            if parts[3] == "pdf":
                r = I.lift(lambda p, q: L.arith(I, "Div", p, q), r, val(I, scale))
            return arr(I, r)
        if len(parts) == 3 and parts[2] in NSHAPE:
            return raw("frozen", parts[2], tuple(args), tuple(kwargs))
    if name.startswith("scipy.special."):
        return pure(I, parts[-1], args)
    if name.startswith("scipy.integrate.") and parts[-1] in ("quad", "fixed_quad", "romberg"):
        f = I.opaque_arg(args[0])
        if I.pc is FALSE:
            return BOTTOM
        a, b = val(I, kwget(args, kwargs, 1, "a")), val(I, kwget(args, kwargs, 2, "b"))
        extra = [raw("kw", k, I.opaque_arg(v)) for k, v in sorted(kwargs, key=lambda z: z[0]) if k not in ("a", "b", "limit", "epsabs", "epsrel")]
        I.emit("quad", f, a, b)
        return raw("tuple", raw("call", "quad", f, a, b, *extra), raw("call", "quaderr", f, a, b, *extra))
    if name == "h5py.File":
        return I.split(kwget(args, kwargs, 1, "mode", const("r")), lambda m: h5_open(I, [args[0], m], []))
    if name in ("yaml.dump", "yaml.safe_dump"):
        data = kwget(args, kwargs, 0, "data", NONE)
        st = kwget(args, kwargs, 1, "stream", NONE)
        sk = kwget((), kwargs, None, "sort_keys", TRUE)
        fault(I, "dump")
        if I.pc is FALSE:
            return BOTTOM
        cp = deepcopy(I, data, sort=sk is TRUE, plain=True)
        I.emit("yaml-dump", data, st, sk, kwget(args, kwargs, 2, "Dumper", NONE))
        if st.op == "obj":
            I.put(("FS", F(I, st, "path")), cp)
            return NONE
        return raw("yamltext", cp)
    if name in ("yaml.load", "yaml.safe_load", "yaml.full_load", "yaml.unsafe_load"):
        st = kwget(args, kwargs, 0, "stream", NONE)
        I.emit("yaml-load", const(name), kwget(args, kwargs, 1, "Loader", NONE))
        fault(I, "load")
        if I.pc is FALSE:
            return BOTTOM
        if st.op == "obj" and I.oinfo(st).label == "file":
            c = I.get(("FS", F(I, st, "path")))
            return deepcopy(I, c) if c is not ABSENT else raw("app", "yaml", F(I, st, "path"))
        if st.op == "yamltext":
            return deepcopy(I, st.args[0])
        return raw("app", "yaml", I.opaque_arg(st))
    if name in ("open", "io.open", "codecs.open"):
        return file_open(I, kwget(args, kwargs, 0, "file"), kwget(args, kwargs, 1, "mode", const("r")))
    if name in ("networkx.DiGraph", "networkx.Graph", "networkx.MultiDiGraph"):
        g = new_graph(I, const(name != "networkx.Graph"))
        if args and args[0].op == "obj" and I.oinfo(args[0]).label == "graph":
            for k in ("_node", "_adj"):
                I.put((g.args[0], k), deepcopy(I, F(I, args[0], k)))
        return g
    if name == "networkx.to_dict_of_dicts":
        g = args[0]
        adj = F(I, g, "_adj")
        d = I.new_dict()
        for c, u in I.dict_keys(adj) or []:
            def row_copy(row):
                r = I.new_dict()
                for gg, w in I.dict_keys(row) or []:
                    I.dict_set(r, w, I.dict_get(row, w))
                return r
            rv = map_leaves(I.dict_get(adj, u), lambda x: row_copy(x) if x.op == "obj" else x)
            I.dict_set(d, u, rv)
        return d
    if name == "networkx.from_dict_of_dicts":
        cu = kwget(args, kwargs, 1, "create_using", NONE)
        directed = const(cu.op == "ext" and "Di" in cu.args[0] or (cu.op == "obj" and F(I, cu, "directed") is TRUE))
        g = new_graph(I, directed)
        d = args[0]
        for c, u in I.dict_keys(d) or []:
            def addu():
                add_node(I, g, u)
                row = I.dict_get(d, u)

                def rr(r):
                    if r.op != "obj":
                        return
                    for gw, w in I.dict_keys(r) or []:
                        dat = I.dict_get(r, w)
                        I.branch(gw, lambda: add_edge(I, g, u, w, data=dat), lambda: None)
                I.split(row, rr)
            I.branch(c, addu, lambda: None)
        return g
    if name == "networkx.is_directed":
        return F(I, args[0], "directed")
    if name.startswith("networkx.") and args and args[0].op == "obj" and I.oinfo(args[0]).label == "graph" and parts[1] in (
            "number_of_nodes", "number_of_edges", "nodes", "edges"):
        return call_method(I, args[0], parts[1], args[1:], kwargs)
    if name.startswith("class_registry.") and parts[-1] == "ClassRegistry":
        r = xdict(I, "registry", attr_name=kwget(args, kwargs, 0, "attr_name", NONE))
        return r
    if name.startswith("class_registry.") and parts[-1] == "AutoRegister":
        return raw("metareg", args[0], kwget(args, kwargs, 1, "base_type", raw("ext", "abc.ABCMeta")))
    if name in ("omegaconf.OmegaConf.structured", "omegaconf.OmegaConf.create"):
        x = args[0]
        if x.op == "obj" and I.oinfo(x).kind == "dict":
            return cfg_from_dict(I, x)
        return cfg_structured(I, x)
    if name == "omegaconf.OmegaConf.load":
        I.emit("open", const("OmegaConf.load"), args[0], const("r"))
        return raw("app", "usercfg", args[0])
    if name == "omegaconf.OmegaConf.merge":
        I.emit("cfg-merge", *args)

        def mrg(a, b):
            if a.op == "obj" and is_cfg(I, a):
                return cfg_merge(I, a, b)
            if b.op == "obj" and is_cfg(I, b):
                # values of b win
                d = cfg_merge(I, b, raw("app", "none"))
                return deepcopy(I, b)
            return raw("app", "merge", a, b)
        r = args[0]
        for a in args[1:]:
            r = mrg(r, a)
        return r
    if name == "omegaconf.OmegaConf.save":
        f = kwget(args, kwargs, 1, "f")
        I.emit("cfg-save", kwget(args, kwargs, 0, "config"), f)
        return NONE
    if name == "omegaconf.OmegaConf.to_container" or name == "omegaconf.OmegaConf.to_object":
        return deepcopy(I, args[0])
    if name.startswith("logging.") and (parts[-1].endswith("Handler")):
        return new_handler(I, name, args, kwargs)
    if name == "logging.getLogger":
        return get_logger(I, args)
    if name in ("logging.getLevelName",):
        return pure(I, "levelname", args)
    if name in ("logging.disable", "logging.shutdown", "logging.basicConfig"):
        I.emit("logging-global", const(name), *args)
        return NONE
    if name.startswith("logging.") and parts[-1] == "Formatter":
        return xobj(I, "formatter")
    if parts[0] == "pathlib":
        if len(parts) == 2:
            return path_new(I, args)
        if parts[-1] in ("home", "cwd"):
            return raw("path", const("~" if parts[-1] == "home" else "."))
    if name in ("os.path.join",):
        return raw("path", *args)
    if name.startswith("os.path."):
        if parts[-1] in ("expanduser", "abspath", "realpath", "normpath", "expandvars"):
            return args[0]
        if parts[-1] in ("exists", "isfile", "isdir"):
            return exists(I, args[0])
        return raw("app", name, *[I.opaque_arg(a) for a in args])
    if name.startswith("tqdm"):
        I.emit("progress", *[a for a in args[:1]])
        return args[0] if args else NONE
    if name in ("collections.OrderedDict", "OrderedDict"):
        return b_dict(I, args, kwargs, "OrderedDict")
    if name == "collections.defaultdict":
        d = b_dict(I, args[1:], kwargs, "defaultdict")
        if args and d.op == "obj":
            I.put((d.args[0], "$factory"), args[0])
        return d
    if name == "dotmap.DotMap":
        return b_dict(I, args, kwargs, "DotMap")
    if name == "copy.deepcopy":
        return deepcopy(I, args[0])
    if name == "copy.copy":
        return shallow(I, args[0])
    if name == "functools.partial":
        return raw("partial", args[0], tuple(args[1:]), tuple(kwargs))
    if name == "functools.reduce":
        its = iter_items(I, args[1])
        if its is not None:
            acc = args[2] if len(args) > 2 else None
            for g, x in its:
                acc = x if acc is None else I.call(args[0], [acc, x], [])
            return acc if acc is not None else I.raise_("TypeError")
    if name == "itertools.count":
        a = [val(I, x) for x in args] + [const(0), const(1)][len(args):]
        return raw("counter", kwget(args, kwargs, 0, "start", const(0)), kwget(args, kwargs, 1, "step", const(1)))
    if name == "dict.fromkeys":
        d = I.new_dict()
        its = iter_items(I, args[0])
        if its is not None:
            for g, k in its:
                I.branch(g, lambda: I.setitem(d, k, args[1] if len(args) > 1 else NONE), lambda: None)
            return d
    if name in ("enum.auto",):
        return raw("app", "enum.auto")
    if name.startswith("operator."):
        from .interp import DUNDER
        inv = {v: k for k, v in DUNDER.items()}
        f = parts[-1].strip("_")
        if f in inv and len(args) == 2:
            return I.binop(inv[f], args[0], args[1])
        if f == "and" and len(args) == 2:
            return I.binop("BitAnd", *args)
    if name == "itertools.chain":
        out = I.new_list([])
        for a in args:
            L.list_extend(I, out, a)
        return out
    if name in ("dataclasses.field",):
        return raw("field", kwget((), kwargs, None, "default_factory", ABSENT), kwget((), kwargs, None, "default", ABSENT), kwget((), kwargs, None, "init", TRUE))
    if name == "functools.wraps":
        return raw("app", name, args[0])
    if name in ("functools.update_wrapper",):
        return raw("wrapped", args[0], args[1])
    if name == "collections.namedtuple":
        from . import pylib
        r = pylib.namedtuple(I, args, kwargs)
        if r is not None:
            return r
    if name == "psa_is_dataclass":
        return const(args[0].op == "obj" and I.oinfo(args[0]).kind == "inst" and I.class_attr(I.oinfo(args[0]).cls, "$dataclass") is not ABSENT)
    if name == "psa_dataclass_fields":
        return raw("tuple", *[const(n) for n in I.dataclass_fields(args[0].args[0])])
    if name == "itertools.repeat":
        if len(args) > 1 and is_num(args[1]):
            return raw("seq", *[args[0]] * int(cval(args[1])))
        if len(args) == 1 and not kwargs:
            return raw("counter", args[0], NONE)
    if name in ("operator.not_",) and len(args) == 1:
        return b_not(I.truth(args[0]))
    if name in ("operator.neg", "operator.pos", "operator.invert", "operator.inv") and len(args) == 1:
        if parts[-1] == "pos":
            return args[0]
        return I.unop("neg", "negative", args[0], mk_neg) if parts[-1] == "neg" else I.unop("invert", "invert", args[0], lambda x: L.invert(I, x))
    if name in ("operator.eq", "operator.ne", "operator.lt", "operator.le", "operator.gt", "operator.ge") and len(args) == 2:
        return I.compare({"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}[parts[-1]], args[0], args[1])
    if name in ("dataclasses.dataclass", "numba.njit", "numba.jit", "numba.experimental.jitclass", "numba.vectorize",
                "functools.lru_cache", "numba.jitclass"):
        if len(args) == 1 and args[0].op in ("fn", "cls"):
            return apply_decorator(I, raw("ext", name), args[0])
        return raw("app", name)
    if name == "popsynth._version.get_versions" or name.endswith("_version.get_versions"):
        d = I.new_dict()
        for k in ("version", "full-revisionid", "dirty", "error", "date"):
            I.dict_set(d, const(k), sym("version:" + k, "text", ()))
        return d
    if name == "time.time" or name.startswith(("random.", "secrets.", "uuid.", "os.urandom", "datetime.", "time.")):
        I.emit("nondet", const(name))
    if name.startswith("warnings.catch_warnings"):
        return raw("app", name)
    if name in ("pandas.DataFrame", "pandas.Series"):
        return raw("app", name, *[I.opaque_arg(a) for a in args])
    if name in ("astropy.coordinates.SkyCoord", "astropy.coordinates.sky_coordinate.SkyCoord"):
        kw = dict(kwargs)
        pos = list(args) + [kw.pop(k) for k in ("ra", "dec") if k in kw]
        if len(pos) == 2:
            return raw("app", "sky(%s)" % ",".join("%s=%s" % (k, show(v)) for k, v in sorted(kw.items())), *[stripf(x) for x in pos])
    I.emit("ext-opaque", const(name), *args)
    plot_event(I, name, args, kwargs)
    return raw("app", name, *[I.opaque_arg(a) for a in args], *[raw("kw", k, I.opaque_arg(v)) for k, v in sorted(kwargs, key=lambda z: z[0])])


def cfg_from_dict(I, x):
    d = I.new_dict(label="Cfg")
    for g, k in I.dict_keys(x) or []:
        v = I.dict_get(x, k)
        if v.op == "obj" and I.oinfo(v).kind == "dict":
            v = cfg_from_dict(I, v)
        I.dict_set(d, k, v)
    return d


def file_open(I, p, mode):
    p = path_key(I, p)
    I.emit("open", const("open"), p, mode)
    f = xobj(I, "file", path=p, mode=mode, closed=FALSE, managed=FALSE)
    I.emit("opened", f, p, mode)
    if is_str(mode) and "w" in cval(mode):
        I.put(("FS", p), I.new_dict())
    if is_str(mode) and "r" in cval(mode) and "+" not in cval(mode):
        cur = I.get(("FS", p))
        if cur is ABSENT and getattr(I, "fs_strict", False):
            return I.raise_("FileNotFoundError", p)
    return f


def path_new(I, args):
    ps = []
    for a in args:
        if a.op == "path":
            ps.extend(a.args)
        else:
            ps.append(a)
    return raw("path", *ps)


def exists(I, p):
    p = path_key(I, p)
    cur = I.get(("FS", p))
    if cur is not ABSENT and cur.op != "ite":
        return TRUE
    mode = getattr(I, "exists_mode", None)
    if mode is not None:
        return mode
    return atom_of(raw("exists", p))


def path_attr(I, v, name, default):
    if name in ("parent", "parents"):
        return raw("path", *v.args[:-1]) if len(v.args) > 1 else raw("app", "parent", v)
    if name in ("name", "stem", "suffix"):
        return raw("app", "path" + name, v)
    return raw("extm", v, name)


def shallow(I, v):
    if v.op == "ite":
        return map_leaves(v, lambda x: shallow(I, x))
    if v.op == "fresh":
        return fresh(I, v)
    if v.op != "obj":
        return v
    oi = I.oinfo(v)
    n = I.alloc(oi.kind, oi.cls, oi.label)
    for k in [k for k in list(I.h) if k[0] == v.args[0]]:
        if k[1] != "$alive":
            x = I.h[k]
            if k[1] == "$base":
                x = fresh(I, x)
            I.put((n.args[0],) + tuple(k[1:]), x)
    return n


# -------------------------------------------------------------------------- builtins
def b_len(I, args, kw):
    return I.split(args[0], lambda x: L.length(I, x))


def b_range(I, args, kw):
    a = [val(I, x) for x in args]
    if len(a) == 1:
        a = [const(0), a[0]]
    if len(a) == 2:
        a.append(const(1))
    return I.lift(lambda *xs: raw("range", *xs), *a)


def b_list(I, args, kw):
    if not args:
        return I.new_list([])

    def one(x):
        s = L.seq_of(I, x)
        if s is not None and s.op in ("seq", "tuple"):
            o = I.new_list([])
            I.put((o.args[0], "$items"), raw("seq", *s.args))
            return o
        its = iter_items(I, x)
        if its is not None:
            return guarded_list(I, its)
        o = I.new_list([])
        v = stripf(I.base(x))
        I.put((o.args[0], "$items"), s if s is not None else raw("aslist", v))
        return o
    return I.split(args[0], one)


def b_tuple(I, args, kw):
    if not args:
        return raw("tuple")

    def one(x):
        its = iter_items(I, x)
        if its is not None and all(g is TRUE for g, _ in its):
            return raw("tuple", *[y for _, y in its])
        return raw("app", "tuple", I.opaque_arg(x))
    return I.split(args[0], one)


def b_set(I, args, kw, label="set"):
    o = I.alloc("set", None, label)
    I.put((o.args[0], "$keys"), raw("keys"))
    if args:
        def one(x):
            its = iter_items(I, x)
            if its is None:
                I.put((o.args[0], "$keys"), raw("app", "setof", I.opaque_arg(x)))
                return
            for g, y in its:
                I.branch(g, lambda: I.dict_set(o, y, TRUE), lambda: None)
        I.split(args[0], one)
    return o


def b_dict(I, args, kw, label="dict"):
    o = I.new_dict(label=label)
    for a in args:
        L.dict_update(I, o, a)
    for k, v in kw:
        I.setitem(o, const(k), v)
    return o


def b_str(I, args, kw):
    if not args:
        return const("")
    return I.lift(lambda x: L.to_str(I, x), args[0])


def b_int(I, args, kw):
    base = kwget(args, kw, 1, "base")
    if base is not None and base is not ABSENT and is_str(args[0]) and is_num(base):
        try:
            return const(int(cval(args[0]), int(cval(base))))
        except ValueError:
            return I.raise_("ValueError", const("int()"), args[0])

    def one(x):
        x = stripf(I.base(x))
        if x.op == "const":
            try:
                return const(int(cval(x)))
            except (TypeError, ValueError):
                return I.raise_("TypeError" if x is NONE else "ValueError", const("int()"), x)
        k = kind_of(I, x)
        if k in ("int", "bool"):
            return raw("cast", "int", x) if x.op == "count" or k == "bool" else x
        return raw("call", "int", x)
    return I.lift(one, args[0]) if args else const(0)


def b_float(I, args, kw):
    def one(x):
        x = stripf(I.base(x))
        if x.op == "const":
            try:
                return const(float(cval(x)))
            except (TypeError, ValueError):
                return I.raise_("TypeError" if x is NONE else "ValueError", const("float()"), x)
        return cast(I, x, "real") if kind_of(I, x) in ("int", "bool") else x
    return I.lift(one, args[0]) if args else const(0.0)


def b_sum(I, args, kw):
    def one(x):
        v = val(I, x)
        its = iter_items(I, x) if v.op not in ("fresh",) and x.op in ("obj", "tuple", "gen") and not (x.op == "obj" and I.is_array_inst(x)) else None
        if its is not None:
            r = args[1] if len(args) > 1 else const(0)
            for g, y in its:
                r = I.branch(g, lambda: I.binop("Add", r, y), lambda: r)
            return r
        return I.lift(lambda z: np_sum(I, z), v)
    return I.split(args[0], one)


def new_class(I, args):
    """type(name, bases, namespace)"""
    import ast as _ast
    from .model import ClassInfo
    node = _ast.parse("class %s: pass" % cval(args[0])).body[0]
    ci = ClassInfo(node, I.frame.module, cval(args[0]))
    for g, b in iter_items(I, args[1]) or []:
        if b.op == "cls":
            ci.bases.append(b.args[0])
        elif b.op == "ext":
            ci.ext_bases.append(b.args[0])
    ci.qual = I.frame.module.name + "." + ci.name
    for g, k in I.dict_keys(args[2]) or []:
        I.put(("C", ci, cval(k)), I.dict_get(args[2], k))
    ct = raw("cls", ci)
    I.finish_class(ci, ct, [])
    return ct


def b_minmax(which):
    def f(I, args, kw):
        if len(args) == 1 and args[0].op in ("obj", "tuple", "gen", "zip", "enumerate", "range") and not (args[0].op == "obj" and I.is_array_inst(args[0])):
            its = iter_items(I, args[0])
            key = kwget((), kw, None, "key")
            if its is not None and all(g is TRUE for g, _ in its):
                d = kwget((), kw, None, "default")
                if not its:
                    return d if d is not None else I.raise_("ValueError", const(which + "() arg is an empty sequence"))
                if key is not None and key is not NONE:
                    ks = [I.call(key, [y], []) for _, y in its]
                    if all(is_const(k) for k in ks):
                        i = (max if which == "max" else min)(range(len(ks)), key=lambda j: cval(ks[j]))
                        return its[i][1]
                if key is None and len(its) == 1:
                    return its[0][1]
                if key is None and all(is_num(y) for _, y in its):
                    return const((max if which == "max" else min)(cval(y) for _, y in its))
        if len(args) >= 2:
            r = val(I, args[0])
            for a in args[1:]:
                r = I.lift(lambda x, y: call2(which + "imum", stripf(x), stripf(y)), r, val(I, a))
            return r
        d = kwget((), kw, None, "default")
        x = args[0]
        if I.implicit_exc and d is not None:
            n = L.length(I, x)
            c = I.truth(I.lift(lambda m: mk_cmp("eq", m, const(0)), n))
            return I.branch(c, lambda: d, lambda: reduce_(I, which, x))
        return reduce_(I, which, x)
    return f


def b_abs(I, args, kw):
    return np_call(I, "abs", args, [])


def b_getattr(I, args, kw):
    n = args[1]
    if not is_str(n):
        if n.op == "ite":
            return I.split(n, lambda m: b_getattr(I, [args[0], m] + list(args[2:]), kw))
        I.emit("dynamic-getattr", *args)
        return raw("app", "getattr", args[0], n)
    if len(args) > 2:
        return get_default(I, args[0], cval(n), args[2])
    return I.getattr_(args[0], cval(n))


def get_default(I, o, name, default):
    """getattr with a default: a raised AttributeError selects the default"""
    def one(x):
        return I.getattr_(x, name, default)
    return I.split(o, one)


def b_hasattr(I, args, kw):
    mark = raw("sym", "$missing", "opaque", ())
    v = b_getattr(I, [args[0], args[1], mark], [])
    if I.pc is FALSE:
        return BOTTOM
    return guard_of(v, lambda x: x is not mark)


def b_setattr(I, args, kw):
    if not is_str(args[1]):
        its = leaves(args[1]) or []
        if its and all(is_str(x) for x in its):
            I.split(args[1], lambda m: I.setattr_(args[0], cval(m), args[2]))
            return NONE
        I.emit("dynamic-setattr", *args)
        return NONE
    I.setattr_(args[0], cval(args[1]), args[2])
    return NONE


def b_isinstance(I, args, kw):
    return I.lift(lambda v, t: isinst(I, v, t), args[0], args[1])


def b_issubclass(I, args, kw):
    def one(c, t):
        if c.op == "excclass":
            return isinst(I, c.args[0], t)
        if c.op == "cls" and t.op == "cls":
            return const(t.args[0] in c.args[0].mro())
        if c.op == "cls" and t.op == "ext":
            return const(t.args[0] == "object" or t.args[0] in c.args[0].ext_root())
        if t.op == "tuple":
            r = FALSE
            for x in t.args:
                r = b_or(r, one(c, x))
            return r
        if c.op == "ext":
            import builtins
            a, b = (getattr(builtins, x.args[0], None) if x.op == "ext" else None for x in (c, t))
            if isinstance(a, type) and isinstance(b, type):
                return const(issubclass(a, b))
            return const(c.args[0] == t.args[0] if t.op == "ext" else False)
        return atom_of(raw("call", "isinstance", c, t))
    return I.lift(one, args[0], args[1])


def b_type(I, args, kw):
    if len(args) == 3 and is_str(args[0]):
        return new_class(I, args)
    if len(args) != 1:
        return raw("app", "type", *[I.opaque_arg(a) for a in args])

    def one(x):
        if x.op == "obj":
            oi = I.oinfo(x)
            if oi.kind == "inst":
                return raw("cls", oi.cls)
            return raw("ext", {"dict": "dict", "list": "list", "set": "set"}.get(oi.kind, oi.label))
        x = stripf(x)
        if x is NONE:
            return raw("ext", "NoneType")
        if x.op == "exc":
            return raw("excclass", x)
        if x.op == "const":
            return raw("ext", x.args[0])
        if x.op == "cls":
            return raw("ext", "type")
        if x.op == "tuple":
            return raw("ext", "tuple")
        n = typenames(I, x)
        if n and len(n) == 1:
            return raw("ext", list(n)[0])
        return raw("app", "type", x)
    return I.lift(one, args[0])


def b_zip(I, args, kw):
    def go(i, done):
        if i == len(args):
            return raw("zip", *done)
        return I.split(args[i], lambda x: go(i + 1, done + [x]))
    return go(0, [])


def b_enumerate(I, args, kw):
    st = kwget(args, kw, 1, "start", const(0))
    return I.split(args[0], lambda x: raw("enumerate", x, st))


def b_sorted(I, args, kw):
    def one(x):
        its = iter_items(I, x)
        key = kwget((), kw, None, "key")
        rev = kwget((), kw, None, "reverse", FALSE)
        if its is not None and key is None and all(is_const(y) for _, y in its):
            try:
                its = sorted(its, key=lambda t: cval(t[1]), reverse=rev is TRUE)
                return guarded_list(I, its)
            except TypeError:
                pass
        if its is not None and len(its) == 1:
            return guarded_list(I, its)
        if its is not None and key is not None:
            ks = [I.call(key, [y], []) for _, y in its]
            if all(is_const(k) for k in ks):
                order = sorted(range(len(its)), key=lambda i: cval(ks[i]), reverse=rev is TRUE)
                return guarded_list(I, [its[i] for i in order])
        o = I.new_list([])
        v = val(I, x)
        I.put((o.args[0], "$items"), raw("call", "sort", v) if its is None else raw("app", "sorted", raw("seq", *[y for _, y in its])))
        return o
    return I.split(args[0], one)


def b_reversed(I, args, kw):
    its = iter_items(I, args[0])
    if its is not None:
        return guarded_list(I, its[::-1])
    return raw("app", "reversed", I.opaque_arg(args[0]))


def b_map(I, args, kw):
    out = I.new_list([])
    its = [iter_items(I, a) for a in args[1:]]
    if all(x is not None for x in its) and all(g is TRUE for x in its for g, _ in x):
        for row in zip(*its):
            L.list_append(I, out, I.call(args[0], [x for _, x in row], []))
        return out
    if len(its) == 1 and its[0] is not None:
        for g, x in its[0]:
            I.branch(g, lambda: L.list_append(I, out, I.call(args[0], [x], [])), lambda: None)
        return out
    return raw("app", "map", *[I.opaque_arg(a) for a in args])


def b_filter(I, args, kw):
    out = I.new_list([])
    its = iter_items(I, args[1])
    if its is not None:
        for g, x in its:
            def there():
                c = I.truth(x if args[0] is NONE else I.call(args[0], [x], []))
                if I.pc is not FALSE:
                    I.branch(c, lambda: L.list_append(I, out, x), lambda: None)
            I.branch(g, there, lambda: None)
        return out
    return raw("app", "filter", *[I.opaque_arg(a) for a in args])


def b_anyall(which):
    def f(I, args, kw):
        its = iter_items(I, args[0]) if args[0].op in ("obj", "tuple", "gen") else None
        if its is not None:
            r = const(which == "all")
            for g, x in its:
                t = I.truth(x)
                r = b_and(r, b_or(b_not(g), t)) if which == "all" else b_or(r, b_and(g, t))
            return r
        return I.truth(np_call(I, which, args, []))
    return f


def b_property(I, args, kw):
    return raw("property", kwget(args, kw, 0, "fget", NONE), kwget(args, kw, 1, "fset", NONE))


def b_iter(I, args, kw):
    def one(x):
        if x.op == "gen" or x.op == "obj" and I.oinfo(x).label == "iterator":
            return x
        if x.op == "obj":
            m = I.class_lookup(x, "__iter__")
            if m is not ABSENT:
                return I.call(I.bind(m, x), [], [])
        its = iter_items(I, x)
        if its is None:
            return x
        o = guarded_list(I, its)
        I.oinfo(o).label = "iterator"
        return o
    return I.split(args[0], one)


def b_next(I, args, kw):
    if args[0].op == "ite":
        return I.split(args[0], lambda x: b_next(I, [x] + list(args[1:]), kw))
    oid = None
    if args[0].op == "gen":
        oid = args[0].args[3]
    elif args[0].op == "obj":
        m = I.class_lookup(args[0], "__next__")
        if m is not ABSENT:
            return I.call(I.bind(m, args[0]), [], [])
        if I.oinfo(args[0]).label == "iterator":
            oid = args[0].args[0]
    its = iter_items(I, args[0])
    if oid is not None and its is not None and I.pc is not FALSE:
        # the first element that is there is consumed
        rest, seen = [], FALSE
        for g, x in its:
            rest.append((b_and(g, seen), x))
            seen = b_or(seen, g)
        o = guarded_list(I, [(g, x) for g, x in rest if g is not FALSE])
        I.put((oid, "$items"), I.get((o.args[0], "$items")))
    if its:
        g, x = its[0]
        if g is TRUE:
            return x
        rest = args[1] if len(args) > 1 else None
        r = rest
        out = x
        acc = rest if rest is not None else ABSENT
        for gg, y in reversed(its):
            acc = mk_ite(gg, y, acc)
        miss = guard_of(acc, lambda l: l is ABSENT) if acc.op == "ite" else FALSE
        I.raise_if(miss, "StopIteration")
        return map_leaves(acc, lambda l: BOTTOM if l is ABSENT else l)
    if its == []:
        return args[1] if len(args) > 1 else I.raise_("StopIteration")
    return raw("app", "next", I.opaque_arg(args[0]))


def b_object_setattr(I, args, kw):
    if is_str(args[1]):
        I.split(args[0], lambda o: I.setattr1(o, cval(args[1]), args[2], plain=True))
    return NONE


def none_(I, args, kw):
    return NONE


def b_print(I, args, kw):
    I.emit("print", *[a for a in args if isinstance(a, Term)])
    return NONE


def b_divmod(I, args, kw):
    if any(a.op == "obj" and I.is_array_inst(a) for a in args):
        return np_call(I, "divmod", args, [])
    return raw("tuple", I.binop("FloorDiv", *args), I.binop("Mod", *args))


def b_round(I, args, kw):
    if is_num(args[0]):
        return const(round(cval(args[0]), *[cval(a) for a in args[1:]]))
    return pure(I, "round", args)


def b_locals(I, args, kw):
    fr = I.frame
    while fr.func is not None and fr.func.name == "<comp>" and fr.parent is not None:
        fr = fr.parent
    d = I.new_dict()
    for k in list(I.h):
        if k[0] == "L" and k[1] == fr.fid and not k[2].startswith("$") and I.h[k] is not ABSENT:
            I.dict_set(d, const(k[2]), I.h[k])
    return d


def b_vars(I, args, kw):
    if not args:
        return b_locals(I, args, kw)
    if args and args[0].op == "cls":
        return raw("classdict", args[0].args[0])
    if not args:
        return b_locals(I, args, kw)
    return I.split(args[0], lambda x: I.getattr_(x, "__dict__")) if args[0].op in ("ite", "obj", "cls", "ext") else raw("app", "vars")


BUILTINS = {
    "len": b_len, "range": b_range, "list": b_list, "tuple": b_tuple, "set": b_set,
    "frozenset": lambda I, a, k: b_set(I, a, k, "frozenset"), "dict": b_dict, "str": b_str, "repr": b_str, "int": b_int, "float": b_float,
    "bool": lambda I, a, k: I.truth(a[0]) if a else FALSE, "sum": b_sum, "max": b_minmax("max"), "min": b_minmax("min"), "abs": b_abs,
    "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr, "isinstance": b_isinstance, "issubclass": b_issubclass, "type": b_type,
    "zip": b_zip, "enumerate": b_enumerate, "sorted": b_sorted, "reversed": b_reversed, "map": b_map, "filter": b_filter,
    "any": b_anyall("any"), "all": b_anyall("all"), "property": b_property, "next": b_next, "iter": b_iter, "locals": b_locals, "super": lambda I, a, k: raw("super", a[0].args[0], a[1]), "print": b_print,
    "staticmethod": lambda I, a, k: raw("static", a[0]), "classmethod": lambda I, a, k: raw("clsm", a[0]),
    "object.__setattr__": b_object_setattr, "round": b_round, "divmod": b_divmod, "pow": lambda I, a, k: I.binop("Pow", a[0], a[1]), "vars": b_vars,
    "callable": lambda I, a, k: const(a[0].op in ("fn", "bound", "cls", "ext", "extm", "partial", "memo", "wrapped")
                                      or a[0].op == "obj" and I.class_lookup(a[0], "__call__") is not ABSENT),
    "id": lambda I, a, k: raw("app", "id", a[0]), "hash": lambda I, a, k: raw("app", "hash", I.opaque_arg(a[0])),
    "object": lambda I, a, k: I.alloc("xobj", None, "object"), "object.__init__": none_,
    "slice": lambda I, a, k: raw("slice", *(list(a) + [NONE] * 3)[:3]) if len(a) > 1 else raw("slice", NONE, a[0], NONE),
    "delattr": lambda I, a, k: (I.put((a[0].args[0], cval(a[1])), ABSENT), NONE)[1],
    "format": b_str, "input": lambda I, a, k: raw("app", "input"),
    "contextlib.contextmanager": lambda I, a, k: raw("ctx", a[0]), "abc.abstractmethod": lambda I, a, k: a[0],
    "abc.ABCMeta": lambda I, a, k: raw("app", "type"),
    "colorama.init": none_, "colorama.deinit": none_, "warnings.warn": none_, "warnings.simplefilter": none_,
    "pkg_resources.resource_filename": lambda I, a, k: raw("path", const("<pkg>"), *a),
}


# ------------------------------------------------------------------------ methods
DUNDER_CALLS = {"__eq__": ("cmp", "Eq"), "__ne__": ("cmp", "NotEq"), "__lt__": ("cmp", "Lt"), "__le__": ("cmp", "LtE"), "__gt__": ("cmp", "Gt"),
                "__ge__": ("cmp", "GtE"), "__contains__": ("cmp", "RIn"), "__add__": ("bin", "Add"), "__sub__": ("bin", "Sub"),
                "__mul__": ("bin", "Mult"), "__truediv__": ("bin", "Div"), "__pow__": ("bin", "Pow"), "__mod__": ("bin", "Mod"),
                "__floordiv__": ("bin", "FloorDiv"), "__and__": ("bin", "BitAnd"), "__or__": ("bin", "BitOr"),
                "__radd__": ("rbin", "Add"), "__rsub__": ("rbin", "Sub"), "__rmul__": ("rbin", "Mult"), "__rtruediv__": ("rbin", "Div"),
                "__rpow__": ("rbin", "Pow")}
del DUNDER_CALLS["__contains__"]


def call_method(I, recv, name, args, kwargs):
    if I.pc is FALSE:
        return BOTTOM
    if recv.op == "super":
        return super_method(I, recv, name, args, kwargs)
    if recv.op == "ite":
        return I.split(recv, lambda r: call_method(I, r, name, args, kwargs))
    if recv.op == "obj":
        oi = I.oinfo(recv)
        if (recv.args[0], "$base") in I.h:
            return array_method(I, recv, name, args, kwargs)
        if oi.kind == "list":
            return list_method(I, recv, name, args, kwargs)
        if oi.kind == "xobj":
            return xmethod(I, recv, oi, name, args, kwargs)
        if L.is_dict(I, recv):
            return dict_method(I, recv, name, args, kwargs)
        if name == "__setattr__":
            I.setattr1(recv, cval(args[0]), args[1], plain=True)
            return NONE
        if name in ("__repr__", "__str__"):
            return raw("app", "strof", const(oi.label))
        if name == "__eq__":
            return const(recv is args[0])
        if name == "__hash__":
            return raw("app", "hash", recv)
    v = stripf(recv)
    if v is NONE:
        if name in ("__eq__", "__ne__") and len(args) == 1:
            # None compares by identity only; any other operand leaves it to the other side
            r = I.lift(lambda x: TRUE if x is NONE else (NOTIMPL if x.op in ("const", "obj", "cls", "fn", "tuple", "ext") else I.lib.is_(I, x, NONE)), args[0])
            return r if name == "__eq__" else I.lift(lambda x: x if x is NOTIMPL else b_not(x), r)
        if name == "__bool__":
            return FALSE
        return raw("app", "m:" + name, v)
    if v.op == "memo":
        if name == "cache_clear":
            for k in list(I.h):
                if k[0] == v.args[1]:
                    I.put(k, ABSENT)
            return NONE
        return raw("app", "m:" + name, v)
    if name in DUNDER_CALLS and len(args) == 1 and (v.op in ("const", "tuple") or kind_of(I, v) is not None):
        kind, opn = DUNDER_CALLS[name]
        if kind == "cmp":
            return I.compare(opn, recv, args[0])
        return I.binop(opn, recv, args[0]) if kind == "bin" else I.binop(opn, args[0], recv)
    if v.op == "instdict":
        return instdict_method(I, v, name, args, kwargs)
    if v.op == "classdict":
        if name in ("items", "keys", "values", "get"):
            return dict_method(I, class_attrs(I, v.args[0]), name, args, kwargs)
    if v.op == "path":
        return path_method(I, v, name, args, kwargs)
    if v.op == "frozen":
        if name == "rvs":
            return stats_rvs(I, v.args[0], list(v.args[1]), list(v.args[2]) + ([("size", args[0])] if args else []) + list(kwargs))
        return call_ext(I, "scipy.stats.%s.%s" % (v.args[0], name), list(args) + list(v.args[1]), list(v.args[2]))
    if v.op == "bytes":
        if name == "decode":
            return v.args[0]
    if v.op == "const" or kind_of(I, v) in ("str", "bytes") or v.op == "app" and v.args[0] in ("concat", "str", "strof"):
        return str_method(I, v, name, args, kwargs)
    if v.op == "cls":
        if name == "mro":
            return I.new_list([raw("cls", c) for c in v.args[0].mro()] + [raw("ext", "object")])
        if name == "__subclasshook__":
            return NOTIMPL
        I.emit("ext-opaque", const("type." + name), v)
        return raw("app", "m:" + name, v, *[I.opaque_arg(a) for a in args])
    if v.op == "tuple" and name in ("index", "count"):
        for i, x in enumerate(v.args):
            if x is args[0]:
                return const(i) if name == "index" else const(sum(1 for y in v.args if y is x))
        return I.raise_("ValueError", const("not in tuple")) if name == "index" else const(0)
    if v.op in ("ext",):
        return call_ext(I, v.args[0] + "." + name, args, kwargs)
    if v.op == "exc":
        return raw("app", "excm:" + name, v)
    if L.hasattr_np(name) and v.op not in ("sym",) or (v.op == "sym" and (is_array(shape_of(I, v)) or kind_of(I, v) in ("real", "int", "bool"))):
        return array_method(I, recv, name, args, kwargs)
    I.emit("method-opaque", recv, const(name), *args)
    plot_event(I, name, args, kwargs)
    return raw("app", "m:" + name, v, *[I.opaque_arg(a) for a in args], *[raw("kw", k, I.opaque_arg(x)) for k, x in sorted(kwargs, key=lambda z: z[0])])


def super_method(I, recv, name, args, kwargs):
    cls, selfv = recv.args
    if name == "__new__":
        first = args[0] if args else selfv
        # metaclass: the class in the making
        if first.op == "cls" and any(r in ("type", "abc.ABCMeta", "ABCMeta") for r in first.args[0].ext_root()):
            return I.making[-1]
        if first.op == "cls":
            o = I.alloc("inst", first.args[0], first.args[0].name)
            return o
    if name in ("__init__", "__init_subclass__", "__post_init__"):
        if name == "__init__" and selfv.op == "obj" and I.oinfo(selfv).kind == "inst" and I.get((selfv.args[0], "args")) is not ABSENT:
            I.put((selfv.args[0], "args"), raw("tuple", *args))
        if selfv.op == "obj" and I.oinfo(selfv).kind == "inst" and I.is_dictlike(I.oinfo(selfv).cls):
            for a in args:
                L.dict_update(I, selfv, a)
            for k, v in kwargs:
                I.setitem(selfv, const(k), v)
        return NONE
    if selfv.op == "obj":
        if name == "__array_ufunc__":
            uf, method = args[0], args[1]
            if method is const("__call__") and uf.op == "ext":
                if not all(isinstance_plain(I, a) for a in args[2:]):
                    for a in args[2:]:
                        if a.op == "obj" and I.class_lookup(a, "__array_ufunc__") is not ABSENT:
                            return NOTIMPL
                return ufunc_plain(I, uf.args[0].split(".")[-1], list(args[2:]), kwargs)
            if method is const("reduce") and uf.op == "ext" and len(args) == 3:
                r = ufunc_reduce(I, uf.args[0].split(".")[-1], args[2])
                if r is not None:
                    return r
            return I.lift(lambda *xs: arr(I, raw("app", "ufuncmethod", *xs)), *[val(I, a) if a.op != "ext" else a for a in args])
        if name == "__setattr__":
            I.setattr1(selfv, cval(args[0]), args[1], plain=True)
            return NONE
        if name == "__getattribute__":
            return I.inst_attr(selfv, cval(args[0]), None)
        if name == "__getitem__" and (selfv.args[0], "$base") in I.h:
            r = arr(I, I.lift(lambda i: index(I, I.base(selfv), i), val(I, args[0])))
            return r
        if name in ("__setitem__",) and (selfv.args[0], "$base") in I.h:
            L.obj_setitem(I, selfv, args[0], args[1])
            return NONE
        if L.is_dict(I, selfv):
            return dict_method(I, selfv, name, args, kwargs)
        if (selfv.args[0], "$base") in I.h:
            return array_method(I, selfv, name, args, kwargs)
        if name in ("__repr__", "__str__"):
            return raw("app", "strof", const(I.oinfo(selfv).cls.name))
    if name == "__array_finalize__":
        return NONE
    I.emit("method-opaque", selfv, const(name), *args)
    return raw("app", "super:" + name, *[I.opaque_arg(a) for a in args])


def isinstance_plain(I, a):
    return a.op != "obj"


def array_view(I, recv, cls):
    """x.view(cls)"""
    b = I.base(recv)
    o = I.alloc("inst", cls, cls.name)
    I.put((o.args[0], "$base"), b)
    fin = I.class_attr(cls, "__array_finalize__")
    if fin is not ABSENT:
        I.call(I.bind(fin, o), [recv], [])
    return o


def array_method(I, recv, name, args, kwargs):
    b = I.base(recv)
    if name == "view":
        t = args[0] if args else None
        if t is not None and t.op == "cls":
            return array_view(I, recv, t.args[0])
        return b
    if name == "astype":
        d = np_dtype(I, kwget(args, kwargs, 0, "dtype"))
        r = I.lift(lambda x: arr(I, cast(I, x, d)), val(I, b))
        return r
    if name in ("copy", "flatten", "__copy__", "__deepcopy__"):
        if recv.op == "obj":
            return shallow(I, recv) if name != "flatten" else fresh(I, b)
        return I.lift(lambda x: arr(I, x), val(I, b))
    if name in ("ravel", "squeeze", "reshape", "transpose"):
        return b if len(shape_of(I, b) or ()) == 1 and not (name == "reshape" and len(args) > 1) else pure(I, name, [b] + list(args))
    if name == "__getitem__":
        return I.split(args[0], lambda i: maybe_copy(I, I.lift(lambda x: index(I, x, i), b)))
    if name == "__setitem__":
        I.setitem(recv, args[0], args[1])
        return NONE
    if name == "__len__":
        return L.length(I, b)
    if name in ("sum", "max", "min", "all", "any", "prod") and recv.op == "obj" and I.class_lookup(recv, "__array_ufunc__") is not ABSENT:
        return np_call(I, name, [recv], [])
    if name == "sum":
        return I.lift(lambda x: np_sum(I, x), val(I, b))
    if name in ("all", "any"):
        return I.lift(lambda x: np_all(I, x, name), val(I, b))
    if name in ("max", "min"):
        return reduce_(I, name, b)
    if name in ("mean", "std", "var", "prod", "argmax", "argmin", "cumsum", "argsort", "cumprod", "round"):
        return pure(I, name, [b])
    if name == "nonzero":
        return raw("tuple", pure(I, "nonzero", [b]))
    if name == "clip":
        return np_call(I, "clip", [b] + list(args), kwargs)
    if name == "repeat":
        return np_call(I, "repeat", [b] + list(args), kwargs)
    if name == "fill":
        sh = shape_of(I, b)
        I.mutate_array(b, raw("full", sh[0], val(I, args[0])) if sh else args[0], "fill")
        return NONE
    if name == "sort":
        I.mutate_array(b, raw("call", "sort", stripf(b)), "sort")
        return NONE
    if name == "tolist":
        o = I.new_list([])
        I.put((o.args[0], "$items"), raw("aslist", stripf(b)))
        return o if is_array(shape_of(I, b)) else stripf(b)
    if name == "item":
        return stripf(b) if not args else index(I, b, args[0])
    if name == "take":
        return np_call(I, "take", [b] + list(args), [])
    if name == "decode":
        return I.raise_("AttributeError", const("decode"))
    if name in ("setflags", "resize", "partition"):
        return NONE
    if name in ("__array_ufunc__",):
        return ufunc_plain(I, args[0].args[0].split(".")[-1], list(args[2:]), kwargs) if args[0].op == "ext" else raw("app", "ufunc")
    ops = {"__add__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__truediv__": "Div", "__pow__": "Pow", "__and__": "BitAnd", "__or__": "BitOr"}
    if name in ops:
        return I.binop(ops[name], b, args[0])
    if name in ("__invert__",):
        return I.unop("invert", "invert", b, lambda x: L.invert(I, x))
    if name in ("__neg__",):
        return I.unop("neg", "negative", b, mk_neg)
    I.emit("method-opaque", recv, const(name), *args)
    return raw("app", "m:" + name, stripf(b), *[I.opaque_arg(a) for a in args])


def maybe_copy(I, t):
    if t.op == "index" and is_array(shape_of(I, t)):
        return fresh(I, t)
    return t


def list_method(I, o, name, args, kwargs):
    oid = o.args[0]
    it = I.get((oid, "$items"))
    if name == "append":
        I.emit("list-mut", o)
        L.list_append(I, o, args[0])
        return NONE
    if name == "extend":
        I.emit("list-mut", o)
        L.list_extend(I, o, args[0])
        return NONE
    if name == "__iadd__":
        L.list_extend(I, o, args[0])
        return o
    if name == "copy":
        return b_list(I, [o], [])
    if name in ("pop", "insert", "remove", "clear", "reverse", "sort"):
        I.emit("list-mut", o)
    if name == "clear":
        I.put((oid, "$items"), raw("seq"))
        return NONE
    if it.op == "seq" and not any(x.op == "ite" and L.contains_absent(x) for x in it.args):
        l = list(it.args)
        if name == "pop":
            i = int(cval(args[0])) if args else -1
            if not -len(l) <= i < len(l):
                return I.raise_("IndexError", const("pop from empty list"))
            v = l.pop(i)
            I.put((oid, "$items"), raw("seq", *l))
            return v
        if name == "insert" and is_num(args[0]):
            l.insert(int(cval(args[0])), args[1])
            I.put((oid, "$items"), raw("seq", *l))
            return NONE
        if name == "remove":
            if args[0] in l:
                l.remove(args[0])
                I.put((oid, "$items"), raw("seq", *l))
                return NONE
            return I.raise_("ValueError", const("not in list"))
        if name == "index":
            if args[0] in l:
                return const(l.index(args[0]))
            return I.raise_("ValueError", const("not in list"))
        if name == "count":
            return const(sum(1 for x in l if x is args[0]))
        if name == "reverse":
            I.put((oid, "$items"), raw("seq", *l[::-1]))
            return NONE
        if name == "sort":
            r = b_sorted(I, [o], kwargs)
            I.put((oid, "$items"), I.get((r.args[0], "$items")))
            return NONE
    elif it.op == "seq" and name == "pop" and (not args or args[0] in (const(0), const(-1))):
        # the last (first) element that is there
        its = iter_items(I, o)
        first = bool(args) and args[0] is const(0)
        seq, taken, acc = (its if first else its[::-1]), FALSE, None
        out = []
        for g, x in seq:
            sel = b_and(g, b_not(taken))
            keep = b_and(g, taken)
            taken = b_or(taken, g)
            if sel is not FALSE:
                acc = x if acc is None else mk_ite(sel, x, acc)
            if keep is not FALSE:
                out.append((keep, x))
        I.raise_if(b_not(taken), "IndexError", const("pop from empty list"))
        if I.pc is FALSE:
            return BOTTOM
        n = guarded_list(I, out if first else out[::-1])
        I.put((oid, "$items"), I.get((n.args[0], "$items")))
        return I.restrict(acc) if acc.op == "ite" else acc
    elif it.op == "seq" and name == "remove":
        # guarded elements: drop the element that is the argument
        l = [x for x in it.args if x is not args[0] and not (x.op == "ite" and args[0] in (leaves(x) or ()))]
        I.put((oid, "$items"), raw("seq", *l))
        return NONE
    if name == "__contains__":
        return L.contains_(I, o, args[0])
    if name == "__len__":
        return L.length(I, o)
    if name in ("index", "count"):
        return raw("app", "list." + name, I.opaque_arg(o), args[0])
    I.put((oid, "$items"), raw("app", "list." + name, it, *[I.opaque_arg(a) for a in args]))
    return NONE if name != "pop" else raw("app", "list.pop", it)


def dict_method(I, o, name, args, kwargs):
    oid = o.args[0]
    oi = I.oinfo(o)
    if oi.kind == "set":
        return set_method(I, o, name, args, kwargs)
    if name in ("items", "keys", "values", "__iter__", "iteritems"):
        ks = I.dict_keys(o)
        if ks is None:
            return raw("app", "dict." + name, raw("dictterm", I.h[(oid, "$keys")]))
        out = []
        for g, k in ks:
            if name in ("keys", "__iter__"):
                out.append((g, k))
                continue
            v = I.dict_get(o, k)
            v = map_leaves(v, lambda l: BOTTOM if l is ABSENT else l) if v.op == "ite" else v
            if g is not TRUE and v.op == "ite":
                v = simplify_under(v, g)
            out.append((g, v if name == "values" else raw("tuple", k, v)))
        return guarded_list(I, out)
    if name in ("get", "setdefault", "pop"):
        k = args[0]
        d = kwget(args, kwargs, 1, "default", NONE)

        def one(k):
            v = I.dict_get(o, k)
            g = guard_of(v, lambda l: l is ABSENT) if v.op == "ite" else const(v is ABSENT)
            if name == "pop":
                I.emit("setitem", o, k, ABSENT)
                if len(args) < 2:
                    I.raise_if(g, "KeyError", k)
                    if I.pc is FALSE:
                        return BOTTOM
                if v is not ABSENT:
                    I.dict_del(o, k)
            r = d if v is ABSENT else mk_ite(g, d, map_leaves(v, lambda l: BOTTOM if l is ABSENT else l))
            if name == "setdefault" and g is not FALSE:
                I.emit("setitem", o, k, d)
                I.dict_set(o, k, r)
            return r
        return I.split(k, one)
    if name == "update":
        for a in args:
            L.dict_update(I, o, a)
        for k, v in kwargs:
            I.setitem(o, const(k), v)
        return NONE
    if name in ("copy", "__copy__"):
        return shallow(I, o)
    if name == "clear":
        I.emit("setitem", o, NONE, NONE)
        for g, k in I.dict_keys(o) or []:
            I.dict_del(o, k)
        I.put((oid, "$keys"), raw("keys"))
        return NONE
    if name == "empty":
        return b_not(L.truth(I, o))
    if name in ("__contains__", "has_key"):
        return L.contains_(I, o, args[0])
    if name == "__getitem__":
        return L.obj_getitem(I, o, args[0])
    if name == "__setitem__":
        L.obj_setitem(I, o, args[0], args[1])
        return NONE
    if name == "__delitem__":
        L.delitem(I, o, args[0])
        return NONE
    if name == "__len__":
        s = L.seq_of(I, o)
        return L.items_len(I, s)
    if name == "popitem":
        ks = I.dict_keys(o)
        if ks:
            k = ks[-1][1]
            v = I.dict_get(o, k)
            I.dict_del(o, k)
            return raw("tuple", k, v)
    if name in ("toDict", "toOrderedDict"):
        return deepcopy(I, o)
    if name in ("__repr__", "__str__", "bannerStr"):
        return raw("app", "str", I.opaque_arg(o))
    if name in ("__setattr__",):
        I.dict_set(o, args[0], args[1])
        return NONE
    I.emit("method-opaque", o, const(name), *args)
    return raw("app", "dict." + name, *[I.opaque_arg(a) for a in args])


def set_method(I, o, name, args, kwargs):
    if name == "add":
        I.dict_set(o, args[0], TRUE)
        return NONE
    if name in ("discard", "remove"):
        if I.dict_get(o, args[0]) is not ABSENT:
            I.dict_del(o, args[0])
        return NONE
    if name in ("union", "intersection", "difference"):
        other = b_set(I, args[:1], [])
        return L.container_binop(I, {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name], o, other)
    if name == "update":
        for a in args:
            for g, x in iter_items(I, a) or []:
                I.branch(g, lambda: I.dict_set(o, x, TRUE), lambda: None)
        return NONE
    if name == "copy":
        return shallow(I, o)
    if name in ("issubset", "issuperset", "isdisjoint"):
        a = [k for _, k in I.dict_keys(o) or []]
        b = [x for _, x in iter_items(I, args[0]) or []]
        return const({"issubset": all(x in b for x in a), "issuperset": all(x in a for x in b), "isdisjoint": not any(x in a for x in b)}[name])
    return raw("app", "set." + name)


def instdict_method(I, v, name, args, kwargs):
    o = v.args[0]
    fields = [(k[1], I.get(k)) for k in list(I.h) if k[0] == o.args[0] and isinstance(k[1], str) and not k[1].startswith("$")]
    d = I.new_dict()
    for n, x in fields:
        if x is not ABSENT:
            I.dict_set(d, const(n), x)
    if name in ("update", "setdefault", "pop", "__setitem__", "clear", "popitem"):
        if name == "update":
            new = I.new_dict()
            for a in args:
                L.dict_update(I, new, a)
            for k, x in kwargs:
                I.dict_set(new, const(k), x)
            for g, k in I.dict_keys(new) or []:
                if is_str(k):
                    I.branch(g, lambda: I.put((o.args[0], cval(k)), I.dict_get(new, k)), lambda: None)
            return NONE
        r = dict_method(I, d, name, args, kwargs)
        if I.pc is not FALSE:
            keys = dict(fields)
            for g, k in I.dict_keys(d) or []:
                keys.pop(cval(k), None)
                I.put((o.args[0], cval(k)), I.dict_get(d, k))
            for n in keys:
                I.put((o.args[0], n), ABSENT)
        return r
    return dict_method(I, d, name, args, kwargs)


def str_method(I, v, name, args, kwargs):
    if is_str(v) and all(is_const(a) for a in args) and not kwargs and name not in ("format", "join", "encode"):
        try:
            r = getattr(cval(v), name)(*[cval(a) for a in args])
        except Exception as e:
            return I.raise_(type(e).__name__, const(str(e)))
        if isinstance(r, list):
            return I.new_list([const(x) for x in r])
        if isinstance(r, tuple):
            return raw("tuple", *[const(x) for x in r])
        return const(r)
    if name == "join" and args:
        its = iter_items(I, args[0])
        if its is not None and all(g is TRUE for g, _ in its):
            parts = []
            for i, (g, x) in enumerate(its):
                if i:
                    parts.append(v)
                parts.append(x)
            return L.concat_str(I, parts)
    if name == "format" and is_str(v):
        import string
        parts, i = [], 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(cval(v)):
                parts.append(const(lit))
                if fld is not None:
                    if fld == "" or fld.isdigit():
                        x = args[int(fld) if fld else i]
                        i += 1
                    else:
                        x = dict(kwargs)[fld]
                    parts.append(L.to_str(I, x) if not spec else raw("app", "format", I.opaque_arg(x), const(spec)))
            return L.concat_str(I, parts)
        except (KeyError, IndexError):
            pass
    if name == "encode":
        return raw("bytes", v)
    if name == "decode":
        if kind_of(I, v) == "bytes":
            return const(cval(v).decode()) if v.op == "const" else raw("app", "decode", v)
        return I.raise_("AttributeError", const("decode"))
    if is_str(v) and name in ("startswith", "endswith") and len(args) == 1 and args[0].op == "tuple" and all(is_str(x) for x in args[0].args):
        return const(getattr(cval(v), name)(tuple(cval(x) for x in args[0].args)))
    if name in ("startswith", "endswith", "isdigit", "isidentifier", "isalpha"):
        return atom_of(raw("app", "str." + name, v, *args))
    if name in ("is_integer",):
        return atom_of(raw("app", name, v))
    if v.op == "const" and v.args[0] in ("int", "float", "bool"):
        return array_method(I, v, name, args, kwargs)
    return raw("app", "str." + name, v, *[I.opaque_arg(a) for a in args])


def path_method(I, v, name, args, kwargs):
    if name in ("expanduser", "absolute", "resolve", "as_posix"):
        return v
    if name in ("exists", "is_file", "is_dir"):
        return exists(I, v)
    if name == "mkdir":
        I.emit("mkdir", v, kwget((), kwargs, None, "exist_ok", FALSE), kwget((), kwargs, None, "parents", FALSE))
        return NONE
    if name == "open":
        return file_open(I, v, kwget(args, kwargs, 0, "mode", const("r")))
    if name == "joinpath":
        return raw("path", *(v.args + tuple(args)))
    if name in ("unlink", "rmdir", "rename", "touch", "write_text", "write_bytes"):
        I.emit("fs-mutate", v, const(name))
        return NONE
    return raw("app", "path." + name, v, *[I.opaque_arg(a) for a in args])


def xmethod(I, o, oi, name, args, kwargs):
    lab = oi.label
    if lab in ("h5file", "h5group"):
        return h5_method(I, o, oi, name, args, kwargs)
    if lab == "h5attrs":
        if name in ("get", "keys", "items", "values"):
            return dict_method(I, o, name, args, kwargs)
        if name in ("create", "modify"):
            xsetitem(I, o, oi, args[0], args[1])
            return NONE
    if lab == "h5dataset":
        if name in ("astype", "decode", "asstr"):
            if name == "asstr":
                return o
            return call_method(I, h5_read(I, o), name, args, kwargs)
        if name == "__getitem__":
            return xgetitem(I, o, oi, args[0])
        if name in ("__array__",):
            return h5_read(I, o)
    if lab == "graph":
        return graph_method(I, o, name, args, kwargs)
    if lab == "registry":
        if name == "get":
            return I.split(args[0], lambda k: reg_get(I, o, k, args[1:], kwargs))
        if name == "get_class":
            return reg_class(I, o, args[0])
        if name in ("items", "keys", "values"):
            return dict_method(I, o, name, args, kwargs)
        if name == "register":
            if args and args[0].op == "cls":
                an = I.get((o.args[0], "attr_name"))
                k = I.class_attr(args[0].args[0], cval(an))
                I.dict_set(o, k, args[0])
                I.emit("register", o, k, args[0])
                return args[0]
            return raw("extm", o, "$register:" + (cval(args[0]) if args else ""))
        if name.startswith("$register:"):
            I.dict_set(o, const(name[10:]), args[0])
            I.emit("register", o, const(name[10:]), args[0])
            return args[0]
    if lab == "handler":
        if name == "setLevel":
            I.put((o.args[0], "level"), levelno(I, args[0]))
            I.emit("set-level", o, args[0])
            return NONE
        fl = F(I, o, "filters")
        if name == "addFilter":
            if I.truth(L.contains_(I, fl, args[0])) is not TRUE:
                c = I.truth(L.contains_(I, fl, args[0]))
                I.branch(c, lambda: None, lambda: L.list_append(I, fl, args[0]))
            return NONE
        if name == "removeFilter":
            c = I.truth(L.contains_(I, fl, args[0]))
            I.branch(c, lambda: list_method(I, fl, "remove", [args[0]], []), lambda: None)
            return NONE
        if name in ("setFormatter", "flush", "close", "acquire", "release"):
            if name == "setFormatter":
                I.put((o.args[0], "formatter"), args[0])
            return NONE
    if lab == "logger":
        if name in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log"):
            I.emit("log", const(name), *args)
            return NONE
        if name == "setLevel":
            I.put((o.args[0], "level"), levelno(I, args[0]))
            return NONE
        if name == "addHandler":
            hs = F(I, o, "handlers")

            def addh(h):
                c = I.truth(L.contains_(I, hs, h))
                I.branch(c, lambda: None, lambda: L.list_append(I, hs, h))
            I.split(args[0], addh)
            return NONE
        if name == "removeHandler":
            hs = F(I, o, "handlers")
            c = I.truth(L.contains_(I, hs, args[0]))
            I.branch(c, lambda: list_method(I, hs, "remove", [args[0]], []), lambda: None)
            return NONE
        if name in ("hasHandlers", "isEnabledFor"):
            return atom_of(raw("app", name, o))
        if name == "getChild":
            return get_logger(I, [L.concat_str(I, [F(I, o, "name"), const("."), args[0]])])
        return NONE
    if lab == "file":
        if name == "close":
            I.put((o.args[0], "closed"), TRUE)
            return NONE
        if name == "write":
            I.emit("file-write", o, *args)
            if args and args[0].op == "yamltext":
                I.put(("FS", F(I, o, "path")), args[0].args[0])
            return NONE
        if name == "read":
            c = I.get(("FS", F(I, o, "path")))
            return raw("yamltext", c) if c is not ABSENT and c.op == "obj" else raw("app", "read", F(I, o, "path"))
        return NONE
    if lab == "rng":
        return rand_call(I, name, args, kwargs, tag=raw("rngprivate", o))
    I.emit("method-opaque", o, const(name), *args)
    return raw("app", "m:" + name, const(lab), *[I.opaque_arg(a) for a in args])


def reg_class(I, o, k):
    v = I.dict_get(o, k)
    if v is ABSENT:
        if not is_const(k):
            return raw("app", "regclass", k)
        return I.raise_("RegistryKeyError", k)
    return v


def reg_get(I, o, k, args, kwargs):
    c = reg_class(I, o, k)
    if I.pc is FALSE:
        return BOTTOM
    return I.call(c, list(args), kwargs)


def h5_method(I, o, oi, name, args, kwargs):
    if name == "create_group":
        return h5_put(I, o, args[0], None, "group")
    if name == "create_dataset":
        d = kwget(args, kwargs, None, "data")
        if d is None and len(args) > 3:
            d = args[3]
        if d is None:
            d = np_full(I, kwget(args, kwargs, 1, "shape", const(0)), const(0.0))
        k = np_dtype(I, kwget(args, kwargs, 2, "dtype"))
        if kwget((), kwargs, None, "scaleoffset", NONE) is not NONE:
            k = "f2"                       # keeps a fixed number of digits
        if k in NARROW or k in ("int", "bool"):
            d = I.lift(lambda x: arr(I, cast(I, x, k)), as_array_value(I, d))
        return h5_put(I, o, args[0], d)
    if name == "require_group":
        return h5_walk(I, o, args[0], lambda g, last: I.split(
            I.dict_get(g, last), lambda v: v if v is not ABSENT else h5_put(I, o, args[0], None, "group")), create=True)
    if name == "close":
        I.put((o.args[0], "closed"), TRUE)
        return NONE
    if name in ("flush",):
        return NONE
    r = h5_root(I, o)
    if r is None or I.pc is FALSE:
        return BOTTOM
    if r.op == "ite":
        return I.split(r, lambda x: h5_method(I, x, I.oinfo(x), name, args, kwargs))
    if name in ("keys", "items", "values", "__iter__"):
        out = []
        for g, k in h5_keys(I, r):
            v = I.dict_get(r, k)
            v = map_leaves(v, lambda l: BOTTOM if l is ABSENT else l)
            out.append((g, k if name in ("keys", "__iter__") else v if name == "values" else raw("tuple", k, v)))
        return guarded_list(I, out)
    if name == "get":
        v = I.dict_get(r, args[0])
        return map_leaves(v, lambda l: (args[1] if len(args) > 1 else NONE) if l is ABSENT else l)
    if name == "__getitem__":
        return xgetitem(I, o, oi, args[0])
    if name == "__contains__":
        return xcontains(I, o, oi, args[0])
    return raw("app", "h5." + name, *[I.opaque_arg(a) for a in args])


def graph_method(I, g, name, args, kwargs):
    if name == "add_node":
        add_node(I, g, args[0], kwargs)
        return NONE
    if name == "add_edge":
        add_edge(I, g, args[0], args[1], kwargs=kwargs)
        return NONE
    if name in ("add_nodes_from", "add_edges_from"):
        for c, x in iter_items(I, args[0]) or []:
            if name == "add_nodes_from":
                I.branch(c, lambda: add_node(I, g, x, kwargs), lambda: None)
            else:
                I.branch(c, lambda: add_edge(I, g, I.unpack(x, 0, 2), I.unpack(x, 1, 2), kwargs=kwargs), lambda: None)
        return NONE
    if name == "copy":
        return deepcopy(I, g)
    if name == "is_directed":
        return F(I, g, "directed")
    if name in ("has_node", "__contains__"):
        return L.contains_(I, F(I, g, "_node"), args[0])
    if name == "has_edge":
        r = FALSE
        for c, e in graph_edges(I, g):
            if e.args[0] is args[0] and e.args[1] is args[1]:
                r = b_or(r, c)
        return r
    if name in ("successors", "neighbors"):
        return pred_succ(I, g, args[0], True)
    if name == "predecessors":
        return pred_succ(I, g, args[0], False)
    if name == "nodes":
        return b_list(I, [F(I, g, "_node")], [])
    if name == "edges":
        return guarded_list(I, graph_edges(I, g, kwget(args, kwargs, 1, "data", FALSE) is TRUE))
    if name in ("number_of_nodes", "order", "__len__"):
        return L.length(I, F(I, g, "_node"))
    if name == "number_of_edges":
        return L.length(I, guarded_list(I, graph_edges(I, g)))
    if name == "clear":
        I.put((g.args[0], "_node"), I.new_dict())
        I.put((g.args[0], "_adj"), I.new_dict())
        return NONE
    if name == "remove_node":
        dict_method(I, F(I, g, "_node"), "pop", [args[0]], [])
        adj = F(I, g, "_adj")
        dict_method(I, adj, "pop", [args[0], NONE], [])
        for c, u in I.dict_keys(adj) or []:
            I.split(I.dict_get(adj, u), lambda r: dict_method(I, r, "pop", [args[0], NONE], []) if r.op == "obj" else None)
        return NONE
    if name == "to_undirected":
        n = deepcopy(I, g)
        I.put((n.args[0], "directed"), FALSE)
        return n
    if name == "reverse":
        n = new_graph(I, TRUE)
        I.put((n.args[0], "_node"), deepcopy(I, F(I, g, "_node")))
        for c, e in graph_edges(I, g):
            I.branch(c, lambda: add_edge(I, n, e.args[1], e.args[0]), lambda: None)
        return n
    return raw("app", "graph." + name, *[I.opaque_arg(a) for a in args])


# ------------------------------------------------------------------------ xobj protocol
def call_obj(I, f, args, kwargs):
    oi = I.oinfo(f)
    if oi.kind == "dict" and oi.label == "nodes":
        d = kwget(args, kwargs, 0, "data", FALSE)
        if d is TRUE:
            return dict_method(I, f, "items", [], [])
        return b_list(I, [f], [])
    if oi.kind == "list":
        return f
    if oi.kind == "xobj":
        return raw("app", "call:" + oi.label, *[I.opaque_arg(a) for a in args])
    return I.raise_("TypeError", const("not callable"), f)


def xiter(I, o, oi):
    if oi.label in ("h5file", "h5group"):
        return h5_method(I, o, oi, "keys", [], [])
    if oi.label in ("registry", "h5attrs"):
        return guarded_list(I, I.dict_keys(o) or [])
    if oi.label == "graph":
        return F(I, o, "_node")
    if oi.label == "h5dataset":
        return h5_read(I, o)
    return None


def xgetitem(I, o, oi, k):
    lab = oi.label
    if lab in ("h5file", "h5group", "h5attrs"):
        fault(I, "look up")
        if I.pc is FALSE:
            return BOTTOM
    if lab in ("h5file", "h5group"):
        def get(g, last):
            if last is None:
                return g
            v = I.dict_get(g, last)
            if v is ABSENT:
                return I.raise_("KeyError", k)
            if v.op == "ite":
                gg = guard_of(v, lambda x: x is ABSENT)
                I.raise_if(gg, "KeyError", k)
                if I.pc is FALSE:
                    return BOTTOM
                v = simplify_under(map_leaves(v, lambda l: BOTTOM if l is ABSENT else l), b_not(gg))
            I.emit("h5-read", last, v)
            return v
        return h5_walk(I, o, k, get)
    if lab == "h5attrs":
        v = I.dict_get(o, k)
        if v is ABSENT:
            return I.raise_("KeyError", k)
        if v.op == "ite":
            gg = guard_of(v, lambda x: x is ABSENT)
            I.raise_if(gg, "KeyError", k)
            if I.pc is FALSE:
                return BOTTOM
            v = simplify_under(map_leaves(v, lambda l: BOTTOM if l is ABSENT else l), b_not(gg))
        return v
    if lab == "h5dataset":
        r = h5_read(I, o)
        if k.op == "tuple" and not k.args or k is ELLIPSIS or (k.op == "slice" and all(z is NONE for z in k.args)):
            return r
        return I.lift(lambda x: index(I, x, k), r)
    if lab == "registry":
        return I.split(k, lambda kk: reg_get(I, o, kk, [], []))
    if lab == "graph":
        return L.obj_getitem(I, F(I, o, "_adj"), k)
    return raw("app", "getitem", const(lab), I.opaque_arg(k))


def xsetitem(I, o, oi, k, v):
    lab = oi.label
    if lab in ("h5file", "h5group"):
        h5_put(I, o, k, v)
        return
    if lab == "h5attrs":
        fault(I, "write")
        if I.pc is FALSE:
            return
        w = h5_store_value(I, v)
        if I.pc is FALSE:
            return
        I.dict_set(o, k, w)
        I.emit("h5-attr", k, w)
        return
    if lab == "h5dataset":
        I.put((o.args[0], "value"), raw("store", F(I, o, "value"), k, val(I, v)))
        return
    if lab == "registry":
        I.dict_set(o, k, v)
        I.emit("register", o, k, v)
        return
    I.emit("setitem", o, k, v)


def xcontains(I, o, oi, x):
    if oi.label in ("h5file", "h5group"):
        r = h5_root(I, o)
        if r is None or I.pc is FALSE:
            return BOTTOM
        parts = h5_name(x)
        g = r
        for p in parts:
            if g.op != "obj":
                return atom_of(raw("in", x, raw("app", "h5")))
            v = I.dict_get(g, p)
            if v is ABSENT:
                return FALSE
            if v.op == "ite":
                return guard_of(v, lambda l: l is not ABSENT)
            g = v
        return TRUE
    if oi.label in ("registry", "h5attrs"):
        v = I.dict_get(o, x)
        if v is ABSENT and not is_const(x):
            return atom_of(raw("in", x, const(oi.label)))
        return guard_of(v, lambda l: l is not ABSENT) if v.op == "ite" else const(v is not ABSENT)
    if oi.label == "graph":
        return L.contains_(I, F(I, o, "_node"), x)
    return None


def xattr(I, o, oi, name, default):
    lab = oi.label
    v = I.get((o.args[0], name))
    if v is not ABSENT and v.op == "ite":
        g = guard_of(v, lambda x: x is ABSENT)
        if g is FALSE:
            return v
    if lab == "h5file" and name == "attrs":
        return I.split(F(I, o, "root"), lambda r: F(I, r, "attrs"))
    if lab == "graph" and name == "nodes":
        return F(I, o, "_node")
    if lab == "graph" and name in ("adj", "succ", "_succ"):
        return F(I, o, "_adj")
    if lab == "graph" and name == "edges":
        return guarded_list(I, graph_edges(I, o))
    if lab == "h5dataset":
        if name == "value":
            return h5_read(I, o)
        if name in ("shape", "size", "dtype", "ndim"):
            return I.getattr_(h5_read(I, o), name)
        if name == "decode":
            return I.missing_attr(o, name, default)
        if name not in ("attrs", "astype", "asstr", "__getitem__", "name"):
            return I.missing_attr(o, name, default)
    if lab == "file" and name == "name":
        return F(I, o, "path")
    if lab == "h5file" and name in ("filename", "name"):
        return F(I, o, "path")
    if lab == "logger" and name == "parent":
        return NONE
    if lab in ("object",):
        return I.missing_attr(o, name, default)
    return raw("extm", o, name)


def xsetattr(I, o, oi, name, v):
    I.put((o.args[0], name), v)
    return True


# ----------------------------------------------------------------------- scenario intrinsics
class Check:
    __slots__ = ("kind", "label", "guard", "a", "b", "loc", "site")

    def __init__(self, kind, label, guard, a, b, loc, site=None):
        self.kind, self.label, self.guard, self.a, self.b, self.loc = kind, label, guard, a, b, loc
        self.site = site


def label_of(args):
    for a in args:
        if is_str(a):
            return cval(a)
    return ""


def intrinsic(I, name, args, kwargs):
    def s(i, d=None):
        return cval(args[i]) if i < len(args) and is_const(args[i]) else d

    def dim(i):
        if i < len(args):
            a = args[i]
            return sym(cval(a), "int", ()) if is_str(a) else stripf(a)
        return sym("n", "int", ())
    if name == "real":
        return sym(s(0), "real", ())
    if name == "integer":
        return sym(s(0), "int", ())
    if name == "flag":
        return atom_of(sym(s(0), "flag", ()))
    if name == "text":
        return sym(s(0), "text", ())
    if name == "userval":
        # the value of the user's configuration file, or the default when it has none
        kind = {"bool": "flag", "real": "real", "str": "text", "int": "real"}.get(kind_of(I, args[1]), "opaque")
        return mk_ite(atom_of(raw("userhas", args[0])), sym("user:" + s(0), kind, ()), args[1])
    if name == "ufn":
        # arbitrary element-wise function of its arguments
        f = "u:" + s(0)
        ELEMENTWISE.add(f)
        return I.lift(lambda *xs: arr(I, raw("call", f, *xs)), *[val(I, a) for a in args[1:]])
    if name == "opaque":
        return sym(s(0), "opaque", ())
    if name in ("array", "arrayof", "opaque_arr"):
        return fresh(I, sym(s(0), "array", (dim(1),)))
    if name == "intarray":
        return fresh(I, sym(s(0), "int", (dim(1),)))
    if name in ("boolarray", "opaque_mask"):
        return fresh(I, sym(s(0), "mask", (dim(1),)))
    if name == "anyarray":
        return fresh(I, sym(s(0), "array", (dim(1),)))
    if name == "freeze" or name == "heapfreeze":
        return raw("frozenval", freeze(I, args[0]))
    if name == "hash_order":
        I.hash_order = int(cval(args[0]))
        return NONE
    if name == "rngstate":
        return rng_state(I, s(0, "np"))
    if name == "ASSUME":
        c = I.truth(args[0])
        I.pc = b_and(I.pc, c)
        return NONE
    if name in ("EQ", "SAME"):
        lab = cval(args[2]) if len(args) > 2 and is_str(args[2]) else ""
        a, b = args[0], args[1]
        if name == "EQ":
            a, b = freeze(I, a), freeze(I, b)
        I.checks.append(Check(name, lab, I.guard(), a, b, I.loc(), T.CUR.get("lib")))
        return NONE
    if name == "HOLDS":
        lab = cval(args[1]) if len(args) > 1 and is_str(args[1]) else ""
        v = I.truth(args[0])
        I.checks.append(Check("HOLDS", lab, I.guard(), v, TRUE, I.loc(), T.CUR.get("lib")))
        return NONE
    if name == "mark":
        I.marks = getattr(I, "marks", {})
        I.marks[s(0)] = (I.guard(), list(args[1:]), I.h.fork())
        I.emit("mark", *args)
        return NONE
    if name == "attempt":
        fr = I.frame
        outer = fr.exits
        fr.exits = []
        v = I.call(args[0], list(args[1:]), kwargs)
        mine = [e for e in fr.exits if e.kind == "raise"]
        outer.extend(e for e in fr.exits if e.kind != "raise")
        fr.exits = outer
        outs = []
        if I.pc is not FALSE:
            outs.append((I.pc, I.h, raw("tuple", TRUE, v) if v.op != "ite" else map_leaves(v, lambda x: raw("tuple", TRUE, x))))
        for e in mine:
            outs.append((e.pc, e.h, map_leaves(e.val, lambda x: raw("tuple", FALSE, x))))
        if not outs:
            return BOTTOM
        I.pc, I.h, r = I.merge_exits(outs)
        return r
    if name == "cell":
        return F(I, args[0], s(1))
    raise KeyError(name)
