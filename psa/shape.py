"""Shape (number of elements) and kind domains on value-number terms."""
from .terms import *

ELEMENTWISE = {
    "exp", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh",
    "abs", "isfinite", "isnan", "isinf", "floor", "ceil", "rint", "sign", "expit", "logit", "gamma", "gammaln", "gammainc", "gammaincinv",
    "minimum", "maximum", "arctan2", "mod", "floor_divide", "norm.ppf", "norm.pdf", "norm.cdf", "erf", "clip", "trunc", "hypot",
    "bitwise_xor", "round", "fabs", "reciprocal", "iscloseE", "int", "nan_to_num", "remainder", "fmod",
    "frexp-m", "frexp-e", "exp2", "arcsinh", "arccosh", "arctanh", "signbit", "conjugate", "logaddexp", "logaddexp2", "copysign",
    "heaviside", "nextafter", "genpdf", "erfinv", "gammaincc", "gammainccinv", "truncnorm.ppf",
    "narrow:f4", "narrow:f2", "narrow:i1", "narrow:i2", "narrow:u1", "narrow:u2",
}
REDUCE = {"sum", "max", "min", "mean", "std", "median", "prod", "any", "all", "len", "quad", "quaderr", "trapz", "argmax", "argmin", "item",
          "var", "builtin_max", "builtin_min"}
BOOLCALLS = {"signbit", "isfinite", "isnan", "isinf", "logical_not", "all", "any", "isinstance"}
FORM = {"sort": 0, "cumsum": 0, "argsort": 0, "unwrap": 0, "reverse": 0, "permutation": 0}


def is_array(sh):
    return sh is not None and len(sh) > 0


def bc(*shapes):
    """numpy broadcasting of known shapes; None when something is unknown"""
    best = ()
    unknown = False
    for s in shapes:
        if s is None:
            unknown = True
            continue
        if len(s) > len(best):
            best = s
        elif len(s) == len(best) and len(s) == 1 and best[0] is const(1):
            best = s
    if unknown:
        return None
    return best


def stripf(t):
    while t.op == "fresh":
        t = t.args[0]
    return t


def shape_of(I, t, memo=None):
    r = t.aux
    if isinstance(r, dict) and "shape" in r and t.op not in ("obj",):
        return r["shape"]
    s = _shape(I, t)
    if t.op not in ("obj",) and s is not None:
        if not isinstance(t.aux, dict):
            t.aux = {}
        t.aux["shape"] = s
    return s


def _shape(I, t):
    op, a = t.op, t.args
    if op == "h5bool":
        return ()
    if op in ("fresh", "neg"):
        return shape_of(I, a[0])
    if op == "const":
        return () if a[0] in ("int", "float", "bool", "complex", "str", "bytes", "NoneType") else None
    if op == "sym":
        return a[2] if len(a) > 2 else ()
    if op in ("add", "mul", "pow", "le", "lt", "eq", "ne", "bite"):
        return bc(*[shape_of(I, x) for x in a])
    if op == "ite":
        ls = leaves(t, 32)
        if not ls:
            return None
        shs = [shape_of(I, x) for x in ls if x is not ABSENT and x is not BOTTOM]
        if shs and all(s is not None and s == shs[0] for s in shs):
            return shs[0]
        if shs and all(s is not None and len(s) > 0 for s in shs):
            guard = None
            dims = []
            for k in range(len(shs[0])):
                if all(len(s) == len(shs[0]) for s in shs):
                    dims.append(map_leaves(t, lambda l, k=k: (shape_of(I, l) or (const(0),) * 9)[k]))
                else:
                    return None
            return tuple(dims)
        return None
    if op == "rand":
        size = a[3]
        if size is NONE:
            return bc(*[shape_of(I, x) for x in a[4:]])
        if size.op == "tuple":
            return tuple(size.args)
        return (size,)
    if op == "full":
        return tuple(a[0].args) if a[0].op == "tuple" else (a[0],)
    if op in ("count", "len", "phi_k", "iterelem", "cast"):
        if op == "iterelem":
            return elem_shape(I, a[1])
        if op == "cast":
            return shape_of(I, a[1])
        return ()
    if op == "store":
        return shape_of(I, a[0])
    if op == "index":
        return index_shape(I, a[0], a[1])
    if op == "call":
        n = a[0]
        if n in ELEMENTWISE:
            return bc(*[shape_of(I, x) for x in a[1:]])
        if n in REDUCE:
            return ()
        if n in FORM:
            return shape_of(I, a[1])
        if n in ("linspace", "logspace", "geomspace"):
            return (a[3],) if len(a) > 3 else (const(50),)
        if n == "arange":
            if len(a) == 2:
                return (a[1],)
            return (raw("call", "arangelen", *a[1:]),)
        if n == "nonzero":
            return (count(I, a[1]),)
        if n == "repeat":
            s = shape_of(I, a[1])
            return (a[2],) if s == () else None
        if n in ("array", "array1"):
            x = a[1]
            if x.op in ("seq", "tuple", "flist"):
                if n == "array" and x.args and all(shape_of(I, y) == () for y in x.args):
                    return (const(len(x.args)),)
                if not x.args:
                    return (const(0),)
                s0 = shape_of(I, x.args[0])
                return None if s0 is None else (const(len(x.args)),) + s0
            if x.op in ("maplist", "listof"):
                return (x.args[3],) if x.op == "maplist" else (x.args[1],)
            return shape_of(I, x)
        if n == "concatenate":
            if a[1].op in ("tuple", "seq"):
                ds = [shape_of(I, y) for y in a[1].args]
                if all(d is not None and len(d) == 1 for d in ds):
                    return (mk_add(*[d[0] for d in ds]),)
            return None
        if n == "atleast_1d":
            s = shape_of(I, a[1])
            return (const(1),) if s == () else s
        return None
    if op == "mapstore":
        return shape_of(I, a[1])
    if op == "mu":
        return shape_of(I, a[1])
    if op == "phi":
        return shape_of(I, a[2]) if a[2] is not ABSENT else None
    if op == "maplist":
        return (mk_add(const(len(a[1].args)), a[3]) if a[1].args else a[3],)
    if op == "last":
        return shape_of(I, a[1])
    if op == "seq" or op == "tuple":
        return (const(len(a)),)
    if op == "bytes":
        return ()
    if op == "bv":
        return ()
    if op == "app":
        return None
    return None


def elem_shape(I, it):
    it = stripf(it)
    if it.op == "range":
        return ()
    s = shape_of(I, it)
    if s:
        return s[1:]
    return None


def index_shape(I, x, i):
    s = shape_of(I, x)
    if i.op == "tuple" and not i.args:
        return s
    if i.op == "slice":
        if not s:
            return None
        lo, hi, st = i.args
        if lo is NONE and hi is NONE and st in (NONE, const(-1)):
            return s
        return (raw("slicelen", s[0], lo, hi, st),) + tuple(s[1:])
    k = kind_of(I, i)
    si = shape_of(I, i)
    if si is None:
        return None
    if k == "bool" and len(si) == 1:
        return (count(I, i),) + (tuple(s[1:]) if s else ())
    if si == ():
        return tuple(s[1:]) if s else None
    return tuple(si) + (tuple(s[1:]) if s else ())


def count(I, m):
    """number of true entries of a mask"""
    m = stripf(m)
    if m.op == "full":
        v = m.args[1]
        s = shape_of(I, m)
        if v is TRUE or (is_num(v) and cval(v) == 1):
            return s[0]
        if v is FALSE or (is_num(v) and cval(v) == 0):
            return const(0)
    if m is TRUE:
        return const(1)
    if m.op == "bite" and m.args[1] is FALSE and m.args[2] is TRUE:
        s = shape_of(I, m)
        if s:
            return mk_add(s[0], mk_neg(raw("count", m.args[0])))
    if m.op == "ite":
        ls = leaves(m, 32)
        if ls is not None and len(ls) <= 32:
            return map_leaves(m, lambda l: count(I, l))
    if m.op == "lit" and False:
        return None
    return raw("count", m)


def kind_of(I, t):
    """'bool' | 'int' | 'real' | 'str' | 'none' | None"""
    op, a = t.op, t.args
    if op == "fresh":
        return kind_of(I, a[0])
    if op == "h5bool":
        return "bool"
    if op == "const":
        return {"bool": "bool", "int": "int", "float": "real", "str": "str", "NoneType": "none", "bytes": "bytes", "complex": "complex"}.get(a[0])
    if op == "sym":
        return {"flag": "bool", "mask": "bool", "real": "real", "array": "real", "int": "int", "text": "str"}.get(a[1])
    if op in ("le", "lt", "eq", "ne"):
        return "bool"
    if op == "bite":
        ks = {kind_of(I, x) for x in (a[1], a[2])}
        return ks.pop() if len(ks) == 1 else ("real" if ks <= {"int", "real"} else None)
    if op == "ite":
        ls = leaves(t, 32)
        if not ls:
            return None
        ks = {kind_of(I, x) for x in ls if x is not ABSENT and x is not BOTTOM}
        if len(ks) == 1:
            return ks.pop()
        if ks <= {"int", "real"}:
            return "real"
        return None
    if op == "add" or op == "mul":
        ks = {kind_of(I, x) for x in a}
        if ks <= {"int", "bool"}:
            return "int"
        return "real" if ks <= {"int", "real", "bool", None} else None
    if op == "pow":
        return "int" if kind_of(I, a[0]) == "int" and a[1].op == "const" and a[1].args[0] == "int" and a[1].args[1] >= 0 else "real"
    if op == "rand":
        return {"bernoulli": "int", "poisson": "int", "randint": "int", "boolrand": "bool"}.get(a[0], "real")
    if op == "full":
        return kind_of(I, a[1])
    if op in ("count", "len"):
        return "int"
    if op in ("index", "store", "mapstore", "mu", "phi", "last"):
        if op == "index":
            return kind_of(I, a[0])
        if op == "store":
            return kind_of(I, a[0])
        if op == "mu" or op == "mapstore":
            return kind_of(I, a[1])
        return None
    if op == "cast":
        return a[0]
    if op == "call":
        if a[0] in BOOLCALLS:
            return "bool"
        if a[0] in ("nonzero", "len", "argmax", "argmin", "arange", "int") or a[0][:8] in ("narrow:i", "narrow:u"):
            return "int"
        if a[0] in ("array", "array1", "repeat", "concatenate", "sort", "cumsum", "max", "min", "atleast_1d", "reverse"):
            x = a[1]
            if x.op in ("seq", "tuple", "flist") and x.args:
                ks = {kind_of(I, y) for y in x.args}
                return ks.pop() if len(ks) == 1 else None
            return kind_of(I, x)
        return "real"
    if op == "iterelem":
        it = stripf(a[1])
        return "int" if it.op == "range" else kind_of(I, it)
    if op == "app":
        return "str" if a[0] in ("concat", "str", "strof", "format", "strmod") else None
    if op in ("obj", "tuple", "seq"):
        return None
    if op == "bv":
        return "real"
    if op in ("bytes",):
        return "bytes"
    return None
