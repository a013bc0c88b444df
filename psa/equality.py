"""Random interpretation of value-number terms.

Equality of abstract values is decided modulo arithmetic by evaluating both terms in a fixed
family of pseudo-random interpretations (Gulwani & Necula): free symbols become random reals,
uninterpreted operators become hash functions of their (rounded) arguments, arrays are their
generic element.  Nothing of the analysed program is executed: only terms are evaluated.  Equal
terms always evaluate equal; different terms agree on all sample points with negligible
probability.
"""
import sys
import math
import zlib
import numpy as np
from scipy import special as sp

from .terms import *
from .shape import shape_of, stripf, kind_of, ELEMENTWISE

sys.setrecursionlimit(200000)
N = 512
U64 = np.uint64
np.seterr(all="ignore")



# on every eighth sample point quantities take few values, so that values equal to a boundary are sampled
TIES = np.arange(N) % 8 == 5
GRID = np.array([0.5, 1.0, 2.0, 3.0])


# on some of these, values are nearly but not exactly equal
NEAR = np.arange(N) % 32 == 13
JITTER = np.where(NEAR, 10.0 ** (-3.0 - (np.arange(N) // 32) * 0.5), 0.0)


def tied(v, u, w):
    g = GRID[(4 * u).astype(int)]
    return np.where(TIES, np.where(NEAR, GRID[(2 * u).astype(int)], g) * (1 + JITTER * (w - 0.5)), v)


# on another eighth they are spread over many orders of magnitude, more often negative, and counts may be large
WIDE = np.arange(N) % 8 == 3


# and on a few more all of them share one very small or very large scale
SCALED = np.arange(N) % 32 == 9
SCALE = 10.0 ** np.where(np.arange(N) % 64 == 9, -3.0 - (np.arange(N) // 64) * 1.0, (np.arange(N) // 64) * 0.75)


# or some are very small next to others that are not
SMALL = np.arange(N) % 16 == 1


# masks are mostly true on half of the sample points
MASKP = np.where((np.arange(N) // 2) % 2 == 0, 0.5, 0.87)


def _mix(h):
    h = h.copy()
    h ^= h >> U64(30)
    h *= U64(0xbf58476d1ce4e5b9)
    h ^= h >> U64(27)
    h *= U64(0x94d049bb133111eb)
    h ^= h >> U64(31)
    return h


def _skey(s):
    return U64(zlib.crc32(s.encode()) * 2654435761 % (1 << 64) ^ len(s))


BASE = _mix(np.arange(1, N + 1, dtype=np.uint64) * U64(0x9E3779B97F4A7C15))


def _bits(v):
    """hashable form of the rounded values"""
    m, e = np.frexp(v)
    q = np.round(m * (1 << 30))
    top = q >= (1 << 30)
    q = np.where(top, q / 2, q)
    e = e + top
    bad = ~np.isfinite(v)
    q = np.where(bad, np.where(np.isnan(v), 7.0, np.sign(v) * 11.0), q)
    e = np.where(bad, 9999, e)
    q = np.where(v == 0, 0, q)
    e = np.where(v == 0, 0, e)
    return (q.astype(np.int64).astype(np.uint64) * U64(0x9E3779B97F4A7C15)) ^ (e.astype(np.int64).astype(np.uint64) << U64(48))


def hashv(name, *vals):
    h = np.full(N, _skey(name), dtype=np.uint64)
    h = _mix(h ^ BASE)
    for k, v in enumerate(vals):
        h = _mix((h * U64(31)) ^ _bits(v) ^ U64(k * 1099511628211 % (1 << 63)))
    return h


def u01(h):
    return (h >> U64(11)).astype(np.float64) / float(1 << 53)


FN1 = {"exp": np.exp, "log": np.log, "log10": np.log10, "log2": np.log2, "log1p": np.log1p, "expm1": np.expm1, "sin": np.sin,
       "cos": np.cos, "tan": np.tan, "arcsin": np.arcsin, "arccos": np.arccos, "arctan": np.arctan, "sinh": np.sinh, "cosh": np.cosh,
       "tanh": np.tanh, "abs": np.abs, "fabs": np.abs, "floor": np.floor, "ceil": np.ceil, "rint": np.rint, "round": np.rint,
       "trunc": np.trunc, "sign": np.sign, "expit": sp.expit, "logit": sp.logit, "gamma": sp.gamma, "gammaln": sp.gammaln,
       "norm.ppf": sp.ndtri, "norm.cdf": sp.ndtr, "erf": sp.erf, "erfinv": sp.erfinv,
       "norm.pdf": lambda x: np.exp(-x * x / 2) / math.sqrt(2 * math.pi), "int": np.trunc, "nan_to_num": np.nan_to_num}
FN2 = {"gammainc": sp.gammainc, "gammaincinv": sp.gammaincinv, "gammaincc": sp.gammaincc, "gammainccinv": sp.gammainccinv,
       "minimum": np.minimum, "maximum": np.maximum, "arctan2": np.arctan2, "mod": np.mod, "remainder": np.mod, "fmod": np.fmod,
       "floor_divide": np.floor_divide, "hypot": np.hypot}
ELEM = {"add", "mul", "pow", "neg", "le", "lt", "eq", "ne", "bite", "ite", "cast", "fresh", "tuple_"}
BOOLOPS = {"le", "lt", "eq", "ne", "bite"}


class Eval:
    def __init__(self, I):
        self.I = I
        self.memo = {}
        self.open_loops = {}
        self.loopmemo = {}
        self.lost = None
        self.nonce = 0
        np.seterr(all="ignore")

    # -- leaves
    def sym(self, t):
        name, kind = t.args[0], t.args[1] if len(t.args) > 1 else "opaque"
        h = hashv("sym:" + str(name))
        u = u01(h)
        w = u01(_mix(h ^ U64(77)))
        if kind in ("flag", "bool", "mask"):
            return (u < (MASKP if kind == "mask" else 0.5)).astype(float)
        if kind in ("int", "count"):
            v = np.where(WIDE, 1.0 + np.floor(np.exp(5 * w)), 1.0 + np.floor(u * 5))
            return np.where(SMALL & (w < 0.25), 0.0, v)
        if kind in ("text", "str", "opaque"):
            return 0.1 + 10 * u
        v = np.exp(3 * (u - 0.5))
        v = np.where(w < 0.5, 0.05 + 0.9 * u, v)
        v = np.where(w < 0.08, np.floor(u * 3), v)
        v = np.where((w > 0.95), -v, v)
        v = np.where(WIDE, np.exp(14 * (u - 0.5)) * np.where(w < 0.15, -1.0, 1.0), v)
        v = np.where(SCALED, np.exp(3 * (u - 0.5)) * SCALE, v)
        v = np.where(SMALL, np.where(w < 0.3, 10.0 ** (-2 - 8 * u), np.exp(3 * (u - 0.5))), v)
        return tied(v, u, w)

    def const(self, t):
        k, v = t.args[0], t.args[1]
        if k in ("int", "float", "bool"):
            return np.full(N, float(v))
        return 0.1 + 10 * u01(hashv("const:%s:%r" % (k, v)))

    def ev(self, t, path=()):
        t = stripf(t)
        if path and (t.op == "const" or shape_of(self.I, t) == () and t.op not in ("tuple", "seq", "flist")):
            path = ()
        key = (t.id, tuple(p.id if isinstance(p, Term) else ("x", p[1].id) for p in path))
        r = self.memo.get(key)
        if r is None:
            saved, self.lost = self.lost, None
            r = self.ev1(t, path)
            if r.dtype != np.float64:
                r = r.astype(np.float64)
            if t.op == "call" and t.args[0] in NEAR_ONE and len(t.args) == 2:
                self.lose(np.abs(self.ev(t.args[1], path) - 1) < 1e-4)
            mine, self.lost = self.lost, saved
            self.memo[key] = r = (r, mine)
        if r[1] is not None:
            self.lost = r[1] if self.lost is None else self.lost | r[1]
        return r[0]

    def lose(self, where):
        """digits cancel on these samples: what is computed from here on says nothing there"""
        where = where & (SMALL | SCALED)
        if where.any():
            self.lost = where if self.lost is None else self.lost | where

    def certain(self, *terms):
        """samples on which none of the terms has lost its digits"""
        self.lost = None
        for t in terms:
            self.ev(t)
        r = self.lost
        self.lost = None
        return np.ones(N, bool) if r is None else ~r

    def num(self, h):
        u = u01(h)
        return tied(0.1 + 10 * u, u, u01(_mix(h ^ U64(77))))

    def leaf(self, name, vals, path):
        if not path:
            return self.num(hashv(name, *vals))
        v = self.num(hashv(name, *vals))
        return self.indexed(v, path)

    def canon_idx(self, i):
        i = stripf(i)
        if i.op == "call" and i.args[0] == "nonzero":
            return stripf(i.args[1])
        if i.op == "tuple" and len(i.args) == 1:
            return self.canon_idx(i.args[0])
        return i

    def indexed(self, v, path):
        for p in path:
            if isinstance(p, tuple):
                v = self.num(hashv("expand", v, self.ev(p[1])))
            else:
                v = self.num(hashv("index", v, self.ev(p)))
        return v

    def bit(self, t):
        """boolean value of an atom"""
        t = stripf(t)
        op = t.op
        if op in ("le", "lt", "bite"):
            return self.ev(t) != 0
        if op == "sym":
            k = t.args[1] if len(t.args) > 1 else "opaque"
            if k in ("flag", "bool", "mask"):
                return self.ev(t) != 0
            return u01(hashv("truth", self.ev(t))) < 0.5
        if op == "const":
            return np.full(N, bool(t.args[1]))
        if op in ("eq", "ne"):
            ks = {kind_of(self.I, x) for x in t.args}
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            close = np.abs(a - b) <= 1e-9 * (np.abs(a) + np.abs(b) + 1e-300)
            if not ks & {"real", "int", "bool"}:
                h = u01(hashv("sameq", np.minimum(a, b), np.maximum(a, b)))
                close = close | (h < 0.3)
            return close if op == "eq" else ~close
        if op == "truth":
            if kind_of(self.I, t.args[0]) in ("real", "int", "bool"):
                return self.ev(t.args[0]) != 0
        if op == "call" and t.args[0] in ("isfinite",):
            return np.isfinite(self.ev(t.args[1]))
        if op == "call" and t.args[0] == "isnan":
            return np.isnan(self.ev(t.args[1]))
        if op == "call" and t.args[0] in ("all", "any"):
            return self.pathbit(t.args[1], ())
        return u01(hashv("bit", self.ev(t))) < 0.5

    def loopsig(self, lid):
        r = self.loopmemo.get(lid)
        if r is not None:
            if r[1] is not None:
                self.lost = r[1] if self.lost is None else self.lost | r[1]
            return r[0]
        L = self.I.loops.get(lid)
        if L is None:
            return self.num(hashv("loop:?"))
        base = hashv("loop:%s:%s:%s" % (L["loc"][0], L["loc"][2], L["kind"]))
        if lid in self.open_loops:
            return self.num(base)
        self.open_loops[lid] = True
        saved = self.memo
        self.memo = {}
        before, self.lost = self.lost, None
        vals = []
        if L.get("iter") is not None:
            vals.append(self.ev(L["iter"]))
        if L.get("exit") is not None:
            vals.append(self.ev(L["exit"]))
        self.memo = saved
        del self.open_loops[lid]
        r = self.num(hashv("loopsig", self.num(base), *vals))
        if not self.open_loops:
            self.loopmemo[lid] = (r, self.lost)
        if before is not None:
            self.lost = before if self.lost is None else self.lost | before
        return r

    def cellname(self, k):
        if not isinstance(k, tuple):
            return str(k)
        if k[0] == "L":
            return "L:" + str(k[2])
        if isinstance(k[0], int):
            oi = self.I.oinfo_by_id(k[0])
            f = k[1]
            if isinstance(f, tuple):
                f = "k:" + show(f[1])
            return "O:%s:%s" % (oi, f)
        return ":".join(str(x) for x in k)

    def ev1(self, t, path):
        op, a = t.op, t.args
        I = self.I
        if op == "const":
            return self.const(t)
        if op == "sym":
            v = self.sym(t)
            return self.indexed(v, path) if path else v
        if op in ("ite", "bite"):
            c = self.bit(a[0]) if op == "ite" or not path else self.pathbit(a[0], path)
            return np.where(c, self.ev(a[1], path), self.ev(a[2], path))
        if op in ("add", "mul"):
            r = self.ev(a[0], path).copy()
            big = np.abs(r)
            for x in a[1:]:
                v = self.ev(x, path)
                if op == "add":
                    r = r + v
                    big = np.maximum(big, np.abs(v))
                else:
                    r = r * v
            if op == "add":
                self.lose(np.abs(r) < 1e-4 * big)
            return r
        if op == "neg":
            return -self.ev(a[0], path)
        if op == "pow":
            return np.power(self.ev(a[0], path), self.ev(a[1], path))
        if op in ("le", "lt", "eq", "ne"):
            if op in ("eq", "ne") and not path:
                return self.bit(t).astype(float)
            x, y = self.ev(a[0], path), self.ev(a[1], path)
            tie = np.abs(x - y) <= 1e-12 * (np.abs(x) + np.abs(y))
            r = {"le": ~(x > y) | tie, "lt": (x < y) & ~tie, "eq": (x == y) | tie, "ne": (x != y) & ~tie}[op]
            return r.astype(float)
        if op == "cast":
            k = a[0]
            k = k if isinstance(k, str) else (cval(k) if is_const(k) else "?")
            v = self.ev(a[1], path)
            if k == "int":
                return v if self.is_empty(stripf(a[1])) or kind_of(I, a[1]) == "int" else np.trunc(v)
            if k == "bool":
                return (v != 0).astype(float)
            return v
        if self.is_empty(t):
            return self.num(hashv("empty"))
        if op in ("full", "h5bool"):
            return self.ev(a[-1])
        if op == "count" and not path:
            return self.count(a[0])
        if op == "call":
            n = a[0]
            if n in FN1 and len(a) == 2:
                return FN1[n](self.ev(a[1], path))
            if n in FN2 and len(a) == 3:
                return FN2[n](self.ev(a[1], path), self.ev(a[2], path))
            if isinstance(n, str) and n.startswith("narrow:") and len(a) == 2:
                v = self.ev(a[1], path)
                if n[7] == "f":
                    # some nearby number, unless it is a small whole one
                    return np.where((v == np.trunc(v)) & (np.abs(v) < 2000), v, v * (1 + 1e-4 * (u01(hashv(n, v)) - 0.5)))
                m, s = (256.0 if n[8] == "1" else 65536.0), (0.5 if n[7] == "i" else 0.0)
                return v - m * np.floor(v / m + s)
            if n in ("isfinite", "isnan") and len(a) == 2:
                return (np.isfinite if n == "isfinite" else np.isnan)(self.ev(a[1], path)).astype(float)
            if n == "nonzero" and stripf(a[1]).op == "full" and stripf(a[1]).args[1] is TRUE:
                return self.leaf("call:arange", [self.ev(stripf(a[1]).args[0])], path)
            if n in ("all", "any") and len(a) == 2:
                return self.pathbit(a[1], ()).astype(float)
            if n == "array" and len(a) == 2 and a[1].op in ("seq", "tuple") and path and isinstance(path[0], Term) and is_num(path[0]) \
                    and all(shape_of(I, x) is not None for x in a[1].args):
                k = cval(path[0])
                if not isinstance(k, bool) and k == int(k) and -len(a[1].args) <= k < len(a[1].args):
                    return self.ev(a[1].args[int(k)], path[1:])
            if n == "clip" and len(a) == 4:
                v = self.ev(a[1], path)
                for x, f in ((a[2], np.maximum), (a[3], np.minimum)):
                    if x is not NONE:
                        v = f(v, self.ev(x, path))
                return v
            if n in ELEMENTWISE and n.startswith("u:rv:"):
                # placeholder of a random variate (rules/draws.py): a value its distribution can take
                u = u01(hashv("call:" + n, *[self.ev(x, path) for x in a[1:]]))
                if n == "u:rv:stdnormal":
                    return sp.ndtri(np.clip(u, 1e-12, 1 - 1e-12))
                if n in ("u:rv:stdexp", "u:rv:pareto", "u:rv:gamma"):
                    return -np.log1p(-u)
                if n == "u:rv:bernoulli":
                    return (u < 0.5).astype(float)
                return u
            if n in ELEMENTWISE:
                return self.num(hashv("call:" + n, *[self.ev(x, path) for x in a[1:]]))
            return self.leaf("call:" + str(n), [self.ev(x) for x in a[1:]], path)
        if op == "index":
            i = self.canon_idx(a[1])
            if i.op == "full" and i.args[1] is TRUE:
                return self.ev(a[0], path)
            p = (i,) + path
            if path and isinstance(path[0], tuple) and self.same(path[0][1], i):
                p = path[1:]
            return self.ev(a[0], p) if not (a[0].op in ("tuple", "seq", "flist")) else \
                self.leaf("tindex", [self.ev(a[0]), self.ev(i)], path)
        if op == "store":
            i = self.canon_idx(a[1])
            if kind_of(I, i) == "bool":
                c = self.ev(i, path) != 0
                sv = shape_of(I, a[2])
                if path and self.same(path[0], i) if path and isinstance(path[0], Term) else False:
                    return self.ev(a[2], path[1:])
                if sv == ():
                    return np.where(c, self.ev(a[2]), self.ev(a[0], path))
                return np.where(c, self.ev(a[2], (("x", i),) + path), self.ev(a[0], path))
            if path and isinstance(path[0], Term) and self.same(path[0], i):
                return self.ev(a[2], path[1:])
            return self.leaf("store", [self.ev(a[0]), self.ev(i), self.ev(a[2])], path)
        if op == "rand":
            kind = a[0]
            ps = [self.ev(x) for x in a[1:]]
            h = hashv("rand:" + str(kind if isinstance(kind, str) else show(kind)), *ps)
            u = u01(h)
            k = str(kind if isinstance(kind, str) else cval(kind))
            if k == "stdnormal":
                v = sp.ndtri(np.clip(u, 1e-12, 1 - 1e-12))
            elif k == "stdexp":
                v = -np.log1p(-u)
            elif k == "bernoulli":
                v = (u < 0.5).astype(float)
            elif k in ("poisson", "randint"):
                v = np.floor(u * 6)
            else:
                v = u
            return self.indexed(v, path) if path else v
        if op in ("phi", "mu", "last", "maplist", "mapstore", "iterelem"):
            lid = a[0]
            sig = self.loopsig(lid)
            vals = [sig]
            name = op
            for x in a[1:]:
                if isinstance(x, Term):
                    vals.append(self.ev(x))
                elif isinstance(x, (tuple, str, int)):
                    name += ":" + self.cellname(x)
            return self.leaf(name, vals, path)
        if op == "obj":
            oi = I.oinfo(t)
            return self.leaf("obj:%s" % (oi.cls.qual if oi is not None and oi.cls else oi.label if oi is not None else "?"), [], path)
        if op == "lam":
            vals = [self.ev(x) if isinstance(x, Term) else self.num(hashv("n:" + str(x))) for x in a]
            return self.leaf("lam", vals, path)
        if op == "bv":
            h = hashv("bv:" + ":".join(str(x) for x in a))
            return np.exp(2 * (u01(h) - 0.5))
        vals = []
        name = op
        for x in a:
            if isinstance(x, Term):
                vals.append(self.ev(x))
            else:
                name += ":" + (x if isinstance(x, str) else str(x))
        return self.leaf(name, vals, path)

    def is_empty(self, t):
        """arrays without elements"""
        if t.op == "call" and t.args[0] == "array" and t.args[1].op in ("seq", "tuple") and not t.args[1].args:
            return True
        if t.op == "call" and t.args[0] == "nonzero":
            return self.nothing(t.args[1])
        if t.op == "index":
            i = stripf(t.args[1])
            return self.nothing(i) or i.op == "slice" and i.args[1] is const(0) and i.args[0] in (NONE, const(0)) and i.args[2] in (NONE, const(1))
        if t.op in ("full", "ite", "add", "mul", "call"):
            sh = shape_of(self.I, t)
            return bool(sh) and len(sh) == 1 and sh[0] is const(0) and (t.op == "full" or t.op == "call" and t.args[0] in ("arange", "array"))
        return False

    def nothing(self, m):
        m = stripf(m)
        return m.op == "full" and m.args[1] is FALSE

    def count(self, m):
        """number of true entries: linear in the masks of one length on half of the samples (arrays with equal elements),
        elsewhere only complementary (count(m) + count(not m) = length)"""
        v = self.pathbit(m, ()).astype(float)
        sh = shape_of(self.I, m)
        if not sh or len(sh) != 1:
            return self.num(hashv("count", v))
        n = self.ev(sh[0])
        f = u01(hashv("share", n))
        f = np.where(u01(hashv("flat", n)) < 0.5, v, np.where(v != 0, f, 1 - f))
        return n * f

    def pathbit(self, t, path):
        t = stripf(t)
        if shape_of(self.I, t) == ():
            return self.bit(t)
        if t.op in BOOLOPS or t.op in ("index", "store", "full"):
            return self.ev(t, path) != 0
        v = self.ev(t, path)
        if kind_of(self.I, t) in ("bool", "int", "real") and t.op in ("cast", "rand"):
            return v != 0
        return u01(hashv("bit", v)) < 0.5

    def same(self, x, y):
        if x is y:
            return True
        if not isinstance(x, Term):
            return False
        return not mism(self.ev(x), self.ev(y)).any()


def mism(a, b):
    d = np.abs(a - b)
    tol = 1e-7 * (np.abs(a) + np.abs(b)) + 1e-12
    ok = (d <= tol) | (a == b) | (np.isnan(a) & np.isnan(b))
    # quantities that are tiny throughout (fluxes of cosmological sources) are compared relative to themselves only;
    # single tiny samples are rounding noise
    tiny = ok & (a != b) & (np.abs(a) + np.abs(b) < 1e-25) & (d > 1e-7 * (np.abs(a) + np.abs(b)))
    if np.mean(tiny) > 0.25:
        ok = ok & ~tiny
    # overflow on the wide sample points says nothing
    return ~(ok | (WIDE | SCALED) & ~(np.isfinite(a) & np.isfinite(b)))


# functions whose value near one depends on digits that a sum with one has lost
NEAR_ONE = {"log", "log10", "log2", "arccos", "arcsin"}
OPAQUE_OPS = {"app", "call"}


def opaques(t):
    out = set()
    for x in subterms(t):
        if x.op == "app":
            out.add(str(x.args[0]))
        elif x.op == "call" and x.args[0] not in FN1 and x.args[0] not in FN2 and not str(x.args[0]).startswith(("u:", "narrow:")):
            out.add(str(x.args[0]))
    return out


class Verdict:
    def __init__(self, equal, where=None, a=None, b=None, points=0, why=None, active=N):
        self.equal, self.where, self.a, self.b, self.points, self.why, self.active = equal, where, a, b, points, why, active


def guard_mask(E, g):
    if g is TRUE:
        return np.ones(N, bool)
    return E.ev(g) != 0


def equal(I, a, b, guard=TRUE, E=None):
    """Verdict for two terms under a guard"""
    E = E or Eval(I)
    if a is b:
        return Verdict(True)
    m = guard_mask(E, guard)
    if not m.any():
        return Verdict(True, why="guard not sampled", active=0)
    va, vb = E.ev(a), E.ev(b)
    d = mism(va, vb) & m & E.certain(a, b, guard)
    n = int(d.sum())
    if n <= 1:
        return Verdict(True, active=int(m.sum()))
    w, x, y = locate(I, E, a, b, m)
    return Verdict(False, w, x, y, n, active=int(m.sum()))


def locate(I, E, a, b, m, path=""):
    """descend structurally to the first component that differs"""
    a, b = stripf(a), stripf(b)
    for _ in range(200):
        if a.op == "ite":
            c = E.ev(a.args[0] if False else a.args[0])
            # follow the alternative on which the terms differ
            bit = E.bit(a.args[0])
            d = mism(E.ev(a), E.ev(b)) & m
            side = bit if (d & bit).sum() >= (d & ~bit).sum() else ~bit
            nxt = a.args[1] if side is bit else a.args[2]
            m = m & side
            a = stripf(nxt)
            continue
        if b.op == "ite":
            bit = E.bit(b.args[0])
            d = mism(E.ev(a), E.ev(b)) & m
            side = bit if (d & bit).sum() >= (d & ~bit).sum() else ~bit
            nxt = b.args[1] if side is bit else b.args[2]
            m = m & side
            b = stripf(nxt)
            continue
        break
    structural = ("fobj", "fdict", "flist", "tuple", "seq", "item", "frozenval", "store")
    if a.op == b.op and a.op in structural:
        if a.op in ("fobj", "fdict"):
            da = {show(x.args[0]): x for x in a.args if isinstance(x, Term) and x.op == "item"}
            db = {show(x.args[0]): x for x in b.args if isinstance(x, Term) and x.op == "item"}
            for k in da:
                if k not in db:
                    return path + "." + k.strip("'"), da[k], ABSENT
                if (mism(E.ev(da[k]), E.ev(db[k])) & m).sum() > 1:
                    return locate(I, E, da[k].args[1], db[k].args[1], m, path + "." + k.strip("'"))
            for k in db:
                if k not in da:
                    return path + "." + k.strip("'"), ABSENT, db[k]
        elif len(a.args) == len(b.args):
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                if isinstance(x, Term) and isinstance(y, Term) and (mism(E.ev(x), E.ev(y)) & m).sum() > 1:
                    return locate(I, E, x, y, m, path + "[%d]" % i)
    return path, a, b


def holds(I, t, guard=TRUE, E=None):
    """sample points on which a boolean term is false under the guard"""
    E = E or Eval(I)
    m = guard_mask(E, guard)
    if t is TRUE or not m.any():
        return Verdict(True, active=int(m.sum()))
    v = E.ev(t) != 0
    n = int((m & ~v & E.certain(t, guard)).sum())
    return Verdict(n == 0, a=t, points=n, active=int(m.sum()))
