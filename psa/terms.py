"""Abstract values: hash-consed value-number terms.

A term stands for the set of concrete values a variable can take, written as an
expression over the inputs of the analysed scenario.  Joins of two branches are
gates (`ite`) over boolean decision diagrams, which are kept reduced and ordered,
so that equal gates are one and the same node."""
import itertools
import math


class Term:
    __slots__ = ("op", "args", "id", "loc", "aux", "hasite", "size")

    def __repr__(self):
        return show(self)


_table = {}
_counter = itertools.count(1)
CUR = {"loc": None}           # location of the syntax node under analysis


def raw(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, next(_counter)
        t.loc = CUR["loc"]
        t.aux = None
        t.hasite = op == "ite"
        sz = 1
        for a in args:
            if isinstance(a, Term):
                sz += a.size
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term):
                        sz += b.size
        t.size = min(sz, 10 ** 9)
        _table[key] = t
    return t


def const(v):
    return raw("const", type(v).__name__, v)


TRUE, FALSE, NONE = const(True), const(False), const(None)
ABSENT, UNBOUND, BOTTOM = raw("absent"), raw("unbound"), raw("bottom")
NOTIMPL = raw("notimpl")
ELLIPSIS = raw("ellipsis")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def is_num(t):
    return t.op == "const" and t.args[0] in ("int", "float", "bool", "complex")


def is_str(t):
    return t.op == "const" and t.args[0] == "str"


# ------------------------------------------------------------------ decision diagrams
_ite_memo = {}


def atom_of(t):
    """a boolean decision node for an opaque truth value"""
    if t is TRUE or t is FALSE:
        return t
    if t.op == "ite":
        return t
    return raw("ite", t, TRUE, FALSE)


def top_var(t):
    return t.args[0] if t.op == "ite" else None


def cof(t, v, side):
    if t.op == "ite" and t.args[0] is v:
        return t.args[1] if side else t.args[2]
    return t


def mk_ite(c, a, b):
    """c: boolean diagram; a, b: any values"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is BOTTOM:
        return b
    if b is BOTTOM:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    v = c.args[0]
    for x in (a, b):
        if x.op == "ite" and x.args[0].id < v.id:
            v = x.args[0]
    t = mk_ite(cof(c, v, True), cof(a, v, True), cof(b, v, True))
    e = mk_ite(cof(c, v, False), cof(a, v, False), cof(b, v, False))
    r = t if t is e else raw("ite", v, t, e)
    _ite_memo[key] = r
    return r


def b_not(a):
    return mk_ite(a, FALSE, TRUE)


def b_and(a, b):
    return mk_ite(a, b, FALSE)


def b_or(a, b):
    return mk_ite(a, TRUE, b)


def implies(a, b):
    return b_and(a, b_not(b)) is FALSE


def leaves(t, limit=64):
    """set of leaves of a gated value, None if too many"""
    if t.op != "ite":
        return [t]
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            stack.append(x.args[2])
            stack.append(x.args[1])
        else:
            out.append(x)
            if len(out) > limit:
                return None
    return out


def map_leaves(t, fn, memo=None):
    if t.op != "ite":
        return fn(t)
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        r = mk_ite(atom_of(t.args[0]), map_leaves(t.args[1], fn, memo), map_leaves(t.args[2], fn, memo))
        memo[t.id] = r
    return r


def guard_of(t, pred, memo=None):
    """boolean diagram of the gates under which a leaf satisfying pred is chosen"""
    if t.op != "ite":
        return TRUE if pred(t) else FALSE
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        r = mk_ite(atom_of(t.args[0]), guard_of(t.args[1], pred, memo), guard_of(t.args[2], pred, memo))
        memo[t.id] = r
    return r


def bdd_restrict(t, facts):
    """simplify a gated value under known atoms {atom id: bool}"""
    if not facts or t.op != "ite":
        return t
    memo = {}

    def go(x):
        if x.op != "ite":
            return x
        r = memo.get(x.id)
        if r is None:
            k = facts.get(x.args[0].id)
            if k is None:
                t1, t2 = go(x.args[1]), go(x.args[2])
                r = t1 if t1 is t2 else raw("ite", x.args[0], t1, t2)
            else:
                r = go(x.args[1] if k else x.args[2])
            memo[x.id] = r
        return r
    return go(t)


def simplify_under(t, care):
    """simplify a gated value knowing that the diagram `care` holds (constrain-like restrict)"""
    if t.op != "ite" or care is TRUE or care is FALSE:
        return t
    memo = {}

    def go(x, c):
        if c is FALSE:
            return None
        if x.op != "ite" or c is TRUE:
            return x
        key = (x.id, c.id)
        if key in memo:
            return memo[key]
        v = x.args[0]
        if c.args[0].id < v.id:
            # c decides on an atom x does not look at first
            r = go(x, b_or(c.args[1], c.args[2]))
        else:
            a = go(cof(x, v, True), cof(c, v, True))
            b = go(cof(x, v, False), cof(c, v, False))
            if a is None:
                r = b
            elif b is None:
                r = a
            else:
                r = a if a is b else raw("ite", v, a, b)
        memo[key] = r
        return r
    r = go(t, care)
    return t if r is None else r


def literals(pc):
    """atoms whose value is forced by the diagram"""
    out = {}
    while pc.op == "ite":
        if pc.args[1] is FALSE:
            out[pc.args[0].id] = False
            pc = pc.args[2]
        elif pc.args[2] is FALSE:
            out[pc.args[0].id] = True
            pc = pc.args[1]
        else:
            break
    return out


# ------------------------------------------------------------ element-wise booleans
_bite_memo = {}
NUMERICISH = ("sym", "add", "mul", "pow", "rand", "call", "index", "app")


def el_atom(t):
    if t is TRUE or t is FALSE or t.op == "bite":
        return t
    if is_num(t):
        return TRUE if cval(t) else FALSE
    if t.op == "full":
        return el_atom(t.args[1])
    return raw("bite", t, TRUE, FALSE)


def el_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _bite_memo.get(key)
    if r is not None:
        return r
    v = c.args[0]
    for x in (a, b):
        if x.op == "bite" and x.args[0].id < v.id:
            v = x.args[0]

    def co(t, s):
        return (t.args[1] if s else t.args[2]) if t.op == "bite" and t.args[0] is v else t
    p, q = el_ite(co(c, 1), co(a, 1), co(b, 1)), el_ite(co(c, 0), co(a, 0), co(b, 0))
    r = p if p is q else raw("bite", v, p, q)
    _bite_memo[key] = r
    return r


def unatom(t):
    """bite(x, T, F) is x itself"""
    if t.op == "bite" and t.args[1] is TRUE and t.args[2] is FALSE:
        return t.args[0]
    return t


# ------------------------------------------------------------------------ arithmetic
def _fold(fn, *a):
    try:
        r = fn(*a)
        if isinstance(r, (int, float, bool)):
            return const(r)
    except Exception:
        pass
    return None


def mk_add(*xs):
    flat = []
    for x in xs:
        if x.op == "add":
            flat.extend(x.args)
        else:
            flat.append(x)
    c = 0
    coef = {}
    order = []
    for x in flat:
        if is_num(x):
            c = c + cval(x)
            continue
        k, base = 1, x
        if x.op == "mul" and is_num(x.args[0]):
            k = cval(x.args[0])
            base = mk_mul(*x.args[1:]) if len(x.args) > 2 else x.args[1]
        if base.id not in coef:
            coef[base.id] = [0, base]
            order.append(base.id)
        coef[base.id][0] += k
    out = []
    for i in sorted(order):
        k, base = coef[i]
        if k == 0:
            continue
        out.append(base if k == 1 else mk_mul(const(k), base))
    if c != 0 or not out:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return raw("add", *out)


def mk_mul(*xs):
    flat = []
    for x in xs:
        if x.op == "mul":
            flat.extend(x.args)
        else:
            flat.append(x)
    c = 1
    exps = {}
    order = []
    for x in flat:
        if is_num(x):
            c = c * cval(x)
            continue
        base, e = x, const(1)
        if x.op == "pow" and is_num(x.args[1]):
            base, e = x.args
        if base.id not in exps:
            exps[base.id] = [0, base]
            order.append(base.id)
        exps[base.id][0] += cval(e)
    if c == 0 and not any(t.op in ("sym",) and False for t in flat):
        if not order:
            return const(c)
    out = []
    for i in sorted(order):
        e, base = exps[i]
        if e == 0:
            continue
        out.append(base if e == 1 else raw("pow", base, const(e)))
    if not out:
        return const(c)
    out.sort(key=lambda t: t.id)
    if c == 1:
        return out[0] if len(out) == 1 else raw("mul", *out)
    return raw("mul", const(c), *out)


def mk_pow(a, b):
    if is_num(a) and is_num(b):
        r = _fold(lambda p, q: p ** q, cval(a), cval(b))
        if r is not None:
            return r
    if is_num(b):
        if cval(b) == 1:
            return a
        if cval(b) == 0:
            return const(1)
        if a.op == "pow" and is_num(a.args[1]) and float(cval(b)).is_integer():
            return mk_pow(a.args[0], const(cval(a.args[1]) * cval(b)))
        if a.op == "mul" and float(cval(b)).is_integer():
            return mk_mul(*[mk_pow(x, b) for x in a.args])
        if isinstance(cval(b), float) and cval(b).is_integer():
            b = const(int(cval(b)))
    return raw("pow", a, b)


def mk_neg(a):
    return mk_mul(const(-1), a)


def mk_div(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        return const(cval(a) / cval(b))
    if is_num(b) and cval(b) != 0:
        return mk_mul(a, const(1 / cval(b))) if cval(b) not in (1,) else a
    return mk_mul(a, mk_pow(b, const(-1)))


def mk_cmp(op, a, b):
    """element-wise / scalar comparison; result is an atom (not a diagram)"""
    if op == "gt":
        return mk_cmp("lt", b, a)
    if op == "ge":
        return mk_cmp("le", b, a)
    if is_num(a) and is_num(b):
        x, y = cval(a), cval(b)
        return const({"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y}[op])
    if is_const(a) and is_const(b):
        if op in ("eq", "ne"):
            return const((cval(a) == cval(b)) == (op == "eq"))
        try:
            x, y = cval(a), cval(b)
            return const({"lt": x < y, "le": x <= y}[op])
        except TypeError:
            pass
    if op == "eq" or op == "ne":
        if a is b and a.op in ("sym", "const", "obj", "cls", "fn"):
            return const(op == "eq")
        if b.id < a.id:
            a, b = b, a
    return raw(op, a, b)


# ------------------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return ".."
    d = depth - 1
    o, a = t.op, t.args
    if o == "const":
        return repr(a[1])
    if o == "sym":
        return str(a[0])
    if o == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return "not " + show(a[0], d)
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if o == "bite":
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return "~" + show(a[0], d)
        if a[2] is FALSE:
            return "(%s & %s)" % (show(a[0], d), show(a[1], d))
        if a[1] is TRUE:
            return "(%s | %s)" % (show(a[0], d), show(a[2], d))
        return "where(%s, %s, %s)" % tuple(show(x, d) for x in a)
    if o == "add":
        return "(" + " + ".join(show(x, d) for x in a) + ")"
    if o == "mul":
        return "(" + "*".join(show(x, d) for x in a) + ")"
    if o == "pow":
        return "%s**%s" % (show(a[0], d), show(a[1], d))
    if o in ("le", "lt", "eq", "ne"):
        return "(%s %s %s)" % (show(a[0], d), {"le": "<=", "lt": "<", "eq": "==", "ne": "!="}[o], show(a[1], d))
    if o == "obj":
        return "<%s>" % (a[1],)
    if o in ("cls", "fn"):
        return getattr(a[0], "qual", str(a[0]))
    if o == "ext":
        return a[0]
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if o == "rand":
        return "%s#%s(%s)" % (a[0], show(a[2], d), ", ".join(show(x, d) for x in a[3:]))
    if o in ("call", "app", "mcall"):
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    if o == "index":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


def subterms(t, seen=None):
    """all subterms (iterative)"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(x.args)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))
