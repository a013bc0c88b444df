"""Matching drawn values against the formula of their random variates.

A drawn value is a term over `rand(kind, generator, state, size, parameters)` nodes.  Its variates are replaced by placeholders (one per
generator state, so that mutually exclusive branches share one) applied to the parameters of the variate, and the result is compared with
the formula a driver writes with the same placeholders; what remains of a variate is its kind, its parameters and how many there are.
"""
from ..terms import raw, Term, subterms, show
from .c16 import rewrite

PLACEHOLDERS = '''
def slot(kind, i, *params):
    return ufn("rv:" + kind, array("psa_z%d" % i, N), *params)
'''


def depth(st):
    d = 0
    while isinstance(st, Term) and st.op == "rngnext":
        st, d = st.args[0], d + 1
    return d


def variates(t, given=()):
    """the rand nodes of t that are not already part of the given terms"""
    have = set()
    for g in given:
        have |= {x for x in subterms(g) if x.op == "rand"}
    return {x for x in subterms(t) if x.op == "rand" and x not in have}


def slots(t, given=(), outer=True):
    """rand node -> index; variates inside the parameters of another variate count as slots of their own"""
    rs = variates(t, given)
    order = sorted({(depth(r.args[2]), r.args[2].id, r.args[0]) for r in rs})
    return {r: order.index((depth(r.args[2]), r.args[2].id, r.args[0])) for r in rs}, [k for _, _, k in order]


def substitute(t, given=()):
    """t with its variates as placeholders; (term, kinds in drawing order, rand nodes)"""
    where, kinds = slots(t, given)
    table = {}
    for r in sorted(where, key=lambda r: r.id):
        z = raw("sym", "psa_z%d" % where[r], "array", ())
        table[r] = (z, r)
    return where, kinds


def formula(ctx, sc, rule, subject, drawn, refs, kinds, n, given=(), guard=None, what="the drawn value"):
    """drawn (a term) must be one of refs (terms written with slot(kind, i, ...)) and use exactly these variates, n of each"""
    where, have = slots(drawn, given)
    loc = drawn.loc
    if not loc:
        for x in subterms(drawn):
            if x.loc and str(x.loc[0]).startswith("popsynth/"):
                loc = x.loc
                break
    if sorted(have) != sorted(kinds):
        ctx.violation(rule, subject, loc, "%s is made of %s, not of %s per object: %s" %
                      (what, describe(have), describe(kinds), show(drawn, 7)[:500]))
        return False
    for r in where:
        q = sc.equal(r.args[3], n) if isinstance(r.args[3], Term) else None
        if q is None or not q.equal:
            ctx.violation(rule, subject, r.loc or loc, "%s uses a %s variate of size %s, not one independent variate per object" %
                          (what, r.args[0], show(r.args[3], 4)))
            return False
    # placeholders are numbered per kind order of the reference
    names = {}
    for refz in refs:
        for x in subterms(refz):
            if x.op == "sym" and str(x.args[0]).startswith("psa_z"):
                names[x.args[0]] = x
    last = None
    for perm in permutations(have, kinds):
        memo = {}
        table = {}
        for r, i in sorted(where.items(), key=lambda p: p[0].id):
            z = names.get("psa_z%d" % perm[i])
            if z is None:
                continue
            ps = [rewrite(p, table) for p in r.args[4:]]
            table[r] = raw("call", "u:rv:" + r.args[0], z, *ps)
        got = rewrite(drawn, table)
        for ref in refs:
            q = sc.equal(got, ref, guard) if guard is not None else sc.equal(got, ref)
            if q.equal:
                if not q.active:
                    ctx.undecided(rule, subject, "no sample satisfies the guard")
                else:
                    ctx.discharge(rule, subject)
                return True
            last = got
    ctx.violation(rule, subject, loc, "%s is %s, not %s" % (what, show(last if last is not None else drawn, 8)[:600], " or ".join(show(r, 8)[:400] for r in refs)))
    return False


def describe(kinds):
    names = {"u01": "uniform", "stdnormal": "normal", "stdexp": "exponential"}
    return ", ".join("one %s variate" % names.get(k, k) for k in kinds) or "no variate"


def permutations(have, kinds):
    """assignments of the drawn variates to the placeholders of the formula that respect the kinds"""
    from itertools import permutations as P
    for p in P(range(len(kinds))):
        if all(kinds[p[i]] == have[i] for i in range(len(have))):
            yield p


def marks(sc):
    return {k: m[1][0] for k, m in sc.I.marks.items()}
