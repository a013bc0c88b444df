"""C34: probabilistic selections keep each object with the stated probability."""
from ..terms import subterms, show, raw, const, NONE
from . import catalog as K
from . import draws as D
from .c03 import DATA, QUANT
from .c16 import strip, rewrite

EXPLANATION = ("Every probabilistic selection the package defines (discovered from the registry) is evaluated abstractly, for each quantity it can be configured to "
               "judge, on its own and through draw_survey: the mask must be one Bernoulli variate per object whose probability is the documented function of the "
               "object's own value (inverse logit of strength times the distance to the boundary, in log10 or linear), or the configured constant; with progress bars "
               "each pass of the loop over all objects must draw its own variate of the same probability.")
ASSUMPTIONS = ("scipy.stats.bernoulli.rvs(p, size) delivers independent variates that are one with probability p",
               "scipy.special.expit is the inverse logit")

LOG = "sf.expit(%s * (np.log10(%s) - np.log10(%s)))"
LIN = "sf.expit(%s * (%s - %s))"


def proba(fmt, v):
    return fmt % ("real('s_strength')", v, "real('s_boundary')")


def soft(ctx, it, quant, how):
    src = DATA.replace("n = integer", "N = n = integer") + D.PLACEHOLDERS + "import scipy.special as sf\n" + it.build("s", extra="%s=True" % quant if quant in it.optional else "")
    src += "ASSUME(0 < real('s_boundary'))\n"
    for q in QUANT.values():
        src += "%s = data(%r, real('s_boundary'), real('s_boundary'))\nASSUME(0 < %s)\n" % (q, q, q)
    src += '''
b = freeze((VAL, DIST, LUM, FLUX))
s.set_observed_value(VAL)
s.set_distance(DIST)
s.set_luminosity(LUM)
s.set_observed_flux(FLUX)
%s
EQ((VAL, DIST, LUM, FLUX), b, 'judging leaves the values alone')
EQ(len(s.selection), n, 'number of judgements')
mark("drawn", freeze(s.selection))
mark("n", n)
mark("reference", freeze(slot("bernoulli", 0, %s) == 1))
''' % ({"": "s.select(n)", "log": "s.draw(n, use_log=True)", "linear": "s.draw(n, use_log=False)"}[how],
       proba(LIN if how == "linear" else LOG, QUANT[quant]))
    sc = ctx.scene("%s on %s %s" % (it.name, quant, how), src)
    ctx.check_all(sc, "side effects")
    m = D.marks(sc)
    D.formula(ctx, sc, "probability", sc.name, strip(m["drawn"]), [strip(m["reference"])], ["bernoulli"], m["n"], guard=sc.I.marks["reference"][0],
              what="the judgement of %s" % it.name)


def per_object(sc, t, n):
    """the value a loop over all objects leaves for the object of the pass; None if the judgements are not made in a loop"""
    if t.op == "maplist" and not t.args[1].args and sc.equal(t.args[3], n).equal:
        return strip(t.args[2])
    if t.op == "mapstore" and sc.equal(t.args[4], n).equal:
        i = strip(t.args[2])
        return strip(t.args[3]) if i.op == "iterelem" and i.args[0] == t.args[0] else None
    if t.op != "mu" or not sc.equal(t.args[3], n).equal:
        return None
    lid, init = t.args[0], strip(t.args[1])
    if init.op != "full":
        return None

    def at(x):
        x = strip(x)
        if x.op == "ite":
            a, b = at(x.args[1]), at(x.args[2])
            return None if a is None or b is None else raw("ite", x.args[0], a, b)
        if x.op == "store":
            i = strip(x.args[1])
            return strip(x.args[2]) if i.op == "iterelem" and i.args[0] == lid else None
        if x.op == "phi" and x.args[0] == lid:
            return init.args[1]
        return None
    return at(t.args[2])


def constant(ctx, it, progress):
    src = D.PLACEHOLDERS + it.build("s") + '''
N = integer("N")
s.select(N)
EQ(len(s.selection), N, "number of judgements")
mark("drawn", freeze(s.selection))
mark("n", N)
mark("p", real("s_probability"))
mark("reference", freeze(slot("bernoulli", 0, real("s_probability")) == 1))
'''
    sc = ctx.scene("%s%s" % (it.name, " with progress bars" if progress else ""), src, progress=progress)
    ctx.check_all(sc, "side effects")
    m = D.marks(sc)
    d = strip(m["drawn"])
    e = per_object(sc, d, m["n"])
    if e is not None:
        rs = {x for x in subterms(e) if x.op == "rand"}
        ok = len(rs) == 1 and all(r.args[0] == "bernoulli" and r.args[3] is NONE and sc.equal(r.args[4], m["p"]).equal for r in rs)
        ctx.expect(ok, "probability", sc.name, d.loc, "the judgement of one object is not one Bernoulli variate of the configured probability: %s" % show(e, 7)[:400])
        if ok:
            r, = rs
            st = r.args[2]
            ctx.expect(any(x.op == "phi" for x in subterms(st)), "independence", sc.name, r.loc, "the objects share one variate")
            q2 = [sc.equal(rewrite(e, {r: const(v)}), const(bool(v))).equal for v in (0, 1)]
            ctx.expect(all(q2), "probability", sc.name + " outcome", d.loc, "an object is not kept exactly when its Bernoulli trial succeeds: %s" % show(e, 7)[:400])
        return
    D.formula(ctx, sc, "probability", sc.name, d, [strip(m["reference"])], ["bernoulli"], m["n"], guard=sc.I.marks["reference"][0],
              what="the judgement of %s" % it.name)


def check(ctx):
    for it in K.kinds("sel"):
        sup = {c.name for c in it.ci.mro()}
        if "BernoulliSelection" in sup:
            ctx.run(constant, ctx, it, False)
            ctx.run(constant, ctx, it, True)
        elif "SoftFluxSelection" in sup:
            ctx.run(soft, ctx, it, "use_flux", "")
        elif "SoftSelection" in sup:
            for q in QUANT:
                for how in ("", "log", "linear"):
                    ctx.run(soft, ctx, it, q, how)
