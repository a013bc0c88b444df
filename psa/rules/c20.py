"""C20: log-space and truncated samplers use one base and the configured bounds."""
from ..terms import mk_cmp, const, b_and, atom_of
from . import catalog as K
from . import draws as D
from .c16 import strip, rewrite

EXPLANATION = ("The log-normal, log10-normal and truncated samplers and distributions are drawn abstractly with symbolic parameters; the value drawn must be the formula of "
               "the property over one normal (or truncated normal) variate per object, with the truncation bounds handed to the variate equal to the configured bounds "
               "on the scale that is drawn, and the densities must have the same logarithm and base.")
ASSUMPTIONS = ("scipy.stats.truncnorm.rvs(a, b, loc, scale) delivers normal variates truncated at loc + a*scale and loc + b*scale",)

NORMAL = "loc + width * slot('stdnormal', 0)"
TRUNC = "loc + width * slot('truncnorm', 0, (%s - loc) / width, (%s - loc) / width)"
FORMULAS = {
    "NormalAuxSampler": (NORMAL, "stdnormal"),
    "LogNormalAuxSampler": ("np.exp(%s)" % NORMAL, "stdnormal"),
    "Log10NormalAuxSampler": ("np.power(10.0, %s)" % NORMAL, "stdnormal"),
    "LogNormalDistribution": ("np.exp(%s)" % NORMAL, "stdnormal"),
    "Log10NormalDistribution": ("np.power(10.0, %s)" % NORMAL, "stdnormal"),
    "TruncatedNormalAuxSampler": (TRUNC % ("lo", "up"), "truncnorm"),
    "TruncatedLogNormalAuxSampler": ("np.exp(%s)" % (TRUNC % ("np.log(lo)", "np.log(up)")), "truncnorm"),
    "TruncatedLog10NormalAuxSampler": ("np.power(10.0, %s)" % (TRUNC % ("np.log10(lo)", "np.log10(up)")), "truncnorm"),
}


def scene(ctx, it, name, values=None, lower="real('s_lower')"):
    src = it.build("s", values=values)
    src += '''
N = integer("N")
loc, width = real("s_mu"), real("s_tau")
lo, up = %s, real("s_upper")
ASSUME(0 < width)
ASSUME(lo < up)
%s
''' % (lower, "" if it.name.startswith("TruncatedNormal") else "ASSUME(0 %s lo)" % ("<=" if lower != "real('s_lower')" else "<"))
    src += "s.true_sampler(N)\ndrawn = s.true_values\n" if it.kind == "aux" else "drawn = s.draw_luminosity(N)\n"
    ref = FORMULAS[it.name][0]
    src += D.PLACEHOLDERS + '''
mark("drawn", freeze(drawn))
mark("n", N)
mark("reference", freeze(%s))
EQ(len(drawn), N, "number of values")
''' % ref
    return ctx.scene(name, src)


def drawn(ctx, it):
    sc = scene(ctx, it, it.name)
    ctx.check_all(sc, "size")
    m = D.marks(sc)
    D.formula(ctx, sc, "draw", it.name, strip(m["drawn"]), [strip(m["reference"])], [FORMULAS[it.name][1]], m["n"],
              guard=sc.I.marks["reference"][0], what="the value drawn by %s" % it.name)


def at_zero(ctx, it):
    """a lower bound of zero: the stand-in for its logarithm is any finite number; everything else is unchanged"""
    sc = scene(ctx, it, it.name + " with a lower bound of zero", values={"lower": "0"}, lower="0")
    m = D.marks(sc)
    d = strip(m["drawn"])
    rs = [r for r in D.variates(d) if r.args[0] == "truncnorm"]
    if len(rs) != 1:
        return ctx.violation("draw", sc.name, d.loc, "%d truncated normal variates are drawn" % len(rs))
    ref = [r for r in subterms_of(strip(m["reference"])) if r.op == "call" and r.args[0] == "u:rv:truncnorm"]
    if len(ref) != 1:
        return ctx.undecided("draw", sc.name, "the reference has no truncated variate")
    a = rs[0].args[4]
    guard = sc.I.marks["reference"][0]
    finite = b_and(atom_of(mk_cmp("lt", a, const(1e200))), atom_of(mk_cmp("lt", const(-1e200), a)))
    q = sc.holds(finite, guard)
    ctx.expect(q.equal, "draw", sc.name + " stand-in", rs[0].loc, "the lower truncation bound for a lower parameter of zero is not finite")
    D.formula(ctx, sc, "draw", sc.name, d, [rewrite(strip(m["reference"]), {ref[0].args[2]: a})], ["truncnorm"], m["n"], guard=guard,
              what="the value drawn by %s" % it.name)


def subterms_of(t):
    from ..terms import subterms
    return list(subterms(t))


def density(ctx, it):
    log = "np.log10" if "10" in it.name else "np.log"
    src = it.build("d") + '''
ASSUME(0 < real("d_tau"))
ASSUME(0 < real("x"))
ASSUME(0 < real("y"))
def shape(v):
    return np.exp(-((%s(v) - real("d_mu")) / real("d_tau")) ** 2 / 2) / v
EQ(d.phi(real("x")) * shape(real("y")), d.phi(real("y")) * shape(real("x")), "density up to its normalisation")
n = integer("N")
L = array("L", n)
d.compute_probability(L)
EQ(d.probability, d.phi(L), "probability")
''' % log
    sc = ctx.scene("density of " + it.name, src)
    ctx.check_all(sc, "density", labels=["density up to its normalisation", "probability"])


def check(ctx):
    for it in K.kinds("aux") + K.kinds("lum"):
        if it.name in FORMULAS:
            ctx.run(drawn, ctx, it)
            if it.name.startswith("TruncatedLog"):
                ctx.run(at_zero, ctx, it)
            if it.kind == "lum":
                ctx.run(density, ctx, it)
        elif "ormal" in it.name:
            ctx.undecided("draw", it.name, "no formula is known for this sampler")
