"""C30: luminosities and sampler values come from the density that is stated."""
from ..terms import subterms, show, b_and
from . import catalog as K
from . import draws as D
from .c16 import strip, rewrite, element
from . import c19, c20

EXPLANATION = ("Every built-in luminosity distribution and auxiliary sampler (discovered from the class hierarchy) is drawn abstractly with symbolic parameters and any "
               "number of objects; the value drawn must be the inverse-distribution formula of the stated density over independent uniform (or Pareto, Bernoulli) "
               "variates, one per object.  The density itself (phi, and the probability stored for the drawn luminosities) must have the value number of the "
               "normalised closed form whose inverse the draw is, for real and integer luminosities.")
ASSUMPTIONS = ("numpy.random.pareto delivers Lomax variates; scipy.special.gammaincinv is the inverse of the regularised lower incomplete gamma function",
               "the closed forms integrate to one over the support (textbook identities)",
               "scipy.integrate.quad returns the integral of the function it is given")

PL = '''
def integral(lo, hi, a):
    return np.log(hi / lo) if a == -1 else (hi ** (a + 1) - lo ** (a + 1)) / (a + 1)
def inverse(u, lo, hi, a):
    return lo * (hi / lo) ** u if a == -1 else (u * (hi ** (a + 1) - lo ** (a + 1)) + lo ** (a + 1)) ** (1 / (a + 1))
def weight(x0, x1, x2, a, b):
    one, two = integral(x0, x1, a), x1 ** (a - b) * integral(x1, x2, b)
    return one / (one + two)
def bpl_inverse(x0, x1, x2, a, b):
    return np.where(slot("bernoulli", 1, weight(x0, x1, x2, a, b)) == 1, inverse(slot("u01", 0), x0, x1, a), inverse(slot("u01", 0), x1, x2, b))
def bpl_density(L, x0, x1, x2, a, b):
    one, two = integral(x0, x1, a), x1 ** (a - b) * integral(x1, x2, b)
    return np.where((x0 < L) & (L < x1), L ** a, np.where((x1 <= L) & (L < x2), x1 ** (a - b) * L ** b, 0.0)) / (one + two)
'''

# name: ([value drawn], variates, density of L, assumptions)
DRAWS = {
    "ParetoDistribution": (["(1 + slot('pareto', 0, {alpha})) * {Lmin}", "{Lmin} * slot('u01', 0) ** (-1 / {alpha})", "{Lmin} * (1 - slot('u01', 0)) ** (-1 / {alpha})"],
                           [["pareto"], ["u01"]], "np.where(L >= {Lmin}, {alpha} * {Lmin} ** {alpha} / L ** ({alpha} + 1), 0.0)", ("0 < {Lmin}", "0 < {alpha}")),
    "SchechterDistribution": (["{Lmin} * sf.gammaincinv(1 + {alpha}, 1 - slot('u01', 0))", "{Lmin} * sf.gammaincinv(1 + {alpha}, slot('u01', 0))"], [["u01"]],
                              "(L / {Lmin}) ** {alpha} * np.exp(-L / {Lmin}) / ({Lmin} * sf.gamma(1 + {alpha}))", ("0 < {Lmin}", "-1 < {alpha}")),
    "LogUniLuminiosityDistribution": (["{Lmin} * ({Lmax} / {Lmin}) ** slot('u01', 0)"], [["u01"]], "1 / (L * np.log({Lmax} / {Lmin}))", ("0 < {Lmin}", "{Lmin} < {Lmax}")),
    "BPLDistribution": (["bpl_inverse({Lmin}, {Lbreak}, {Lmax}, {alpha}, {beta})"], [["u01", "bernoulli"]], None, ("0 < {Lmin}", "{Lmin} < {Lbreak}", "{Lbreak} < {Lmax}")),
    "DeltaDistribution": (["{Lp} + np.zeros(N)"], [[]], None, ()),
    "LogNormalDistribution": (None, None, "np.exp(-(np.log(L) - {mu}) ** 2 / (2 * {tau} ** 2)) / (L * {tau} * np.sqrt(2 * np.pi))", ("0 < {tau}",)),
    "Log10NormalDistribution": (None, None, "np.exp(-(np.log10(L) - {mu}) ** 2 / (2 * {tau} ** 2)) / (np.log(10) * L * {tau} * np.sqrt(2 * np.pi))", ("0 < {tau}",)),
    "ParetoAuxSampler": (["(1 + slot('pareto', 0, {alpha})) * {xmin}", "{xmin} * slot('u01', 0) ** (-1 / {alpha})", "{xmin} * (1 - slot('u01', 0)) ** (-1 / {alpha})"],
                         [["pareto"], ["u01"]], None, ("0 < {xmin}", "0 < {alpha}")),
    "PowerLawAuxSampler": (["inverse(slot('u01', 0), {xmin}, {xmax}, {alpha})"], [["u01"]], None, ("0 < {xmin}", "{xmin} < {xmax}")),
    "BrokenPowerLawAuxSampler": (["bpl_inverse({xmin}, {xbreak}, {xmax}, {alpha}, {beta})"], [["u01", "bernoulli"]], None,
                                 ("0 < {xmin}", "{xmin} < {xbreak}", "{xbreak} < {xmax}")),
    "DeltaAuxSampler": (["{xp} + np.zeros(N)"], [[]], None, ()),
}
SPECIAL = {"BPLDistribution": ("alpha", "beta"), "BrokenPowerLawAuxSampler": ("alpha", "beta"), "PowerLawAuxSampler": ("alpha",)}


def entry(it):
    for c in it.ci.mro():
        if c.name in DRAWS:
            return DRAWS[c.name]
    return None


def variants(it):
    """the power laws have a logarithmic limit at an index of -1"""
    yield "", {}
    ps = [p for n, ps in SPECIAL.items() if it.isa(n) for p in ps]
    for p in ps:
        yield " with %s = -1" % p, {p: "-1.0"}
        yield " with %s close to -1" % p, {p: "(real('nearby') / 200 - 1)"}
    if len(ps) > 1:
        yield " with " + " = ".join(ps) + " = -1", {p: "-1.0" for p in ps}


def params(it, values):
    return {p: values.get(p, "real('s_%s')" % p) for p in it.params}


def loops(sc, t, n):
    """an array filled one entry per object, as the array of the entries"""
    count, e = element(t)
    if e is None or not sc.equal(count, n).equal:
        return t
    table = {}
    for x in subterms(e):
        if x.op == "index" and x.args[1].op in ("iterelem", "elem") and x.args[1].args[0] == t.args[0]:
            table[x] = strip(x.args[0])
    e = rewrite(strip(e), table)
    return t if any(x.op in ("iterelem", "elem", "phi") and x.args[0] == t.args[0] for x in subterms(e)) else e


def integers(ctx, it, label, values):
    """parameters given as integers: numpy refuses an integer to a negative integer power, and compiled code truncates it"""
    ps = {p: values[p][:-2] if p in values else "(3 * integer('s_%s') - 7)" % p for p in it.params}
    src = it.build("s", values=ps) + 'N = integer("N")\n'
    for a in entry(it)[3] if entry(it) else ():
        src += "ASSUME(%s)\n" % a.format(**ps)
    src += "s.true_sampler(N)\n" if it.kind == "aux" else "s.draw_luminosity(N)\nL = intarray('L', N)\nASSUME(0 < L)\ns.phi(L)\ns.phi(integer('x'))\n"
    sc = ctx.scene("%s%s with integer parameters" % (it.name, label), src)
    int_powers(ctx, sc)


def int_powers(ctx, sc):
    bad = [e for e in sc.I.events if e.kind == "int-power" and sc.sat(b_and(e.guard, e.data[2]))]
    for e in bad:
        ctx.violation("integers", sc.name + ":" + e.loc[2], e.loc, "an integer is raised to an integer power that can be negative: %s ** %s" %
                      (show(e.data[0], 5), show(e.data[1], 5)))
    if not bad:
        ctx.discharge("integers", sc.name)


def drawn(ctx, it, label, values):
    refs, kinds, _, assume = entry(it)
    ps = params(it, values)
    src = "import scipy.special as sf\n" + it.build("s", values=values) + 'N = integer("N")\n' + D.PLACEHOLDERS + PL
    for a in assume:
        src += "ASSUME(%s)\n" % a.format(**ps)
    src += "s.true_sampler(N)\ndrawn = s.true_values\n" if it.kind == "aux" else "drawn = s.draw_luminosity(N)\n"
    src += 'mark("drawn", freeze(drawn))\nmark("n", N)\nEQ(len(drawn), N, "number of values")\n'
    src += "EQ((%s), (%s), 'parameters are left alone')\n" % (", ".join("s." + p for p in it.params) + ",", ", ".join(ps[p] for p in it.params) + ",")
    for i, r in enumerate(refs):
        src += 'mark("r%d", freeze(%s))\n' % (i, r.format(**ps))
    sc = ctx.scene(it.name + label, src)
    ctx.check_all(sc, "side effects")
    m = D.marks(sc)
    d = loops(sc, strip(m["drawn"]), m["n"])
    have = sorted(D.slots(d)[1])
    ks = next((k for k in kinds if sorted(k) == have), kinds[0])
    D.formula(ctx, sc, "draw", it.name + label, d, [strip(m["r%d" % i]) for i in range(len(refs))], ks, m["n"], guard=sc.I.marks["r0"][0],
              what="the value drawn by %s" % it.name)


def density(ctx, it, label, values, kind):
    _, _, dens, assume = entry(it)
    ps = params(it, values)
    src = "import scipy.special as sf\nimport scipy.integrate as integrate\n" + it.build("s", values=values) + D.PLACEHOLDERS.replace("N)", "1)") + PL + '''
n = integer("n")
L = %s
ASSUME(0 < L)
''' % {"real": "array('L', n)", "integer": "intarray('L', n)"}[kind]
    for a in assume:
        src += "ASSUME(%s)\n" % a.format(**ps)
    src += "b = freeze(L)\n"
    if it.isa("BPLDistribution"):
        # the density may be divided by its own integral, which is one
        args = "{Lmin}, {Lbreak}, {Lmax}, {alpha}, {beta}".format(**ps)
        src += '''
want = bpl_density(L, %s)
total = integrate.quad(lambda x: bpl_density(np.atleast_1d(x), %s), %s, %s)[0]
mark("given", freeze(s.phi(L)))
mark("closed", freeze(want))
mark("divided", freeze(want / total))
''' % (args, args, ps["Lmin"], ps["Lmax"])
    elif it.isa("DeltaDistribution"):
        src += "L = np.where(boolarray('hit', n), {Lp}, L)\nEQ(s.phi(L), np.where(L == {Lp}, 1, 0), 'density')\nEQ(s.phi({Lp}), 1, 'density at the value')\nEQ(s.phi({Lp} + 1), 0, 'density off the value')\n".format(**ps)
    else:
        src += "EQ(s.phi(L), %s, 'density')\n" % dens.format(**ps)
        src += "x = real('x')\nASSUME(0 < x)\nEQ(s.phi(x), %s, 'density of one luminosity')\n" % dens.replace("L ", "x ").replace("L)", "x)").replace("-L", "-x").replace("(L", "(x").format(**ps)
    src += '''
s.compute_probability(L)
EQ(s.probability, s.phi(L), "probability of the drawn luminosities")
'''
    if not it.isa("DeltaDistribution"):
        src += "EQ(L, b, 'luminosities are left alone')\n"
    sc = ctx.scene("density of %s%s at %s luminosities" % (it.name, label, kind), src)
    ctx.check_all(sc, "density")
    if it.isa("BPLDistribution"):
        m = D.marks(sc)
        g = sc.I.marks["given"][0]
        got = strip(m["given"])
        ctx.expect(any(sc.equal(got, strip(m[r]), g).equal for r in ("closed", "divided")), "density", sc.name, got.loc,
                   "the density of the broken power law is not its closed form")


def check(ctx):
    for it in K.kinds("lum") + K.kinds("aux"):
        e = entry(it)
        if e is None:
            if it.params:
                ctx.run(integers, ctx, it, "", {})
            if it.name in c20.FORMULAS:
                ctx.run(c20.drawn, ctx, it)
                if it.name.startswith("TruncatedLog"):
                    ctx.run(c20.at_zero, ctx, it)
            elif not any(it.isa(n) for n in c19.ANGLES):
                ctx.undecided("draw", it.name, "no formula is known for this class")
            continue
        for label, values in variants(it):
            if e[0] is not None:
                ctx.run(drawn, ctx, it, label, values)
            else:
                ctx.run(c20.drawn, ctx, it)
            if "close" not in label:
                ctx.run(integers, ctx, it, label, values)
            if it.kind == "lum":
                for kind in ("real", "integer"):
                    ctx.run(density, ctx, it, label, values, kind)
    ctx.run(c19.samplers, ctx)
    ctx.run(c19.viewing, ctx)
