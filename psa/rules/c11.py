"""C11: drawing a survey leaves the configured parameters unchanged."""
from . import topo as T
from ..terms import FALSE
from . import catalog as K

EXPLANATION = ("Effect analysis by abstract interpretation: the value number of every parameter of every component is compared before and after draw_survey, for "
               "every built-in spatial, luminosity, sampler and selection class, with and without normalisation (symbolic flag), and on the exceptional "
               "exits: spatial distributions whose rate, volume, time adjustment or transform may raise at any call (exception flags), so every exit of "
               "the normalised integration and of the distance sampling is covered.")


def reads(var, it):
    return "".join("keep[%r] = %s.%s\n" % (var + "." + p, var, p) for p in it.params)


def compares(var, it, when):
    return "".join("EQ(%s.%s, keep[%r], '%s.%s %s')\n" % (var, p, var + "." + p, it.name, p, when) for p in it.params)


def component(ctx, it, progress=False):
    cs, par = K.by_name("ConstantSphericalDistribution"), K.by_name("ParetoDistribution")
    extra = "observed=flag('obs')" if it.kind == "aux" and "observed" in it.optional else ""
    src = it.build("c", extra=extra)
    sp, lm = ("c", "lm") if it.kind == "spatial" else ("sp", "c") if it.kind == "lum" else ("sp", "lm")
    parts = [("c", it)]
    if sp == "sp":
        src += cs.build("sp")
        parts.append(("sp", cs))
    if lm == "lm":
        src += par.build("lm")
        parts.append(("lm", par))
    src += "synth = popsynth.PopulationSynth(%s, luminosity_distribution=%s, seed=1)\n" % (sp, lm)
    if it.kind == "aux":
        src += "synth.add_observed_quantity(c)\n"
    if it.kind == "sel":
        src += "synth.%s(c)\n" % ("add_spatial_selector" if it.isa("SpatialSelection") else
                                  "set_distance_selection" if it.name in ("DistanceSelection",) else "set_flux_selection")
    src += "keep = {}\n" + "".join(reads(v, i) for v, i in parts)
    src += "ok, pop = attempt(synth.draw_survey, flux_sigma=real('fs'), normalize=flag('normalize'))\n"
    src += "".join(compares(v, i, "after drawing") for v, i in parts)
    sc = ctx.scene("parameters %s%s" % (it.name, " (progress)" if progress else ""), src, progress=progress)
    ctx.check_all(sc, "unchanged")
    if not sc.sat(sc.pc):
        ctx.undecided("unchanged", sc.name, "no completing path on the sample")


BOOM = '''
class Boom(ConstantSphericalDistribution):
    _distribution_name = "PsaBoom"
    def dNdV(self, r):
        if flag("boom:dNdV:" + PHASE[0]):
            raise ValueError("dNdV")
        return super(Boom, self).dNdV(r)
    def differential_volume(self, r):
        if flag("boom:dV:" + PHASE[0]):
            raise RuntimeError("dV")
        return super(Boom, self).differential_volume(r)
    def time_adjustment(self, r):
        if flag("boom:time:" + PHASE[0]):
            raise KeyError("time")
        return super(Boom, self).time_adjustment(r)
    def draw_distance(self, size=1, normalize=False):
        PHASE[0] = "distance"
        return super(Boom, self).draw_distance(size=size, normalize=normalize)
    def draw_sky_positions(self, size):
        if flag("boom:sky"):
            raise ValueError("sky")
        return super(Boom, self).draw_sky_positions(size)
    def transform(self, L, r):
        if flag("boom:transform"):
            raise ValueError("transform")
        return super(Boom, self).transform(L, r)
PHASE = ["integral"]
'''


def exceptional(ctx, progress, default=False):
    src = T.GENERIC + BOOM + '''
sp = Boom()
%s
sp.r_max = real("rmax")
lm = ParetoDistribution()
lm.Lmin = real("Lmin")
lm.alpha = real("alpha")
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lm, seed=1)
L0 = sp.Lambda
r0 = sp.r_max
ok, pop = attempt(synth.draw_survey, flux_sigma=real("fs"), normalize=flag("normalize"), n_samples=(integer("ns") if flag("fixed") else None))
EQ(sp.Lambda, L0, "normalisation parameter after drawing")
EQ(sp.r_max, r0, "maximum distance after drawing")
EQ(lm.Lmin, real("Lmin"), "Lmin after drawing")
EQ(lm.alpha, real("alpha"), "alpha after drawing")
PHASE[0] = "again"
ok2, pop2 = attempt(sp.draw_distance, size=integer("k"), normalize=flag("normalize2"))
EQ(sp.Lambda, L0, "normalisation parameter after drawing distances")
''' % ("" if default else "sp.Lambda = real('Lambda')")
    sc = ctx.scene("parameters on exceptional exits%s%s" % (" (progress)" if progress else "", " (default)" if default else ""), src, progress=progress)
    ctx.check_all(sc, "exceptional", labels=["normalisation parameter after drawing"])
    raises = [e for e in sc.events("raise") if e.guard is not FALSE]
    ctx.expect(len(raises) >= 4 or None, "exceptional-exits", sc.name, None, "only %d exceptional exits reached" % len(raises))


UNBOUNDED = '''
from popsynth.distribution import SpatialDistribution, DistributionParameter
class Free(SpatialDistribution):
    """a distribution of a user, whose parameters may have any sign"""
    _distribution_name = "PsaFree"
    amp = DistributionParameter(is_normalization=True)
    slope = DistributionParameter(%s)
    def __init__(self):
        super(Free, self).__init__(name="free", seed=1)
    def differential_volume(self, r):
        return ufn("volume", r)
    def dNdV(self, r):
        return self.amp * ufn("rate", r, self.slope)
    def transform(self, L, r):
        return L * ufn("transform", r)
sp = Free()
%s
sp.r_max = real("rmax")
lm = ParetoDistribution()
lm.Lmin = real("Lmin")
lm.alpha = real("alpha")
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lm, seed=1)
before = (sp.amp, sp.slope, sp.r_max, dict(sp.params))
ok, pop = attempt(synth.draw_survey, flux_sigma=real("fs"), normalize=flag("normalize"))
EQ((sp.amp, sp.slope, sp.r_max, dict(sp.params)), before, "parameters after drawing")
if ok:
    EQ(pop.truth["free"], dict(sp.truth), "truth of the distribution")
    EQ({k: v for k, v in dict(pop.spatial_parameters).items()}, before[3], "recorded parameters")
'''


def unbounded(ctx, default, zero):
    sc = ctx.scene("parameters of any sign%s%s" % (" (default)" if default else "", " (zero)" if zero else ""), T.GENERIC +
                   UNBOUNDED % ("default=2", "sp.amp = 0" if zero else "" if default == "none" else "sp.amp = real('amp')\n" + ("" if default else "sp.slope = real('slope')")))
    ctx.check_all(sc, "unchanged", labels=["parameters after drawing"])


def forest(ctx, derived):
    tags = list(T.samplers(derived, True))
    src = T.setup(derived) + "ok, pop = attempt(synth.draw_survey, flux_sigma=real('fs'), normalize=flag('normalize'))\n"
    for t in tags:
        src += "EQ(S_['%s'].mu, real('mu:%s'), 'mu of %s')\n" % (t, t, t)
        if t not in T.DER:
            src += "EQ(S_['%s'].selector.level, real('level:%s'), 'selection parameter of %s')\n" % (t, t, t)
    src += "EQ(sp.Lambda, real('Lambda'), 'Lambda')\nEQ(sp.r_max, real('rmax'), 'rmax')\n"
    sc = ctx.scene("parameters of nested samplers" + (" with derived luminosity" if derived else ""), src)
    ctx.check_all(sc, "unchanged")


def check(ctx):
    for it in K.kinds("spatial"):
        ctx.run(component, ctx, it)
        ctx.run(component, ctx, it, True)
    for k in ("lum", "aux", "sel"):
        for it in K.kinds(k):
            if it.params:
                ctx.run(component, ctx, it)
    for pr in (False, True):
        ctx.run(exceptional, ctx, pr)
    ctx.run(exceptional, ctx, False, True)
    ctx.run(forest, ctx, False)
    ctx.run(forest, ctx, True)
    ctx.run(unbounded, ctx, False, False)
    ctx.run(unbounded, ctx, True, False)
    ctx.run(unbounded, ctx, False, True)
