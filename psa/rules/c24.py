"""C24: misuse of the building API is rejected and leaves the synth unchanged."""
from . import topo as T

EXPLANATION = ("Guarded-exit analysis: every documented misuse (each wrong kind of object at each entry point, duplicate names, secondaries added twice, no luminosity "
               "source, two normalisation parameters) is performed on a synth in an arbitrary configuration; the abstract run must leave by an exception "
               "on every path, and the synth (description, graph, attached components, next survey) and the objects passed must have the value numbers "
               "they had before.")

STATE = '''
def state(s, objs):
    g = s.graph
    out = [s.to_dict(), list(s.to_dict()["auxiliary samplers"].keys()), s.spatial_distribution.name, s.luminosity_distribution is None,
           [g.has_node(x) for x in NODES], [g.has_edge(x, y) for x in NODES for y in NODES]]
    for o in objs:
        out.append([o.name, o.truth, list(o.secondary_samplers.keys()), o.is_secondary, list(o.parents), o.has_secondary, o.selector.name, o.observed])
    return freeze(out)
def refused(label, fn, *args):
    before = state(synth, OBJS)
    ok, r = attempt(fn, *args)
    EQ(ok, False, label + " is refused")
    EQ(state(synth, OBJS), before, label + " leaves everything unchanged")
class Nothing:
    name = "nothing"
'''

WRONG = '''
plain = Nothing()
fl = Sel("other")
other_sp = spatial()
other_lum = ParetoDistribution()
smp = Smp("fresh")
OBJS = list(S_.values()) + [smp]
NODES = [sp.name, "obs_flux", "fresh", "a1", "s1", "dl", "other"]
for what, x in (("a plain object", plain), ("None", None), ("a number", 3), ("a text", "a1"), ("a distribution", other_sp),
                ("a luminosity distribution", other_lum), ("a sampler", smp), ("a selection class", Sel)):
    refused(what + " as flux selection", synth.set_flux_selection, x)
    refused(what + " as distance selection", synth.set_distance_selection, x)
    refused(what + " as spatial selection", synth.add_spatial_selector, x)
    refused(what + " as sampler selection", smp.set_selection_probability, x)
for what, x in (("a plain object", plain), ("None", None), ("a number", 3), ("a text", "a1"), ("a distribution", other_sp),
                ("a luminosity distribution", other_lum), ("a selection", fl), ("a sampler class", Smp)):
    refused(what + " as sampler", synth.add_observed_quantity, x)
    refused(what + " as sampler (old entry point)", synth.add_auxiliary_sampler, x)
'''


def wrong_kind(ctx, derived, aux):
    src = T.setup(derived, aux) + STATE + WRONG
    sc = ctx.scene("wrong kinds%s" % (" with derived luminosity" if derived else "" if aux else " (plain)"), src)
    ctx.check_all(sc, "refused")


def duplicates(ctx):
    src = T.setup(True) + STATE + '''
NODES = [sp.name, "obs_flux", "a1", "s1", "t1", "d1"]
twin = Smp("a1")
OBJS = list(S_.values()) + [twin]
refused("a second sampler of the same name", synth.add_observed_quantity, twin)
refused("the same sampler twice", synth.add_observed_quantity, S_["a2"])
refused("a sampler that is a secondary", synth.add_observed_quantity, S_["s1"])
refused("a sampler that is a shared secondary", synth.add_observed_quantity, S_["s2"])
refused("a sampler that is a nested secondary", synth.add_observed_quantity, S_["u1"])
refused("a sampler that is a secondary of the derived luminosity", synth.add_observed_quantity, S_["d1"])
refused("a sampler that is a nested secondary of the derived luminosity", synth.add_auxiliary_sampler, S_["e1"])
'''
    sc = ctx.scene("duplicates", src)
    ctx.check_all(sc, "refused")


def constructor(ctx):
    src = T.GENERIC + '''
class Nothing:
    name = "nothing"
plain = Nothing()
sp = spatial()
lum = ParetoDistribution()
smp = Smp("s")
sel = Sel("x")
def make(s, l):
    return popsynth.PopulationSynth(s, luminosity_distribution=l, seed=1)
for what, x in (("a plain object", plain), ("None", None), ("a number", 3), ("a text", "sp"), ("a luminosity distribution", lum), ("a sampler", smp),
                ("a selection", sel), ("a class", ConstantSphericalDistribution)):
    ok, r = attempt(make, x, lum)
    EQ(ok, False, what + " as spatial distribution is refused")
for what, x in (("a plain object", plain), ("a number", 3), ("a text", "sp"), ("a spatial distribution", sp), ("a sampler", smp),
                ("a selection", sel), ("a class", ParetoDistribution)):
    ok, r = attempt(make, sp, x)
    EQ(ok, False, what + " as luminosity distribution is refused")
ok, r = attempt(make, sp, lum)
EQ(ok, True, "a proper synth is accepted")
ok, r = attempt(make, sp, None)
EQ(ok, True, "a synth without luminosity distribution is accepted")
'''
    sc = ctx.scene("constructor", src)
    ctx.check_all(sc, "refused-constructor")


def no_luminosity(ctx):
    src = T.GENERIC + T.FOREST + STATE + '''
sp = spatial()
lum = None
synth = popsynth.PopulationSynth(sp, luminosity_distribution=None, seed=integer("seed"))
a = Smp("a1", observed=flag("o"))
synth.add_observed_quantity(a)
synth.set_flux_selection(Sel("FLUX"))
OBJS = [a]
NODES = [sp.name, "obs_flux", "a1"]
def draw0():
    return synth.draw_survey()
def draw1():
    return synth.draw_survey(flux_sigma=real("fs"), n_samples=integer("n"))
def draw2():
    return synth.draw_survey(normalize=True)
for what, f in (("drawing", draw0), ("drawing a fixed number", draw1), ("normalised drawing", draw2)):
    before = freeze([synth.to_dict()["auxiliary samplers"], sp.Lambda, sp.r_max, a.truth])
    ok, r = attempt(f)
    EQ(ok, False, what + " without luminosity source is refused")
    EQ([synth.to_dict()["auxiliary samplers"], sp.Lambda, sp.r_max, a.truth], before, what + " without luminosity source leaves everything unchanged")
    EQ(COUNT.get("true:a1", 0), 0, what + " without luminosity source draws no sampler")
# removing the only source
dl = Der("dl")
synth.add_observed_quantity(dl)
ok, r = attempt(draw0)
EQ(ok, True, "a derived luminosity is a source")
synth.clean(reset=flag("reset"))
ok, r = attempt(draw0)
EQ(ok, False, "drawing after the derived luminosity was removed is refused")
'''
    sc = ctx.scene("no luminosity", src)
    ctx.check_all(sc, "refused-draw", labels=["drawing after the derived luminosity was removed is refused"])


def accepted(ctx):
    """the counterpart: the proper uses are accepted and take effect"""
    src = T.setup(True) + '''
EQ(list(synth.to_dict()["auxiliary samplers"].keys()).count("a1"), 1, "a1 attached")
f2 = Sel("FLUX2")
synth.set_flux_selection(f2)
pop = synth.draw_survey(flux_sigma=real("fs"))
EQ(COUNT.get("sel:FLUX2", 0), 1, "a later flux selection replaces the earlier one")
EQ(COUNT.get("sel:FLUX", 0), 0, "a replaced flux selection is not evaluated")
'''
    sc = ctx.scene("proper use", src)
    ctx.check_all(sc, "accepted")


def two_normalisations(ctx):
    src = '''
from popsynth.distribution import SpatialDistribution, DistributionParameter
from popsynth.distributions.spherical_distribution import SphericalDistribution
def declare():
    class Two(SphericalDistribution):
        _distribution_name = "PsaTwo"
        one = DistributionParameter(default=1, is_normalization=True)
        two = DistributionParameter(default=1, is_normalization=True)
    return Two
def declare1():
    class One(SphericalDistribution):
        _distribution_name = "PsaOne"
        one = DistributionParameter(default=1, is_normalization=True)
        two = DistributionParameter(default=1)
    return One
ok, r = attempt(declare)
EQ(ok, False, "two normalisation parameters are refused")
ok, r = attempt(declare1)
EQ(ok, True, "one normalisation parameter is accepted")
'''
    sc = ctx.scene("two normalisations", src)
    ctx.check_all(sc, "refused-class")


def check(ctx):
    ctx.run(wrong_kind, ctx, False, True)
    ctx.run(wrong_kind, ctx, True, True)
    ctx.run(wrong_kind, ctx, False, False)
    ctx.run(duplicates, ctx)
    ctx.run(constructor, ctx)
    ctx.run(no_luminosity, ctx)
    ctx.run(accepted, ctx)
    ctx.run(two_normalisations, ctx)
