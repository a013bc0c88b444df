"""C03: threshold selections keep exactly the values inside the closed interval."""
from . import topo as T
from . import catalog as K

EXPLANATION = ("Gated value numbering of every threshold selection the package defines (discovered from the registry hierarchy), for each quantity it can be "
               "configured to judge: the mask it produces is compared, as a term over arbitrary arrays (including values equal to a boundary), with "
               "the closed-interval formula; the same through draw_survey with the selection attached as flux selection, to samplers, and as the "
               "distance selection.")

QUANT = {"use_obs_value": "VAL", "use_distance": "DIST", "use_luminosity": "LUM", "use_flux": "FLUX"}

DATA = '''
from popsynth.distributions.spherical_distribution import ConstantSphericalDistribution
from popsynth.utils.spherical_geometry import xyz
n = integer("n")
ASSUME(n >= 0)
def data(tag, lo, hi):
    v = np.where(boolarray("at lower:" + tag, n), lo, array("values:" + tag, n))
    return np.where(boolarray("at upper:" + tag, n), hi, v)
'''

FORMULA = {"LowerBound": ("boundary", None), "HardFluxSelection": ("boundary", None), "UpperBound": (None, "boundary"), "BoxSelection": ("vmin", "vmax"),
           "DistanceSelection": ("min_distance", "max_distance")}


def bounds(it):
    for c in it.ci.mro():
        if c.name in FORMULA:
            return FORMULA[c.name]
    return None


def formula(v, lo, hi):
    t = []
    if lo:
        t.append("(%s >= %s)" % (v, lo))
    if hi:
        t.append("(%s <= %s)" % (v, hi))
    return " & ".join(t)


def threshold(ctx, it, quant):
    lo, hi = bounds(it)
    l, h = "real('s_%s')" % (lo or "none"), "real('s_%s')" % (hi or "none")
    src = DATA + it.build("s", extra="%s=True" % quant if quant in it.optional else "")
    for q in QUANT.values():
        src += "%s = data(%r, %s, %s)\n" % (q, q, l, h)
    src += '''
b = freeze((VAL, DIST, LUM, FLUX))
s.set_observed_value(VAL)
s.set_distance(DIST)
s.set_luminosity(LUM)
s.set_observed_flux(FLUX)
s.select(n)
'''
    src += "EQ(s.selection, %s, '%s judging %s')\n" % (formula(QUANT[quant], lo and l, hi and h), it.name, quant)
    src += "EQ((VAL, DIST, LUM, FLUX), b, 'judging leaves the values alone')\n"
    src += "EQ((%s), (%s), 'judging leaves the limits alone')\n" % (", ".join("s." + p for p in it.params) + ",", ", ".join("real('s_%s')" % p for p in it.params) + ",")
    sc = ctx.scene("%s on %s" % (it.name, quant), src)
    ctx.check_all(sc, "threshold")


PLACE = '''
sp = ConstantSphericalDistribution()
sp._distances = DIST
sp._theta = array("theta", n)
sp._phi = array("phi", n)
'''


def distance(ctx, it):
    lo, hi = bounds(it)
    l, h = "real('s_%s')" % lo, "real('s_%s')" % hi
    src = DATA + it.build("s") + "DIST = data('d', %s, %s)\n" % (l, h) + PLACE + '''
b = freeze(DIST)
s.set_spatial_distribution(sp)
s.select(n)
''' + "EQ(s.selection, %s, '%s')\n" % (formula("DIST", l, h), it.name)
    src += "EQ(sp.distances, b, 'judging leaves the distances alone')\n"
    sc = ctx.scene("%s" % it.name, src)
    ctx.check_all(sc, "threshold")


def plane(ctx, it):
    src = DATA + it.build("s") + "DIST = array('d', n)\n" + PLACE + '''
from astropy.coordinates import SkyCoord
s.set_spatial_distribution(sp)
s.select(n)
b = SkyCoord(np.rad2deg(array("phi", n)), 90 - np.rad2deg(array("theta", n)), unit="deg", frame="icrs").galactic.b.deg
EQ(s.selection, np.abs(b) >= real("s_b_limit"), "galactic latitude limit")
'''
    sc = ctx.scene("%s" % it.name, src)
    ctx.check_all(sc, "threshold", labels=["galactic latitude limit"])


def unity(ctx, it):
    src = DATA + it.build("s") + "s.select(n)\nEQ(s.selection, np.ones(n, dtype=bool), 'keeps everything')\n"
    sc = ctx.scene(it.name, src)
    ctx.check_all(sc, "threshold")


def survey(ctx, it, quant, where):
    """the same selection inside a survey"""
    lo, hi = bounds(it)
    l, h = "real('s_%s')" % (lo or ""), "real('s_%s')" % (hi or "")
    src = T.setup(False, aux=True, flux=False, dist=False, spat=False) + it.build("s", extra="%s=True" % quant if quant in it.optional else "")
    if where == "flux":
        src += "synth.set_flux_selection(s)\n"
    else:
        src += "S_[%r].set_selection_probability(s)\n" % where
    src += "pop = synth.draw_survey(flux_sigma=real('fs'))\nn = len(pop.selection)\nwant = np.ones(n, dtype=bool)\n"
    for t in T.samplers(False, True):
        if t != where:
            src += "want = want & boolarray('keep:sel:%s#1', n)\n" % t
    v = {"use_obs_value": "np.asarray(pop.%s)" % where, "use_distance": "pop.distances.latent", "use_luminosity": "pop.luminosities.latent",
         "use_flux": "np.asarray(pop.fluxes)"}[quant]
    src += "EQ(pop.selection, want & %s, 'detection with %s on %s')\n" % (formula(v, lo and l, hi and h).join("()"), it.name, quant)
    sc = ctx.scene("survey with %s on %s at %s" % (it.name, quant, where), src)
    ctx.check_all(sc, "survey")


def check(ctx):
    for it in K.kinds("sel"):
        sup = {c.name for c in it.ci.mro()}
        if "UnitySelection" in sup:
            ctx.run(unity, ctx, it)
        elif "GalacticPlaneSelection" in sup:
            ctx.run(plane, ctx, it)
        elif "SpatialSelection" in sup and bounds(it):
            ctx.run(distance, ctx, it)
        elif bounds(it):
            if "HardFluxSelection" in sup:
                ctx.run(threshold, ctx, it, "use_flux")
                ctx.run(survey, ctx, it, "use_flux", "flux")
                continue
            for q in QUANT:
                ctx.run(threshold, ctx, it, q)
            for q, w in (("use_obs_value", "s1"), ("use_distance", "a1"), ("use_luminosity", "u1"), ("use_flux", "flux")):
                ctx.run(survey, ctx, it, q, w)
