"""C17: fluxes are the transform of luminosity and distance, scattered in log."""
from . import topo as T
from . import catalog as K
from . import draws as D
from .c16 import GENSP, strip

EXPLANATION = ("Surveys with a luminosity distribution and with a derived luminosity, of a distribution with an arbitrary transform and of every built-in one, are interpreted "
               "abstractly with every combination of scatter, base and flux selection.  The latent flux must equal the transform of the population's own "
               "luminosities and distances; the observed flux must be the exponential (in the base asked for) of the logarithm (same base) of the latent flux plus "
               "scatter times exactly one standard normal variate per object that is used nowhere else, or the latent flux itself.")
ASSUMPTIONS = ("numpy.random.normal delivers independent normal variates",)

SURVEY = '''
from popsynth.selection_probability.flux_selectors import HardFluxSelection, SoftFluxSelection
from popsynth.selection_probability.generic_selectors import UnitySelection
%s
synth = popsynth.PopulationSynth(sp, %sseed=integer("seed"))
%s
%s
pop = synth.draw_survey(n_samples=integer("N"), %s)
N = integer("N")
'''
GENERIC_SP = GENSP.replace("NORM", ", is_normalization=True")
LUM = '''
from popsynth.distributions.pareto_distribution import ParetoDistribution
lum = ParetoDistribution()
lum.Lmin = real("Lmin")
lum.alpha = real("alpha")
'''
HARD = '''
fs = HardFluxSelection()
fs.boundary = real("limit")
synth.set_flux_selection(fs)
'''
SOFT = '''
fs = SoftFluxSelection()
fs.boundary = real("limit")
fs.strength = real("strength")
synth.set_flux_selection(fs)
'''
GEN = '''
synth.set_flux_selection(Sel("flux"))
'''
UNITY = '''
synth.set_flux_selection(UnitySelection())
'''


def survey(ctx, name, spatial, selection, sigma, base, derived=False):
    args = []
    if sigma:
        args.append("flux_sigma=%s" % sigma)
    if base is not None:
        args.append("log10_flux_draw=%s" % base)
    pre = spatial
    extra = ""
    if derived:
        extra = "der = Der('dl')\nsynth.add_auxiliary_sampler(der)\n"
    if derived or "Sel(" in selection:
        pre = T.GENERIC + pre
    if not derived:
        pre += LUM
    src = SURVEY % (pre, "" if derived else "luminosity_distribution=lum, ", extra, selection, ", ".join(args))
    src += D.PLACEHOLDERS + '''
latent = pop.fluxes.latent
EQ(latent, sp.transform(pop.luminosities.latent, pop.distances.latent), "latent flux")
EQ(len(latent), N, "number of fluxes")
observed = np.asarray(pop.fluxes)
mark("latent", freeze(latent))
mark("observed", freeze(observed))
mark("other", freeze([pop.luminosities.latent, pop.distances.latent, pop.theta.latent, pop.phi.latent]))
mark("n", N)
if %s:
    mark("reference", freeze(np.power(10.0, np.log10(latent) + %s * slot("stdnormal", 0))))
else:
    mark("reference", freeze(np.exp(np.log(latent) + %s * slot("stdnormal", 0))))
''' % (base or "True", sigma or "0", sigma or "0")
    if not sigma or selection in ("", UNITY):
        src += 'EQ(observed, latent, "observed flux")\n'
    if base and base.startswith("flag"):
        # decide under each choice
        for b in ("True", "False"):
            survey(ctx, name + " base 10: " + b, spatial, selection, sigma, b, derived)
        return
    sc = ctx.scene(name, src)
    if not sigma or selection in ("", UNITY):
        ctx.check_all(sc, "flux", labels=["latent flux", "number of fluxes", "observed flux"])
        return
    ctx.check_all(sc, "flux", labels=["latent flux", "number of fluxes"])
    m = D.marks(sc)
    noise = [r for r in D.variates(m["observed"], [m["latent"]])]
    D.formula(ctx, sc, "scatter", name, strip(m["observed"]), [strip(m["reference"])], ["stdnormal"], m["n"], given=[m["latent"], m["other"]],
              guard=sc.I.marks["reference"][0], what="the observed flux")


def check(ctx):
    for derived in (False, True):
        d = ", derived luminosity" if derived else ""
        for sname, sel in (("hard selection", HARD), ("soft selection", SOFT), ("any selection", GEN), ("no selection", ""), ("unity selection", UNITY)):
            for sigma in ("", "real('flux_sigma')"):
                for base in (None, "True", "False"):
                    if base and not sigma and sname not in ("hard selection", "no selection"):
                        continue
                    ctx.run(survey, ctx, "%s, scatter %s, base %s%s" % (sname, sigma or "none", base, d), GENERIC_SP, sel, sigma, base, derived)
    for sp in K.kinds("spatial"):
        src = sp.build("sp", extra="is_rate=flag('is_rate')" if "is_rate" in sp.optional else "") + "sp.r_max = real('rmax')\n"
        for base in ("True", "False"):
            ctx.run(survey, ctx, "%s, base 10: %s" % (sp.name, base), src, HARD, "real('flux_sigma')", base)
        ctx.run(survey, ctx, "%s without scatter" % sp.name, src, HARD, "", None)
