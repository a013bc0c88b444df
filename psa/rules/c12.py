"""C12: a drawn population is a snapshot independent of its synth."""
from . import topo as T
from . import catalog as K

EXPLANATION = ("Alias / escape analysis by abstract interpretation with a heap of allocation sites: after a draw, every mutating operation of the public "
               "interface is applied to the synth and to each of its components (parameters set, samplers attached, cleaned, drawn again, model spaces "
               "added, graph and description edited) and every observable of the population must keep its value number; conversely every container the "
               "population exposes is edited at every level and the synth's description, parameters, graph and next survey must keep theirs.")

MUTATE = '''
sp.Lambda = real("Lambda2")
sp.r_max = real("rmax2")
%(lum)s
for n in S_:
    S_[n].mu = real("mu2:" + n)
    sel = Sel(n)
    sel.level = real("level2:" + n)
    S_[n].set_selection_probability(sel)
synth.add_model_space("late", 1.0, 10.0)
synth.add_model_space("space", 2.0, 20.0)
g = synth.graph
g.add_node("scribble")
g.add_edge("scribble", "obs_flux")
d = synth.to_dict()
d["seed"] = 99
d["auxiliary samplers"]["scribble"] = 1
extra = Smp("extra")
synth.add_observed_quantity(extra)
p = sp.params
p["scribble"] = 7
'''

LATER = '''
synth.clean(reset=True)
synth.add_observed_quantity(Smp("later"))
for n in TOPS:
    synth.add_observed_quantity(S_[n])
again = synth.draw_survey(flux_sigma=real("fs2"), n_samples=integer("n2"))
'''

SETUP_SPACE = '''
synth.add_model_space("space", real("start"), real("stop"), log=flag("log"))
synth.add_model_space("space2", real("start"), real("stop"), log=False)
'''


def observables(pop, derived, aux):
    tags = T.samplers(derived, aux)
    out = {}
    for q in ("truth", "pop_synth", "model_spaces_", "spatial_parameters", "luminosity_parameters", "known_distances", "selection", "flux_sigma", "n_objects",
              "n_detections", "n_non_detections", "probability_"):
        if q.endswith("_"):
            continue
        out[q] = "%s.%s" % (pop, q)
    for q in ("luminosities", "distances", "fluxes", "theta", "phi") + tuple(tags):
        out[q] = "(np.asarray(%s.%s), np.asarray(%s.%s.latent))" % (pop, q, pop, q)
    out["graph nodes"] = "[%s.graph.has_node(x) for x in NODES]" % pop
    out["graph edges"] = "[%s.graph.has_edge(x, y) for x in NODES for y in NODES]" % pop
    out["stan data"] = "%s.to_stan_data()" % pop
    out["name"] = "repr(%s)" % pop
    return out


def nodes(derived, aux):
    t = T.samplers(derived, aux)
    return "NODES = [sp.name, 'obs_flux', 'scribble', 'extra', 'later'] + %r + %r\n" % (list(t), [x + "_obs" for x in t])


def forward(ctx, derived, aux, clean):
    src = T.setup(derived, aux) + SETUP_SPACE + "pop = synth.draw_survey(flux_sigma=real('fs'), normalize=flag('normalize'))\n" + nodes(derived, aux)
    ob = observables("pop", derived, aux)
    src += "KEEP = {}\n" + "".join("KEEP[%r] = freeze(%s)\n" % (k, e) for k, e in ob.items())
    src += MUTATE % {"lum": "" if derived == "only" else "lum.Lmin = real('Lmin2')\nlum.alpha = real('alpha2')"}
    src += "".join("EQ(%s, KEEP[%r], '%s after editing the synth')\n" % (e, k, k) for k, e in ob.items())
    if clean:
        src += "TOPS = %r\n" % (((["dl"] if derived else []) + (["a1", "a2", "a3"] if aux else [])),) + LATER
        src += "".join("EQ(%s, KEEP[%r], '%s after drawing again and cleaning')\n" % (e, k, k) for k, e in ob.items())
    sc = ctx.scene("population while its synth changes%s%s%s" % (" (derived)" if derived else "", " (plain)" if not aux else "", " (cleaned)" if clean else ""), src)
    ctx.check_all(sc, "snapshot")


EDIT = '''
def scribble(x, depth=0):
    if isinstance(x, dict):
        for k in list(x.keys()):
            scribble(x[k], depth + 1)
        for k in list(x.keys()):
            if not isinstance(x[k], dict):
                x[k] = "scribbled"
        x["scribble"] = "scribbled"
    elif isinstance(x, list):
        x.append("scribbled")
scribble(pop.truth)
scribble(pop.pop_synth)
scribble(pop.spatial_parameters)
if pop.luminosity_parameters is not None:
    scribble(pop.luminosity_parameters)
pop.graph.add_node("scribble")
pop.graph.add_edge("scribble", "obs_flux")
'''


def backward(ctx, derived, aux):
    src = T.setup(derived, aux) + SETUP_SPACE
    src += "other = synth.draw_survey(flux_sigma=real('fs'))\npop = synth.draw_survey(flux_sigma=real('fs'))\n" + nodes(derived, aux)
    ob = {"description": "synth.to_dict()", "graph nodes of the synth": "[g.has_node(x) for g in [synth.graph] for x in NODES]",
          "Lambda": "sp.Lambda", "r_max": "sp.r_max", "spatial truth": "sp.truth", "spatial params": "sp.params"}
    if not derived:
        ob.update({"lum truth": "lum.truth", "lum params": "lum.params"})
    for t in T.samplers(derived, aux):
        ob["parameters of " + t] = "S_['%s'].truth" % t
        ob["mu of " + t] = "S_['%s'].mu" % t
    for k, e in observables("other", derived, aux).items():
        ob["other population: " + k] = e
    src += "KEEP = {}\n" + "".join("KEEP[%r] = freeze(%s)\n" % (k, e) for k, e in ob.items())
    src += EDIT
    src += "".join("EQ(%s, KEEP[%r], '%s after editing the population')\n" % (e, k, k) for k, e in ob.items())
    sc = ctx.scene("synth while its population changes%s%s" % (" (derived)" if derived else "", " (plain)" if not aux else ""), src)
    ctx.check_all(sc, "independent")


def builtin(ctx, sp, lm):
    """containers of every built-in distribution"""
    src = sp.build("sp") + lm.build("lm") + '''
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lm, seed=1)
pop = synth.draw_survey()
K1 = freeze(pop.spatial_parameters)
K2 = freeze(pop.luminosity_parameters)
K3 = freeze(pop.truth)
K4 = freeze(pop.pop_synth)
'''
    for v, it in (("sp", sp), ("lm", lm)):
        for p in it.params:
            src += "%s.%s = real('other_%s')\n" % (v, p, p)
    src += '''
EQ(pop.spatial_parameters, K1, "spatial parameters")
EQ(pop.luminosity_parameters, K2, "luminosity parameters")
EQ(pop.truth, K3, "truth")
EQ(pop.pop_synth, K4, "description")
'''
    sc = ctx.scene("snapshot of %s and %s" % (sp.name, lm.name), src)
    ctx.check_all(sc, "snapshot-builtin")


def check(ctx):
    for d, a in ((False, True), (True, True), ("only", False), (False, False)):
        ctx.run(forward, ctx, d, a, False)
        ctx.run(forward, ctx, d, a, True)
        ctx.run(backward, ctx, d, a)
    sps, lms = K.kinds("spatial"), K.kinds("lum")
    for i in range(max(len(sps), len(lms))):
        ctx.run(builtin, ctx, sps[i % len(sps)], lms[i % len(lms)])
