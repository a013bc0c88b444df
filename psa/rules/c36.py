"""C36: a population describes the survey it came from; a sub-population its chosen objects."""
from . import topo as T

EXPLANATION = ("Abstract interpretation of draw_survey over most-general clients and of to_sub_population over its result: names, forms, parameters, limits, grids, seed, "
               "truth and the description of the synth held by the population must have the value numbers of the synth's own configuration; every quantity of a "
               "sub-population must be the same quantity of the population restricted by one and the same mask, and its description that of the population.")

META = ("_name", "luminosity_parameters", "spatial_parameters", "flux_sigma", "truth", "pop_synth", "_seed", "_r_max", "_n_model", "_spatial_form", "_lf_form", "_model_spaces")
DATA = ("luminosities", "distances", "theta", "phi", "fluxes", "probability")


def same_meta(a, b, tag):
    s = ""
    for m in META:
        s += "EQ(freeze(getattr(%s, %r)), freeze(getattr(%s, %r)), '%s: %s')\n" % (a, m, b, m, tag, m.strip("_"))
    s += "EQ(sorted(%s.graph.edges), sorted(%s.graph.edges), '%s: graph edges')\nEQ(sorted(%s.graph.nodes), sorted(%s.graph.nodes), '%s: graph nodes')\n" % (a, b, tag, a, b, tag)
    return s


def restricted(sub, pop, mask, tags, tag):
    s = ""
    for d in DATA + tags:
        s += "EQ(np.asarray(%s.%s), np.asarray(%s.%s)[%s], '%s: observed %s')\n" % (sub, d, pop, d, mask, tag, d)
        s += "EQ(np.asarray(%s.%s.latent), np.asarray(%s.%s.latent)[%s], '%s: latent %s')\n" % (sub, d, pop, d, mask, tag, d)
        s += "EQ(len(%s.%s.non_selected), 0, '%s: nothing hidden in %s')\n" % (sub, d, tag, d)
    s += "EQ(%s.selection, np.ones(sum(%s), dtype=bool), '%s: everything is selected')\n" % (sub, mask, tag)
    return s


def described(ctx, name, derived=False, aux=True, flux=True, dist=True, spat=True, kw="flux_sigma=real('fs'), normalize=flag('norm')"):
    src = T.setup(derived, aux, flux, dist, spat)
    src += '''
synth.add_model_space("grid", real("start"), real("stop"))
synth.add_model_space("line", real("start"), real("stop"), log=False)
pop = synth.draw_survey(%s)
after = freeze(synth.to_dict())
EQ(pop._name, synth.name, "name")
EQ(dict(pop.spatial_parameters), {"Lambda": real("Lambda"), "r_max": real("rmax")}, "spatial parameters")
EQ(pop._r_max, real("rmax"), "maximum distance")
EQ(pop._seed, integer("seed"), "seed")
EQ(np.asarray(pop.distances), sp.distances, "distances")
EQ(np.asarray(pop.theta), sp.theta, "polar angles")
EQ(np.asarray(pop.phi), sp.phi, "azimuths")
EQ(np.asarray(pop.ra), np.asarray(pop.phi) * 180.0 / np.pi, "right ascensions")
EQ(np.asarray(pop.dec), 90.0 - np.asarray(pop.theta) * 180.0 / np.pi, "declinations")
EQ(pop._spatial_form, sp.form, "spatial form")
EQ(sorted(pop._model_spaces), ["grid", "line"], "model spaces")
EQ(pop._model_spaces["grid"], np.logspace(np.log10(real("start")), np.log10(real("stop")), pop._n_model), "logarithmic model space")
EQ(pop._model_spaces["line"], np.linspace(real("start"), real("stop"), pop._n_model), "linear model space")
EQ(freeze(pop.pop_synth), after, "description of the synth")
EQ(pop.flux_sigma, %s, "flux scatter")
''' % (kw, "real('fs')" if flux and "flux_sigma" in kw else "-1")
    if derived != "only":
        src += 'EQ(dict(pop.luminosity_parameters), {"Lmin": real("Lmin"), "alpha": real("alpha")}, "luminosity parameters")\nEQ(pop._lf_form, lum.form, "luminosity form")\n'
    else:
        src += 'EQ(pop._lf_form, None, "no luminosity form")\nEQ(pop.luminosity_parameters, None, "no luminosity parameters")\n'
    sc = ctx.scene("population " + name, src)
    ctx.check_all(sc, "description")


def sub(ctx, name, observed, derived=False, aux=True, flux=True, dist=True, spat=True):
    tags = T.samplers(derived, aux)
    src = T.setup(derived, aux, flux, dist, spat) + '''
synth.add_model_space("grid", real("start"), real("stop"))
pop = synth.draw_survey(flux_sigma=real("fs"))
mask = pop.selection
'''
    if observed:
        src += "sub = pop.to_sub_population()\n"
    else:
        src += "mask = ~mask\nsub = pop.to_sub_population(observed=False)\n"
    src += restricted("sub", "pop", "mask", tags, "sub-population") + same_meta("sub", "pop", "sub-population")
    if observed:
        src += "twice = sub.to_sub_population()\none = np.ones(sum(mask), dtype=bool)\n" + restricted("twice", "sub", "one", tags, "again") + same_meta("twice", "pop", "again")
    sc = ctx.scene("%s sub-population %s" % ("detected" if observed else "hidden", name), src)
    ctx.check_all(sc, "sub-population")


def check(ctx):
    for n, kw in T.VARIANTS:
        ctx.run(described, ctx, n, **kw)
        ctx.run(sub, ctx, n, True, **kw)
        ctx.run(sub, ctx, n, False, **kw)
    ctx.run(described, ctx, "no flux scatter", derived=True, kw="")
    ctx.run(described, ctx, "natural logarithm", kw="flux_sigma=real('fs'), log10_flux_draw=False")
    ctx.run(described, ctx, "fixed number", derived=True, kw="n_samples=integer('n_samples'), flux_sigma=real('fs')")
