"""C15: resetting makes every sampler and selection draw afresh."""
from . import topo as T
from . import catalog as K

EXPLANATION = ("Typestate analysis: a survey is drawn, the synth is cleaned with reset, and every sampler and selection (top-level, derived luminosity, "
               "secondaries of every depth, flux / distance / spatial selections) is attached again; each must be drawn / evaluated a second time and the "
               "second survey must report only second-generation values; the cleaned synth must behave as one to which nothing was ever attached. "
               "The same is decided for the built-in samplers and selections, whose second draws must depend on the second generator state.")


def forest(ctx, derived):
    src = T.setup(derived) + '''
one = synth.draw_survey(flux_sigma=real("fs"))
first = dict(COUNT)
synth.clean(reset=True)
ok, bare = attempt(synth.draw_survey, flux_sigma=real("fs"))
EQ(COUNT, first, "a cleaned synth draws none of the removed samplers and selections")
'''
    if derived != "only":
        src += '''
EQ(ok, True, "a cleaned synth can be drawn")
EQ(bare.selection, np.ones(len(bare.selection), dtype=bool), "a cleaned synth applies no selection")
EQ(len(bare.unknown_distance_idx) if hasattr(bare, "unknown_distance_idx") else len(bare.distances) - len(bare.known_distances), 0, "a cleaned synth applies no distance selection")
EQ(np.asarray(bare.fluxes), bare.fluxes.latent, "a cleaned synth has no flux selection")
never = popsynth.PopulationSynth(sp, luminosity_distribution=lum, seed=integer("seed"))
EQ(synth.to_dict(), never.to_dict(), "the description of a cleaned synth contains only its distributions")
EQ(bare.luminosities.latent is None, False, "luminosities")
'''
        for t in T.samplers(derived, True):
            src += "EQ(hasattr(bare, '%s'), False, 'removed sampler %s is not in the next population')\n" % (t, t)
    else:
        src += "EQ(ok, False, 'without luminosity source the cleaned synth is refused')\n"
    src += "SEEN.clear()\nCOUNT.clear()\n"
    src += "two_n = integer('two_n')\n"
    src += "GEN[0] = 'second'\n"
    if derived:
        src += "synth.add_observed_quantity(der['dl'])\n"
    if derived != "only":
        src += "for n in ('a1', 'a2', 'a3'):\n    synth.add_observed_quantity(aux[n])\n"
    src += '''
synth.set_flux_selection(fsel)
synth.set_distance_selection(dsel)
synth.add_spatial_selector(ssel)
pop = synth.draw_survey(flux_sigma=real("fs2"), n_samples=two_n)
'''
    src = src.replace("def tick(tag):", "GEN = ['first']\ndef tick(tag):").replace('return tag + "#" + str(COUNT[tag])', 'return GEN[0] + ":" + tag + "#" + str(COUNT[tag])')
    tags = T.samplers(derived, derived != "only")
    want = "np.ones(two_n, dtype=bool)"
    for t in list(tags) + ["FLUX", "SPAT"]:
        src += "EQ(COUNT.get('sel:%s', 0), 1, 'selection of %s is evaluated again')\n" % (t, t)
        want += " & boolarray('keep:second:sel:%s#1', two_n)" % t
    for t in tags:
        src += "EQ(COUNT.get('true:%s', 0), 1, '%s is drawn again')\n" % (t, t)
        src += "EQ(pop.%s.latent, array('second:true:%s#1', two_n), 'true values of %s are new')\n" % (t, t, t)
        if t != "dl":
            src += ("EQ(np.asarray(pop.%s), array('second:obs:%s#1', two_n) if flag('observed:%s') else array('second:true:%s#1', two_n), "
                    "'observed values of %s are new')\n" % (t, t, t, t, t))
    src += "EQ(COUNT.get('sel:DIST', 0), 1, 'the distance selection is evaluated again')\n"
    src += "EQ(pop.selection, %s, 'the detection follows the second selections')\n" % want
    src += ("EQ(pop.known_distances, np.asarray(pop.distances)[pop.selection][boolarray('keep:second:sel:DIST#1', sum(pop.selection))], "
            "'the known distances follow the second selection')\n")
    src += "EQ(SEEN['flux:FLUX'], np.asarray(pop.fluxes), 'the flux selection judges the second fluxes')\n"
    sc = ctx.scene("reset" + {False: "", True: " with derived luminosity", "only": " derived luminosity only"}[derived], src)
    ctx.check_all(sc, "afresh")


def builtin(ctx, it):
    """second survey of a re-attached built-in = survey of a fresh one"""
    cs, par = K.by_name("ConstantSphericalDistribution"), K.by_name("ParetoDistribution")
    extra = "observed=flag('obs')" if it.kind == "aux" and "observed" in it.optional else "use_luminosity=True" if "use_luminosity" in it.optional else ""
    src = cs.build("sp") + par.build("lm") + it.build("c", prefix="c_", extra=extra) + it.build("d", prefix="c_", extra=extra)
    if it.kind == "aux":
        how = "synth.add_observed_quantity(%s)"
        src = src.replace("name='d'", "name='c'")
    elif it.isa("SpatialSelection"):
        how = "synth.add_spatial_selector(%s)"
    elif it.name == "DistanceSelection":
        how = "synth.set_distance_selection(%s)"
    elif it.isa("FluxSelection") or "Flux" in it.name:
        how = "synth.set_flux_selection(%s)"
    else:
        how = "h_%s = popsynth.aux_samplers.normal_aux_sampler.NormalAuxSampler(name='h', observed=True)\nh_%s.mu = 0.0\nh_%s.tau = 1.0\nh_%s.sigma = 1.0\n" \
              "h_%s.set_selection_probability(%s)\nsynth.add_observed_quantity(h_%s)"
        how = how.replace("%s", "@")
    use = (lambda v: how.replace("@", v)) if "@" in how else (lambda v: how % v)
    src += "import popsynth.aux_samplers.normal_aux_sampler\n"
    src += "synth = popsynth.PopulationSynth(sp, luminosity_distribution=lm, seed=integer('seed'))\n"
    src += use("c") + "\none = synth.draw_survey(flux_sigma=real('fs'), n_samples=integer('n1'))\nsynth.clean(reset=True)\n"
    again = use("c")
    if "@" in how:
        again = "synth.add_observed_quantity(h_c)"
    src += again + "\ntwo = synth.draw_survey(flux_sigma=real('fs2'), n_samples=integer('n2'))\n"
    src += "synth.clean(reset=True)\n" + use("d") + "\nthree = synth.draw_survey(flux_sigma=real('fs2'), n_samples=integer('n2'))\n"
    for q in ("selection", "luminosities", "distances", "fluxes", "known_distances", "theta") + (("c",) if it.kind == "aux" else ()):
        src += "EQ(np.asarray(%s), np.asarray(%s), '%s as with a fresh object')\n" % (
            ("getattr(two, c.name)", "getattr(three, c.name)", q) if q == "c" else ("two." + q, "three." + q, q))
    sc = ctx.scene("reset of built-in " + it.name, src)
    ctx.check_all(sc, "afresh-builtin")


def check(ctx):
    for d in (False, True, "only"):
        ctx.run(forest, ctx, d)
    for it in K.kinds("aux") + K.kinds("sel"):
        ctx.run(builtin, ctx, it)
