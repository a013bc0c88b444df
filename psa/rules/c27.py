"""C27: the truth record covers everything that was simulated."""
from . import topo as T
from . import catalog as K

EXPLANATION = ("Abstract interpretation of draw_survey over most-general clients (forest of samplers to depth 4, shared secondary, derived luminosity with "
               "nested secondaries): the population's truth must contain, under every component's name, each parameter value that the component was seen "
               "to use while it was drawn, defaults included; plus every built-in spatial, luminosity and sampler class of the catalogue, with its "
               "parameters set and with its defaults.")


def survey(ctx, name, derived=False, aux=True, progress=False, kw="flux_sigma=real('fs')", **o):
    tags = list(T.samplers(derived, aux))
    src = T.setup(derived, aux, **o)
    src += "pop = synth.draw_survey(%s)\n" % kw
    src += "EQ(pop.truth[sp.name].get('Lambda', None), real('Lambda'), 'spatial parameter Lambda')\n"
    src += "EQ(pop.truth[sp.name].get('r_max', None), real('rmax'), 'spatial parameter r_max')\n"
    if derived != "only" and not derived:
        src += "EQ(pop.truth[lum.name], {'Lmin': real('Lmin'), 'alpha': real('alpha')}, 'luminosity parameters')\n"
    for t in tags:
        src += "tr = pop.truth.get('%s', None)\n" % t
        src += "EQ(tr is None, False, 'truth of %s present')\nif tr is not None:\n" % t
        src += "    EQ(tr.get('mu', None), SEEN['used-mu:%s'], 'truth of %s: mu')\n" % (t, t)
        if t != "dl":
            src += "    EQ(tr.get('width', None), SEEN['used-width:%s'], 'truth of %s: width (default)')\n" % (t, t)
        else:
            src += "    EQ(tr.get('scale', None), SEEN['used-scale:dl'], 'truth of dl: scale (default)')\n"
    sc = ctx.scene("truth " + name, src, progress=progress)
    ctx.check_all(sc, "truth")


def builtin(ctx, it, mode):
    """every catalogue class: its parameters appear in the truth with the values in force"""
    imp, *rest = it.build("c", extra="observed=True" if it.kind == "aux" and "observed" in it.optional else "").strip().split("\n")
    body = rest if mode == "set" else [l for l in rest if not any(l.startswith("c.%s =" % p) for p in it.defaults)]
    lines = [imp] + body
    cs, par = K.by_name("ConstantSphericalDistribution"), K.by_name("ParetoDistribution")
    if it.kind == "spatial":
        lines += par.build("lm").strip().split("\n") + ["synth = popsynth.PopulationSynth(c, luminosity_distribution=lm, seed=1)"]
    elif it.kind == "lum":
        lines += cs.build("sp").strip().split("\n") + ["synth = popsynth.PopulationSynth(sp, luminosity_distribution=c, seed=1)"]
    else:
        lines += cs.build("sp").strip().split("\n") + par.build("lm").strip().split("\n") + [
            "synth = popsynth.PopulationSynth(sp, luminosity_distribution=lm, seed=1)", "synth.add_observed_quantity(c)"]
    lines.append("pop = synth.draw_survey(flux_sigma=real('fs'))")
    lines.append("tr = pop.truth.get(c.name, {})")
    for p in it.params:
        lines.append("EQ(tr.get(%r, None), c.%s, 'parameter %s')" % (p, p, p))
    sc = ctx.scene("truth of %s %s" % (it.name, mode), "\n".join(lines))
    ctx.check_all(sc, "truth-builtin")


def check(ctx):
    for n, kw in T.VARIANTS[:3]:
        ctx.run(survey, ctx, n, **kw)
    ctx.run(survey, ctx, "normalised", derived=True, kw="normalize=True")
    ctx.run(survey, ctx, "no selections", derived=True, flux=False, dist=False, spat=False, kw="n_samples=integer('n_samples')")
    for k in ("spatial", "lum", "aux"):
        for it in K.kinds(k):
            if it.params:
                ctx.run(builtin, ctx, it, "set")
                if it.defaults:
                    ctx.run(builtin, ctx, it, "defaults")
