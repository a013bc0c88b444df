"""C07: writing a population to HDF5 and reading it back loses nothing."""
from . import topo as T
from . import catalog as K
from .c12 import observables, nodes, SETUP_SPACE

EXPLANATION = ("Abstract round trip through a modelled HDF5 store (groups, datasets, attributes keyed by path): a population of an arbitrary survey is "
               "written by the analysed writer and read by the analysed reader; every public observable, and every field of the object, of the population "
               "that comes back must have the value number of the original, for files and for groups, several groups in one file, sub-populations, "
               "surveys with and without luminosity distribution, auxiliary quantities, model spaces, scatter and draw probability.  A quantity stored "
               "under another quantity's key, or not read back, leaves a different term.")

WAYS = {
    "file": "pop.writeto('out.h5')\nback = popsynth.Population.from_file('out.h5')\n",
    "group": "first.writeto('all.h5')\npop.addto('all.h5', 'grp')\nback = popsynth.Population.from_group('all.h5', 'grp')\n",
    "neighbour": "first.writeto('all.h5')\npop.addto('all.h5', 'one')\nfirst.addto('all.h5', 'two')\nback = popsynth.Population.from_group('all.h5', 'one')\n",
    "file with groups": "pop.writeto('all.h5')\nfirst.addto('all.h5', 'one')\nback = popsynth.Population.from_file('all.h5')\n",
    "twice": "pop.writeto('out.h5')\nb1 = popsynth.Population.from_file('out.h5')\nb1.writeto('again.h5')\nback = popsynth.Population.from_file('again.h5')\n",
    "overwritten": "first.writeto('out.h5')\npop.writeto('out.h5')\nback = popsynth.Population.from_file('out.h5')\n",
}

PLAINLISTS = '''
def value(v):
    if hasattr(v, "latent"):
        return (np.asarray(v), np.asarray(v.latent), np.asarray(v.selected))
    return np.asarray(v) if isinstance(v, np.ndarray) else v
def values(d):
    return {k: value(d[k]) for k in d.keys()}
def plain(x):
    """lists of names are stored as the keys of a group"""
    if isinstance(x, dict):
        return {k: plain(x[k]) for k in x.keys()}
    if isinstance(x, list):
        return {k: {} for k in x}
    return x
'''


def compare(derived, aux):
    ob = observables("pop", derived, aux)
    ob["stan data"] = "values(pop.to_stan_data())"
    src = ""
    for k, e in ob.items():
        if k == "pop_synth":
            src += "EQ(plain(pop.pop_synth), plain(back.pop_synth), 'synth description')\n"
            continue
        src += "EQ(%s, %s, %r)\n" % (e, e.replace("pop.", "back.").replace("(pop)", "(back)"), k)
    src += "EQ((pop.probability is None), (back.probability is None), 'draw probability present')\n"
    src += "if pop.probability is not None:\n    EQ(np.asarray(pop.probability), np.asarray(back.probability), 'draw probability')\n"
    src += "EQ(pop.selection, back.selection, 'selection mask')\nEQ(pop.graph.is_directed(), back.graph.is_directed(), 'graph direction')\n"
    src += "for x in NODES:\n    if pop.graph.has_node(x):\n        EQ(back.graph.has_node(x), True, 'graph node')\n"
    src += "EQ(len(pop.graph.nodes), len(back.graph.nodes), 'number of graph nodes')\nEQ(len(pop.graph.edges), len(back.graph.edges), 'number of graph edges')\n"
    src += fields(())
    return src


def fields(skip):
    return '''
for f in sorted(vars(pop).keys()):
    if isinstance(getattr(pop, f), (dict, list)) or f == "_graph":
        continue
    EQ(value(getattr(pop, f)), value(getattr(back, f)), "field " + f)
EQ(sorted(vars(pop).keys()), sorted(vars(back).keys()), "fields")
'''


def trip(ctx, way, name, derived=False, aux=True, flux=True, dist=True, spat=True, kw="flux_sigma=real('fs')", sub=""):
    src = T.setup(derived, aux, flux, dist, spat) + PLAINLISTS
    if "no space" not in name:
        src += SETUP_SPACE
    src += "first = synth.draw_survey(flux_sigma=real('fs0'))\nsynth2 = synth\npop = synth.draw_survey(%s)\n%s" % (kw, sub) + nodes(derived, aux) + WAYS[way]
    src += compare(derived, aux)
    sc = ctx.scene("%s round trip of %s" % (way, name), src)
    ctx.check_all(sc, "round-trip", labels=["distances", "field _seed"] if False else ["distances"])


def builtin(ctx, sp, lm, i):
    src = sp.build("sp", extra="name=text('spname')" if "name" in sp.optional else "") + \
        lm.build("lm", extra="name=text('lmname')" if "name" in lm.optional else "") + '''
from popsynth.aux_samplers.normal_aux_sampler import NormalAuxSampler
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lm, seed=integer("seed"))
q = NormalAuxSampler(name="q", observed=flag("observed"))
q.mu = real("qmu")
q.tau = real("qtau")
q.sigma = real("qsigma")
synth.add_observed_quantity(q)
NODES = ["q", "q_obs", "obs_flux", sp.name]
first = synth.draw_survey(flux_sigma=real("fs0"))
pop = synth.draw_survey(flux_sigma=real("fs"))
''' + PLAINLISTS + WAYS[["file", "group"][i % 2]]
    cmp = compare(False, False)
    src += cmp + "EQ((np.asarray(pop.q), pop.q.latent), (np.asarray(back.q), back.q.latent), 'auxiliary quantity')\n"
    sc = ctx.scene("round trip with %s and %s" % (sp.name, lm.name), src)
    ctx.check_all(sc, "built-in")


def check(ctx):
    for n, kw in T.VARIANTS:
        ctx.run(trip, ctx, "file", n, **kw)
        ctx.run(trip, ctx, "group", n, **kw)
    for w in WAYS:
        if w not in ("file", "group"):
            ctx.run(trip, ctx, w, "a survey")
    ctx.run(trip, ctx, "file", "a survey without scatter", kw="")
    ctx.run(trip, ctx, "group", "a survey of fixed size, no space", kw="n_samples=integer('n_samples')")
    ctx.run(trip, ctx, "file", "a survey without distance selection", dist=False)
    ctx.run(trip, ctx, "file", "a detected sub-population", sub="pop = pop.to_sub_population()\n")
    ctx.run(trip, ctx, "group", "a hidden sub-population", sub="pop = pop.to_sub_population(observed=False)\n")
    sps, lms = K.kinds("spatial"), K.kinds("lum")
    for i in range(max(len(sps), len(lms))):
        ctx.run(builtin, ctx, sps[i % len(sps)], lms[i % len(lms)], i)
