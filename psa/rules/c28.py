"""C28: the model graph shows every dependency and nothing stale."""
from . import topo as T

EXPLANATION = ("Abstract interpretation of the graph builder over most-general clients (forest of depth 4 with a shared secondary, derived luminosity with "
               "nested secondaries, arbitrary observed / uses_distance flags): for every pair of components the presence condition of the edge must be "
               "exactly the condition the property states, on the synth before and after a draw, on the population, and after cleaning and attaching "
               "other samplers.")


def expectations(g, derived, aux, lum, tag):
    tags = list(T.samplers(derived, aux))
    E = dict.fromkeys(T.edges(derived, aux))
    out = []
    for n in ["sp.name", "'obs_flux'"] + (["lum.name"] if lum else []) + ["'%s'" % t for t in tags]:
        out.append("EQ(%s.has_node(%s), True, 'node %s %s')" % (g, n, n.strip("'"), tag))
    out.append("EQ(%s.has_edge(sp.name, 'obs_flux'), True, 'spatial -> observed flux %s')" % (g, tag))
    if lum:
        out.append("EQ(%s.has_edge(lum.name, 'obs_flux'), True, 'luminosity -> observed flux %s')" % (g, tag))
    if derived:
        out.append("EQ(%s.has_edge('dl', 'obs_flux'), True, 'derived luminosity -> observed flux %s')" % (g, tag))
    for t in tags:
        ob = "flag('observed:%s')" % t if t != "dl" else "False"
        out.append("EQ(%s.has_edge(sp.name, '%s'), flag('ud:%s'), 'spatial -> %s %s')" % (g, t, t, t, tag))
        out.append("EQ(%s.has_edge('%s', '%s_obs'), %s, '%s -> its observed quantity %s')" % (g, t, t, ob, t, tag))
        out.append("EQ(%s.has_node('%s_obs'), %s, 'observed quantity of %s %s')" % (g, t, ob, t, tag))
        for u in tags:
            if u != t:
                out.append("EQ(%s.has_edge('%s', '%s'), %s, '%s -> %s %s')" % (g, t, u, (t, u) in E, t, u, tag))
                out.append("EQ(%s.has_edge('%s', '%s_obs'), False, '%s -> observed quantity of %s %s')" % (g, t, u, t, u, tag))
    out.append("EQ(%s.is_directed(), True, 'directed %s')" % (g, tag))
    return "\n".join(out) + "\n"


def survey(ctx, name, derived=False, aux=True, draw=True, **o):
    src = T.setup(derived, aux, **o)
    src += "g0 = synth.graph\n" + expectations("g0", derived, aux, not derived, "before drawing")
    if draw:
        src += T.DRAW + expectations("pop.graph", derived, aux, not derived, "of the population")
        src += "g1 = synth.graph\n" + expectations("g1", derived, aux, not derived, "after drawing")
    sc = ctx.scene("graph " + name, src)
    ctx.check_all(sc, "graph")


def stale(ctx):
    src = T.setup(True) + '''
g = synth.graph
one = synth.draw_survey()
synth.clean(reset=flag("reset"))
b1 = Smp("b1", observed=flag("observed:b1"), uses_distance=flag("ud:b1"))
synth.add_observed_quantity(b1)
h = synth.graph
'''
    gone = T.DER + T.ALL
    for g in ("h", "pop.graph"):
        if g != "h":
            src += "pop = synth.draw_survey()\n"
        for t in gone:
            src += "EQ(%s.has_node('%s'), False, 'removed sampler %s in %s')\n" % (g, t, t, g)
            src += "EQ(%s.has_node('%s_obs'), False, 'observed quantity of removed sampler %s in %s')\n" % (g, t, t, g)
        src += "EQ(%s.has_node('b1'), True, 'new sampler in %s')\n" % (g, g)
        src += "EQ(%s.has_edge('b1', 'b1_obs'), flag('observed:b1'), 'new sampler observed in %s')\n" % (g, g)
        src += "EQ(%s.has_edge(lum.name, 'obs_flux'), True, 'luminosity -> observed flux in %s')\n" % (g, g)
        src += "EQ(%s.has_edge(sp.name, 'obs_flux'), True, 'spatial -> observed flux in %s')\n" % (g, g)
    sc = ctx.scene("graph after cleaning", src)
    ctx.check_all(sc, "stale")


def grown(ctx):
    """samplers attached after the graph was looked at appear; a secondary added later appears"""
    src = T.GENERIC + T.FOREST + '''
lum = ParetoDistribution()
lum.Lmin = 1.0
lum.alpha = 2.0
sp = spatial()
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lum, seed=1)
g = synth.graph
m1 = Smp("m1", observed=flag("observed:m1"))
synth.add_observed_quantity(m1)
g = synth.graph
EQ(g.has_node("m1"), True, "sampler attached after the graph was shown")
m2 = Smp("m2", observed=flag("observed:m2"), uses_distance=flag("ud:m2"))
m1.set_secondary_sampler(m2)
g = synth.graph
EQ(g.has_edge("m2", "m1"), True, "secondary attached after the graph was shown")
EQ(g.has_edge("m2", "m2_obs"), flag("observed:m2"), "observed secondary attached after the graph was shown")
EQ(g.has_edge(sp.name, "m2"), flag("ud:m2"), "distance dependent secondary attached after the graph was shown")
m3 = Smp("m3", observed=flag("observed:m3"), uses_distance=flag("ud:m3"))
m2.set_secondary_sampler(m3)
g = synth.graph
EQ(g.has_edge("m3", "m2"), True, "nested secondary attached after the graph was shown")
EQ(g.has_edge(sp.name, "m3"), flag("ud:m3"), "distance dependent nested secondary attached after the graph was shown")
'''
    sc = ctx.scene("graph while building", src)
    ctx.check_all(sc, "graph")


def check(ctx):
    for n, kw in T.VARIANTS[:3]:
        ctx.run(survey, ctx, n, **kw)
    ctx.run(survey, ctx, "plain", aux=False)
    ctx.run(stale, ctx)
    ctx.run(grown, ctx)
