"""C14: samplers are drawn in dependency order, once per survey, with context."""
from . import topo as T

EXPLANATION = ("Typestate / happens-before analysis by abstract interpretation: generic samplers (forest of depth 4 with a shared secondary, derived-luminosity "
               "sampler with nested secondaries) record, at each callback from the library, the order of calls and the value numbers of the context they "
               "see (distances, angles, luminosities, secondaries' values, size).  Obligations compare these with the arrays the population reports, for "
               "all observed / uses_* flags.")


def survey(ctx, name, derived=False, aux=True, flux=True, dist=True, spat=True, progress=False, kw="flux_sigma=real('fs'), normalize=flag('norm')", attach=None):
    tags = list(T.samplers(derived, aux))
    src = T.setup(derived, aux, flux, dist, spat)
    if attach:
        src += attach
    src += "pop = synth.draw_survey(%s)\n" % kw
    # selections use the same record keys as the samplers: keep them apart
    src = src.replace("note(\"dist:\" + t,", "note(\"sel-dist:\" + t,").replace("note(\"lum:\" + t,", "note(\"sel-lum:\" + t,") \
        .replace("note(\"size:\" + t,", "note(\"sel-size:\" + t,").replace("note(\"theta:\" + t,", "note(\"sel-theta:\" + t,") \
        .replace("note(\"phi:\" + t,", "note(\"sel-phi:\" + t,")
    src += "n = len(pop.selection)\nL = pop.luminosities.latent\nR = pop.distances.latent\n"
    for t in tags:
        q = "pop.%s" % t
        src += "EQ(COUNT.get('true:%s', 0), 1, '%s draws its true values exactly once')\n" % (t, t)
        src += "EQ(COUNT.get('sel:%s', 0), 1, 'the selection of %s is evaluated exactly once')\n" % (t, t)
        src += "EQ(SEEN['dist:%s'], R, '%s sees the distances before it draws')\n" % (t, t)
        src += "EQ(SEEN['theta:%s'], np.asarray(pop.theta), '%s sees the polar angles before it draws')\n" % (t, t)
        src += "EQ(SEEN['phi:%s'], np.asarray(pop.phi), '%s sees the azimuths before it draws')\n" % (t, t)
        src += "EQ(SEEN['ra:%s'], np.asarray(pop.ra), '%s sees the right ascension')\n" % (t, t)
        src += "EQ(SEEN['dec:%s'], np.asarray(pop.dec), '%s sees the declination')\n" % (t, t)
        src += "EQ(SEEN['size:%s'], n, '%s draws as many values as there are objects')\n" % (t, t)
        src += "EQ(len(%s.latent), n, '%s reports as many values as there are objects')\n" % (q, t)
        src += "EQ(%s.latent, array('true:%s#1', n), 'the reported true values of %s are the drawn ones')\n" % (q, t, t)
        if t != "dl":
            src += "if flag('observed:%s'):\n" % t
            src += "    EQ(COUNT.get('obs:%s', 0), 1, '%s draws its observed values exactly once')\n" % (t, t)
            src += "    EQ(SEEN['true-at-obs:%s'], %s.latent, '%s has its true values when it draws the observed ones')\n" % (t, q, t)
            src += "    EQ(SEEN['val:%s'], array('obs:%s#1', n), '%s has its observed values when its selection is evaluated')\n" % (t, t, t)
            src += "    EQ(np.asarray(%s), array('obs:%s#1', n), '%s reports the drawn observed values')\n" % (q, t, t)
            src += "else:\n"
            src += "    EQ(COUNT.get('obs:%s', 0), 0, '%s draws no observed values')\n" % (t, t)
            src += "    EQ(SEEN['val:%s'], array('true:%s#1', n), '%s has its values when its selection is evaluated')\n" % (t, t, t)
        if t not in T.DER:
            src += "if flag('ul:%s'):\n    EQ(SEEN['lum:%s'], L, '%s sees the luminosities before it draws')\n" % (t, t, t)
    for c, p in T.edges(derived, aux):
        src += "EQ(SEEN['sec:%s:%s'], pop.%s.latent, '%s is drawn before its parent %s')\n" % (p, c, c, c, p)
        src += "EQ(SEEN['secobs:%s:%s'], np.asarray(pop.%s), '%s is observed before its parent %s is drawn')\n" % (p, c, c, c, p)
    if derived:
        src += "EQ(COUNT.get('lum:dl', 0), 1, 'the derived luminosity is computed once')\n"
        src += "EQ(L, array('lum:dl#1', n), 'the luminosities are the derived ones')\n"
    sc = ctx.scene("draw order " + name, src, progress=progress)
    ctx.check_all(sc, "draw-order")


ATTACH = '''
z1 = Smp("z1", observed=flag("observed:z1"), uses_distance=flag("ud:z1"), uses_luminosity=flag("ul:z1"))
z0 = Smp("z0")
'''


def again(ctx):
    """a second survey after a reset draws every sampler again, once"""
    src = T.setup(True) + '''
one = synth.draw_survey(flux_sigma=real("fs"))
synth.clean(reset=True)
synth.add_observed_quantity(der["dl"])
for n in ("a1", "a2", "a3"):
    synth.add_observed_quantity(aux[n])
pop = synth.draw_survey(flux_sigma=real("fs"), n_samples=integer("other_n"))
'''
    for t in T.DER + T.ALL:
        src += "EQ(COUNT.get('true:%s', 0), 2, '%s draws its true values once per survey')\n" % (t, t)
        src += "EQ(pop.%s.latent, array('true:%s#2', integer('other_n')), 'the second survey reports the second values of %s')\n" % (t, t, t)
    for c, p in T.DEDGES + T.EDGES:
        src += "EQ(SEEN['sec:%s:%s'], pop.%s.latent, 'second survey: %s is drawn before its parent %s')\n" % (p, c, c, c, p)
    sc = ctx.scene("draw order second survey", src)
    ctx.check_all(sc, "draw-order")


def check(ctx):
    for n, kw in T.VARIANTS[:3]:
        ctx.run(survey, ctx, n, **kw)
    ctx.run(survey, ctx, "fixed number", derived=True, kw="n_samples=integer('n_samples')")
    ctx.run(survey, ctx, "no flux selection", derived=True, flux=False, dist=False, spat=False, kw="")
    ctx.run(survey, ctx, "progress bars", derived=False, progress=True)
    ctx.run(again, ctx)
