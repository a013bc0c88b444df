"""C04: every selection judges the quantity of its own objects."""
from . import topo as T

EXPLANATION = ("Abstract interpretation of draw_survey over most-general clients: generic selections record the value numbers of the data they hold at "
               "the moment they are evaluated (observed value, distances, luminosities, fluxes, spatial distribution, size); these must equal the "
               "arrays that the returned population reports for the same objects, for every sampler at every depth, with and without a derived "
               "luminosity, for all observed / uses_* flags.")


def survey(ctx, name, derived=False, aux=True, flux=True, dist=True, spat=True, progress=False, kw="flux_sigma=real('fs'), normalize=flag('norm')"):
    tags = list(T.samplers(derived, aux))
    src = T.setup(derived, aux, flux, dist, spat) + "pop = synth.draw_survey(%s)\n" % kw
    src += "n = len(pop.selection)\nL = pop.luminosities.latent\nR = pop.distances.latent\n"
    for t in tags:
        src += "EQ(SEEN['val:%s'], np.asarray(pop.%s), 'selection of %s judges its own observed values')\n" % (t, t, t)
        src += "EQ(SEEN['dist:%s'], R, 'selection of %s knows the distances')\n" % (t, t)
        if t not in T.DER:
            src += "EQ(SEEN['lum:%s'], L, 'selection of %s knows the luminosities')\n" % (t, t)
        src += "EQ(SEEN['size:%s'], n, 'selection of %s covers all objects')\n" % (t, t)
    if flux:
        src += "EQ(SEEN['flux:FLUX'], np.asarray(pop.fluxes), 'the flux selection judges the observed fluxes')\n"
        src += "EQ(SEEN['size:FLUX'], n, 'the flux selection covers all objects')\n"
    if spat:
        src += ("EQ(SEEN['theta:SPAT'], np.asarray(pop.theta), 'the spatial selection judges the polar angles')\n"
                "EQ(SEEN['phi:SPAT'], np.asarray(pop.phi), 'the spatial selection judges the azimuths')\n"
                "EQ(SEEN['dist:SPAT'], R, 'the spatial selection judges the distances')\n"
                "EQ(SEEN['size:SPAT'], n, 'the spatial selection covers all objects')\n")
    if dist:
        src += ("EQ(SEEN['dist:DIST'], np.asarray(pop.distances)[pop.selection], 'the distance selection judges the detected distances')\n"
                "EQ(SEEN['size:DIST'], sum(pop.selection), 'the distance selection covers the detected objects')\n"
                "EQ(pop.known_distances, np.asarray(pop.distances)[pop.selection][boolarray('keep:sel:DIST#1', sum(pop.selection))], "
                "'known distances are those the distance selection keeps')\n")
    # the generic selection stores the sampler's record under the same key as the sampler: rename
    src = src.replace("note(\"dist:\" + n,", "note(\"sdist:\" + n,").replace("note(\"lum:\" + n,", "note(\"slum:\" + n,") \
        .replace("note(\"size:\" + n,", "note(\"ssize:\" + n,")
    sc = ctx.scene("judged quantities " + name, src, progress=progress)
    ctx.check_all(sc, "judged-quantity")


def check(ctx):
    for n, kw in T.VARIANTS:
        ctx.run(survey, ctx, n, **kw)
    ctx.run(survey, ctx, "no flux scatter", derived=True, kw="")
    ctx.run(survey, ctx, "natural log fluxes", derived=False, kw="flux_sigma=real('fs'), log10_flux_draw=False")
    ctx.run(survey, ctx, "fixed number", derived=True, kw="n_samples=integer('n_samples')")
    ctx.run(survey, ctx, "progress bars", derived=True, progress=True)
