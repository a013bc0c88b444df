"""C06: known and unknown distances partition the detected objects."""
from . import topo as T

EXPLANATION = ("Symbolic bookkeeping over arbitrary masks: a survey is analysed with arbitrary selections and an arbitrary distance selection; the known "
               "distances, the known / unknown indices (as exported to Stan, 1-based), and all counts must equal, as terms, those derived from the two "
               "masks alone.  The same is required of sub-populations (detected and hidden) and of populations read back from files and groups; a survey "
               "must also complete when no object is detected and when no detected object has a distance.")


def facts(who, det, keep, n, tag):
    """det: number of detected objects; keep: mask of known distances among them"""
    s = "st = %s.to_stan_data()\n" % who
    lab = lambda x: repr("%s (%s)" % (x, tag))
    s += "EQ(%s.n_detections, %s, %s)\n" % (who, det, lab("number of detections"))
    s += "EQ(%s.n_objects, %s, %s)\n" % (who, n, lab("number of objects"))
    s += "EQ(%s.n_non_detections, (%s) - (%s), %s)\n" % (who, n, det, lab("number of non-detections"))
    s += "EQ(st['N'], %s, %s)\n" % (det, lab("Stan: number of detections"))
    s += "EQ(st['Nz'], sum(%s), %s)\n" % (keep, lab("Stan: number of known distances"))
    s += "EQ(st['Nnz'], (%s) - sum(%s), %s)\n" % (det, keep, lab("Stan: number of unknown distances"))
    s += "EQ(len(%s.known_distances), sum(%s), %s)\n" % (who, keep, lab("number of known distances"))
    for z in ("z", "r"):
        s += "EQ(st['%s_idx'], np.where(%s)[0] + 1, %s)\n" % (z, keep, lab("Stan: %s_idx" % z))
        s += "EQ(st['%s_nidx'], np.where(~(%s))[0] + 1, %s)\n" % (z, keep, lab("Stan: %s_nidx" % z))
        s += "EQ(np.asarray(st['%s_obs']), np.asarray(%s.distances)[%s.selection], %s)\n" % (z, who, who, lab("Stan: %s_obs" % z))
        s += "EQ(np.asarray(st['known_%s_obs']), np.asarray(%s.known_distances), %s)\n" % (z, who, lab("Stan: known_%s_obs" % z))
    s += "EQ(np.asarray(%s.known_distances), np.asarray(%s.distances)[%s.selection][%s], %s)\n" % (who, who, who, keep, lab("known distances"))
    s += "EQ(np.asarray(st['flux_obs']), np.asarray(%s.fluxes)[%s.selection], %s)\n" % (who, who, lab("Stan: fluxes"))
    s += "EQ(np.asarray(st['log_flux_obs']), np.log10(np.asarray(%s.fluxes)[%s.selection]), %s)\n" % (who, who, lab("Stan: log fluxes"))
    return s


def bookkeeping(ctx, name, derived=False, aux=True, flux=True, dist=True, spat=True, kw="flux_sigma=real('fs'), normalize=flag('norm')", progress=False):
    src = T.setup(derived, aux, flux, dist, spat) + "synth.add_model_space('space', real('start'), real('stop'))\npop = synth.draw_survey(%s)\n" % kw
    src += "k = pop.selection\nn = len(pop.fluxes)\ndet = sum(k)\n"
    keep = "boolarray('keep:sel:DIST#1', det)" if dist else "np.ones(det, dtype=bool)"
    src += "keep = %s\n" % keep
    src += facts("pop", "det", "keep", "n", "survey")
    for t in T.samplers(derived, aux):
        src += "EQ(np.asarray(st['%s_obs']), np.asarray(pop.%s)[k], 'Stan: %s_obs')\n" % (t, t, t)
    src += "EQ((st['flux_sigma'], st['z_max'], st['r_max'], st['N_model']), (pop.flux_sigma, sp.r_max, sp.r_max, len(st['space'])), 'Stan: constants')\n"
    src += "sub = pop.to_sub_population()\n" + facts("sub", "det", "keep", "det", "sub-population")
    src += "EQ(np.asarray(sub.distances), np.asarray(pop.distances)[k], 'distances of the sub-population')\n"
    src += "EQ(np.asarray(sub.known_distances), np.asarray(pop.known_distances), 'known distances of the sub-population')\n"
    src += "hid = pop.to_sub_population(observed=False)\n" + facts("hid", "n - det", "np.zeros(n - det, dtype=bool)", "n - det", "hidden sub-population")
    src += "EQ(np.asarray(hid.distances), np.asarray(pop.distances)[~k], 'distances of the hidden sub-population')\n"
    src += "ss = sub.to_sub_population()\n" + facts("ss", "det", "keep", "det", "sub-population of a sub-population")
    src += "pop.writeto('out.h5')\nback = popsynth.Population.from_file('out.h5')\n" + facts("back", "det", "keep", "n", "file")
    src += "sub.writeto('sub.h5')\nbs = popsynth.Population.from_file('sub.h5')\n" + facts("bs", "det", "keep", "det", "file of a sub-population")
    src += "pop.addto('sub.h5', 'grp')\ngrp = popsynth.Population.from_group('sub.h5', 'grp')\n" + facts("grp", "det", "keep", "n", "group")
    src += "sg = back.to_sub_population()\n" + facts("sg", "det", "keep", "det", "sub-population of a file")
    sc = ctx.scene("bookkeeping " + name, src, progress=progress)
    ctx.check_all(sc, "bookkeeping")


def empty(ctx, name, sels):
    """surveys without detections, without distances, or with all of them complete"""
    src = T.setup(False, True) + sels + '''
pop = synth.draw_survey(flux_sigma=real("fs"))
st = pop.to_stan_data()
sub = pop.to_sub_population()
hid = pop.to_sub_population(observed=False)
x = repr(pop)
EQ(len(pop.known_distances) + st["Nnz"], sum(pop.selection), "known and unknown distances cover the detected objects")
EQ(pop.n_detections + pop.n_non_detections, len(pop.selection), "detections and non-detections cover all objects")
'''
    sc = ctx.scene("any number of detections " + name, src, implicit=True)
    ctx.check_all(sc, "any-number")


BUILTIN = {
    "unity": "d = S.UnitySelection()\n", "bernoulli": "d = S.BernoulliSelection()\nd.probability = real('prob')\n",
    "box": "d = S.BoxSelection(use_distance=True)\nd.vmin = real('vmin')\nd.vmax = real('vmax')\n",
    "upper": "d = S.UpperBound(use_distance=True)\nd.boundary = real('b')\n", "lower": "d = S.LowerBound(use_distance=True)\nd.boundary = real('b')\n",
    "soft": "d = S.SoftSelection(use_distance=True)\nd.boundary = real('b')\nd.strength = real('s')\n"}


def builtin(ctx, name, build, progress):
    src = T.setup(False, True, dist=False) + build + '''
synth.set_distance_selection(d)
pop = synth.draw_survey(flux_sigma=real("fs"))
k = pop.selection
n = len(k)
det = sum(k)
keep = d.selection
EQ(len(keep), det, "one decision per detected object")
''' + facts("pop", "det", "keep", "n", name)
    sc = ctx.scene("distance selection %s%s" % (name, " with progress bars" if progress else ""), src, progress=progress)
    ctx.check_all(sc, "built-in")


def check(ctx):
    for n, kw in T.VARIANTS:
        ctx.run(bookkeeping, ctx, n, **kw)
    ctx.run(bookkeeping, ctx, "without distance selection", dist=False)
    ctx.run(bookkeeping, ctx, "fixed number", derived=True, kw="n_samples=integer('n_samples')")
    ctx.run(bookkeeping, ctx, "progress bars", derived=True, progress=True)
    ctx.run(empty, ctx, "generic", "")
    ctx.run(empty, ctx, "unity distances", "synth.set_distance_selection(S.UnitySelection())\n")
    for n, b in BUILTIN.items():
        ctx.run(builtin, ctx, n, b, False)
        ctx.run(builtin, ctx, n, b, True)
