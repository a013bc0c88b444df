"""C21: every draw returns exactly the requested number of objects."""
from ..terms import subterms, show, Term, is_const, cval, NONE
from ..shape import kind_of
from . import topo as T
from . import catalog as K
from . import draws as D
from .c16 import strip

EXPLANATION = ("Every built-in sampler, luminosity distribution, spatial distribution and selection is drawn abstractly with n, 0 and 1 objects and symbolic parameters; the "
               "lengths of the values, densities and masks must be n, every variate they are made of must be drawn once per object (a variate array of size n, or one "
               "scalar variate per pass of a loop over the objects) and the mask of a selection must be boolean.")
SIZES = ('integer("N")', "0", "1")


def independent(ctx, sc, subject, value, n, extra=()):
    """no variate of the value is shared by several objects"""
    for r in sorted(D.variates(value), key=lambda r: r.id):
        size = r.args[3]
        inloop = any(x.op == "phi" and isinstance(x.args[1], tuple) and x.args[1][0] == "R" for x in subterms(r.args[2]))
        if not isinstance(size, Term) or size is NONE:
            ok = inloop
        else:
            ok = sc.equal(size, n).equal or inloop
        ctx.expect(ok, "independence", subject, r.loc or value.loc,
                   "%s shares one %s variate (size %s) between its objects" % (subject, r.args[0], show(size, 4) if isinstance(size, Term) else size))


def size_name(n):
    return "n" if "integer" in n else n


def aux(ctx, it, n):
    src = it.build("s", extra="observed=flag('observed')" if "observed" in it.optional else "") + T.GENERIC + '''
N = %s
sel = Sel("keep")
s.set_selection_probability(sel)
s.draw(size=N)
EQ(len(s.true_values), N, "true values")
EQ(len(s.obs_values), N, "observed values")
EQ(len(s.selector.selection), N, "selection")
EQ(len(s.probability), N, "density")
mark("true", freeze(s.true_values))
mark("n", N)
''' % n
    sc = ctx.scene("%s drawing %s" % (it.name, size_name(n)), src)
    ctx.check_all(sc, "size", labels=["true values", "observed values", "density"])
    m = D.marks(sc)
    independent(ctx, sc, it.name, strip(m["true"]), m["n"])


def lum(ctx, it, n):
    src = it.build("d") + '''
N = %s
L = d.draw_luminosity(size=N)
EQ(len(L), N, "luminosities")
d.compute_probability(L)
EQ(len(d.probability), N, "density")
mark("L", freeze(L))
mark("n", N)
''' % n
    sc = ctx.scene("%s drawing %s" % (it.name, size_name(n)), src)
    ctx.check_all(sc, "size", labels=["luminosities", "density"])
    m = D.marks(sc)
    independent(ctx, sc, it.name, strip(m["L"]), m["n"])


def spatial(ctx, it, n, progress):
    src = it.build("sp", extra="is_rate=flag('is_rate')" if "is_rate" in it.optional else "") + '''
sp.r_max = real("rmax")
N = %s
sp.draw_distance(size=N, normalize=flag("norm"))
EQ(len(sp.distances), N, "distances")
EQ(len(sp.probability), N, "density")
mark("distances", freeze(sp.distances))
sp.draw_sky_positions(N)
EQ(len(sp.theta), N, "polar angles")
EQ(len(sp.phi), N, "azimuths")
EQ(len(sp.distances), N, "final distances")
mark("theta", freeze(sp.theta))
mark("phi", freeze(sp.phi))
mark("final", freeze(sp.distances))
mark("n", N)
''' % n
    sc = ctx.scene("%s drawing %s%s" % (it.name, size_name(n), " with progress bar" if progress else ""), src, progress=progress)
    ctx.check_all(sc, "size", labels=["distances", "density", "polar angles", "azimuths"])
    m = D.marks(sc)
    for k in ("distances", "theta", "phi", "final"):
        independent(ctx, sc, "%s %s" % (it.name, k), strip(m[k]), m["n"])


def selection(ctx, it, n, on=None):
    spatial_ = it.isa("SpatialSelection")
    src = it.build("s", extra="%s=True" % on if on else "") + T.GENERIC + '''
N = %s
sp = spatial()
sp._distances = array("d", N)
sp._theta, sp._phi = array("t", N), array("p", N)
''' % n
    src += "s.set_spatial_distribution(sp)\n" if spatial_ else '''
s.set_observed_value(array("v", N))
s.set_observed_flux(array("f", N))
s.set_distance(array("d", N))
s.set_luminosity(array("L", N))
'''
    src += '''
s.select(size=N) if hasattr(s, "select") else s.draw(size=N)
EQ(len(s.selection), N, "selection")
EQ(s.n_selected, np.sum(s.selection), "number of selected objects")
EQ(s.n_non_selected, N - np.sum(s.selection), "number of hidden objects")
EQ(s.n_objects, N, "number of objects")
mark("selection", freeze(s.selection))
mark("n", N)
'''
    sc = ctx.scene("%s judging %s%s" % (it.name, size_name(n), " by " + on[4:] if on else ""), src)
    ctx.check_all(sc, "size", labels=["selection", "number of selected objects"])
    m = D.marks(sc)
    v = strip(m["selection"])
    k = kind_of(sc.I, v)
    ctx.expect(None if k not in ("bool", "int", "real") else k == "bool", "mask", it.name, v.loc, "the selection of %s is not a boolean mask (%s)" % (it.name, k))
    independent(ctx, sc, it.name, v, m["n"])


def survey(ctx, n, derived):
    src = T.GENERIC + '''
N = %s
sp = spatial()
lum = ParetoDistribution()
synth = popsynth.PopulationSynth(sp, %sseed=integer("seed"))
a, b = Smp("a"), Smp("b")
b.set_secondary_sampler(Smp("c"))
synth.add_auxiliary_sampler(a)
synth.add_auxiliary_sampler(b)
%s
synth.set_flux_selection(Sel("flux"))
pop = synth.draw_survey(n_samples=N, flux_sigma=real("sigma"))
EQ(pop.n_objects, N, "number of objects")
for q in (pop.distances, pop.luminosities, pop.fluxes, pop.theta, pop.phi, pop.a, pop.b, pop.c):
    EQ(len(q), N, "observed values")
    EQ(len(q.latent), N, "true values")
EQ(len(pop.selection), N, "selection")
EQ(len(pop.probability), N, "density")
''' % (n, "" if derived else "luminosity_distribution=lum, ", "synth.add_auxiliary_sampler(Der('dl'))" if derived else "")
    sc = ctx.scene("a survey of %s%s" % (size_name(n), " with derived luminosity" if derived else ""), src)
    ctx.check_all(sc, "size", labels=["number of objects", "observed values", "true values", "selection"])


def check(ctx):
    for n in SIZES:
        for it in K.kinds("aux"):
            ctx.run(aux, ctx, it, n)
        for it in K.kinds("lum"):
            ctx.run(lum, ctx, it, n)
        for it in K.kinds("spatial"):
            for p in (False, True):
                ctx.run(spatial, ctx, it, n, p)
        for it in K.kinds("sel"):
            if it.name == "SpatialSelection":
                continue
            quantities = [p for p in it.optional if p.startswith("use_")]
            for on in quantities or [None]:
                ctx.run(selection, ctx, it, n, on)
        for d in (False, True):
            ctx.run(survey, ctx, n, d)
