"""C02: detection is the conjunction of all attached selections."""
from . import topo as T

EXPLANATION = ("Abstract interpretation of draw_survey over most-general clients: every selection attached anywhere (flux, spatial, top-level "
               "samplers, derived-luminosity sampler, secondaries to depth 3, one shared secondary) returns an arbitrary mask; the value number "
               "of the population's selection must equal the element-wise conjunction of exactly those masks, for all settings of the "
               "observed / uses_* flags; `+` on selections is checked to be AND and to leave its operands alone; realistic combinations of the "
               "built-in selections are checked against the formula evaluated on the quantities the population itself reports.")


def survey(ctx, name, derived=False, aux=True, flux=True, dist=True, spat=True, progress=False, n_samples=False):
    tags = list(T.samplers(derived, aux))
    sels = tags + (["FLUX"] if flux else []) + (["SPAT"] if spat else [])
    src = T.setup(derived, aux, flux, dist, spat)
    if n_samples:
        src += "pop = synth.draw_survey(flux_sigma=real('fs'), n_samples=integer('n_samples'), log10_flux_draw=flag('l10'))\n"
    else:
        src += "pop = synth.draw_survey(flux_sigma=real('fs'), normalize=flag('norm'))\n"
    src += "n = len(pop.selection)\nwant = np.ones(n, dtype=bool)\n"
    for s in sels:
        src += "want = want & boolarray('keep:sel:%s#1', n)\n" % s
    src += "EQ(pop.selection, want, 'detection is the conjunction of the attached selections')\n"
    for s in sels:
        src += "EQ(COUNT.get('sel:%s', 0), 1, 'selection of %s is evaluated')\n" % (s, s)
    for n in tags:
        src += detected(n)
    for q in ("fluxes", "luminosities", "distances", "theta", "phi"):
        src += detected(q)
    sc = ctx.scene("conjunction " + name, src, progress=progress)
    ctx.check_all(sc, "conjunction", labels=["detection is the conjunction of the attached selections"])


def detected(q):
    return ("EQ(np.asarray(pop.%(q)s.selected), np.asarray(pop.%(q)s)[want], 'detected %(q)s')\n"
            "EQ(pop.%(q)s.selected.latent, pop.%(q)s.latent[want], 'latent detected %(q)s')\n"
            "EQ(np.asarray(pop.%(q)s.non_selected), np.asarray(pop.%(q)s)[~want], 'hidden %(q)s')\n" % {"q": q})


def operator(ctx):
    src = T.GENERIC + '''
a = Sel("A")
b = Sel("B")
a.select(integer("n"))
b.select(integer("n"))
fa = freeze(a.selection)
fb = freeze(b.selection)
c = a + b
EQ(c.selection, boolarray("keep:sel:A#1", integer("n")) & boolarray("keep:sel:B#1", integer("n")), "a + b keeps what both keep")
EQ(a.selection, fa, "a + b leaves a alone")
EQ(b.selection, fb, "a + b leaves b alone")
d = c + Sel("C") if False else c
d += b
EQ(a.selection, fa, "accumulating leaves a alone")
EQ(b.selection, fb, "accumulating leaves b alone")
EQ(d.selection, boolarray("keep:sel:A#1", integer("n")) & boolarray("keep:sel:B#1", integer("n")), "accumulating is a conjunction")
EQ(c.n_selected, sum(c.selection), "number selected")
EQ(c.n_non_selected, sum(~c.selection), "number not selected")
EQ(c.selection_index, np.where(c.selection)[0], "selected positions")
EQ(c.non_selection_index, np.where(~c.selection)[0], "non-selected positions")
'''
    sc = ctx.scene("selection operator", src)
    ctx.check_all(sc, "operator", labels=["a + b keeps what both keep", "accumulating is a conjunction"])


REAL = '''
from popsynth.aux_samplers.normal_aux_sampler import NormalAuxSampler
from popsynth.aux_samplers.lognormal_aux_sampler import LogNormalAuxSampler
from popsynth.distributions.spherical_distribution import ConstantSphericalDistribution
from popsynth.distributions.pareto_distribution import ParetoDistribution
sp = ConstantSphericalDistribution()
sp.Lambda = real("Lambda")
lum = ParetoDistribution()
lum.Lmin = real("Lmin")
lum.alpha = real("alpha")
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lum, seed=integer("seed"))
p = NormalAuxSampler(name="p", observed=flag("po"))
p.mu = real("pmu")
p.tau = real("ptau")
p.sigma = real("psigma")
q = LogNormalAuxSampler(name="q", observed=True)
q.mu = real("qmu")
q.tau = real("qtau")
q.sigma = real("qsigma")
p.set_secondary_sampler(q)
psel = S.BoxSelection(use_obs_value=True)
psel.vmin = real("pmin")
psel.vmax = real("pmax")
qsel = S.LowerBound(use_luminosity=True)
qsel.boundary = real("qb")
p.set_selection_probability(psel)
q.set_selection_probability(qsel)
r = NormalAuxSampler(name="r", observed=True)
r.mu = real("rmu")
r.tau = real("rtau")
r.sigma = real("rsigma")
rsel = S.UpperBound(use_distance=True)
rsel.boundary = real("rb")
r.set_selection_probability(rsel)
synth.add_observed_quantity(p)
synth.add_observed_quantity(r)
fsel = S.HardFluxSelection()
fsel.boundary = real("fb")
synth.set_flux_selection(fsel)
pop = synth.draw_survey(flux_sigma=real("fs"))
want = ((np.asarray(pop.p) >= real("pmin")) & (np.asarray(pop.p) <= real("pmax")) & (pop.luminosities.latent >= real("qb"))
        & (pop.distances.latent <= real("rb")) & (np.asarray(pop.fluxes) >= real("fb")))
EQ(pop.selection, want, "detection follows the reported quantities")
'''


# selections that look alike are still separate: equal classes, names, limits; one object attached to several samplers
ALIKE = REAL.split("psel = S.BoxSelection")[0].replace('p.set_secondary_sampler(q)\n', '') + '''
r = NormalAuxSampler(name="r", observed=True)
r.mu = real("rmu")
r.tau = real("rtau")
r.sigma = real("rsigma")
r.set_secondary_sampler(q)
def limit(b):
    s = S.LowerBound(use_obs_value=True)
    s.boundary = b
    return s
one = limit(real("b"))
p.set_selection_probability(one)
q.set_selection_probability(%s)
r.set_selection_probability(%s)
synth.add_observed_quantity(p)
synth.add_observed_quantity(r)
fsel = S.LowerBound(use_flux=True)
fsel.boundary = real("b")
synth.set_flux_selection(fsel)
pop = synth.draw_survey(flux_sigma=real("fs"))
want = (np.asarray(pop.p) >= real("b")) & (np.asarray(pop.q) >= real("b")) & (np.asarray(pop.r) >= %s) & (np.asarray(pop.fluxes) >= real("b"))
EQ(pop.selection, want, "detection follows the reported quantities")
EQ(p.selection, np.asarray(pop.p) >= real("b"), "a sampler answers with its own judgement")
EQ(q.selection, np.asarray(pop.q) >= real("b"), "a sampler answers with its own judgement")
EQ(r.selection, np.asarray(pop.r) >= %s, "a sampler answers with its own judgement")
'''


def alike(ctx, name, qs, rs, rb):
    sc = ctx.scene("selections that look alike: " + name, ALIKE % (qs, rs, rb, rb))
    ctx.check_all(sc, "built-in", labels=["detection follows the reported quantities", "a sampler answers with its own judgement"])


def check(ctx):
    ctx.run(alike, ctx, "equal limits", "limit(real('b'))", "limit(real('b'))", "real('b')")
    ctx.run(alike, ctx, "other limits", "limit(real('b'))", "limit(real('rb'))", "real('rb')")
    ctx.run(alike, ctx, "one object", "one", "one", "real('b')")
    ctx.run(operator, ctx)
    for n, kw in T.VARIANTS:
        ctx.run(survey, ctx, n, **kw)
    ctx.run(survey, ctx, "fixed number", derived=True, n_samples=True)
    ctx.run(survey, ctx, "progress bars", derived=True, progress=True)
    ctx.run(realistic, ctx)


def realistic(ctx):
    sc = ctx.scene("built-in selections combined", REAL)
    ctx.check_all(sc, "built-in", labels=["detection follows the reported quantities"])
