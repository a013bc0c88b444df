"""C01: same configuration and seed => same survey."""
from ..terms import *
from ..lib import sym
from .base import fmt_loc
from . import catalog as K
from . import topo as T

EXPLANATION = ("Information-flow / effect analysis: two surveys of identically configured synths with the same symbolic seed are "
               "interpreted abstractly, with an unrelated survey in between; every field of the two populations must have the same "
               "value number (random draws are uninterpreted functions of the generator state, so any dependence on an unseeded "
               "generator, earlier surveys or module state shows up as a different value number).  Every random-number, seeding, "
               "clock and hash-order event reached from draw_survey is checked against the effect rule.")


def window(sc, a, b):
    on = False
    for e in sc.I.events:
        if e.kind == "mark":
            l = cval(e.data[0])
            if l == a:
                on = True
                continue
            if l == b:
                on = False
        elif on:
            yield e


def effects(ctx, sc, seedterm, a, b, forbid_seed=True):
    """effect rule on everything that happens between two marks"""
    first_rand = None
    nseed = 0
    for e in window(sc, a, b):
        where = e.loc[2]
        if e.kind == "seed":
            v = e.data[0]
            tag = show(e.data[1]) if len(e.data) > 1 else ""
            nseed += 1
            if e.guard is not FALSE and not sc.equal(v, seedterm, e.guard).equal:
                ctx.violation("seed-source", sc.name + ":" + where, e.loc, "the generator is seeded with %s, not with the configured seed" % show(v))
            elif first_rand is not None:
                ctx.violation("reseed", sc.name + ":" + where, e.loc, "the generator is seeded again after random numbers were consumed at %s" % fmt_loc(first_rand.loc))
            else:
                ctx.discharge("seed-source", sc.name + ":" + where)
        elif e.kind == "rand":
            if first_rand is None:
                first_rand = e
            st = e.data[2]
            bad = [x for x in subterms(st) if x.op == "sym" and str(x.args[0]).startswith("unseeded-rng")]
            priv = [x for x in subterms(st) if x.op == "rngprivate"]
            tag = show(e.data[1])
            if bad:
                ctx.violation("unseeded", sc.name + ":" + where, e.loc, "a random number (%s) is drawn from a generator (%s) that the seed does not control"
                              % (show(e.data[0]), show(bad[0])))
            elif priv:
                ctx.violation("private-generator", sc.name + ":" + where, e.loc, "a random number (%s) is drawn from a separate generator %s" % (show(e.data[0]), show(priv[0])))
            elif seedterm is not None and not any(x is seedterm for x in subterms(st)):
                ctx.violation("unseeded", sc.name + ":" + where, e.loc, "the generator state used here does not depend on the configured seed")
            else:
                ctx.discharge("seeded-draw", sc.name + ":" + where)
        elif e.kind == "private-rng":
            if not (e.data and any(x is seedterm for d in e.data if isinstance(d, Term) for x in subterms(d))):
                ctx.violation("private-generator", sc.name + ":" + where, e.loc, "a separate random generator is created during a survey")
        elif e.kind == "nondet":
            if show(e.data[0]).strip("'").startswith(("time.", "datetime.")) and not flows(sc, e):
                continue
            ctx.violation("nondeterminism", sc.name + ":" + where, e.loc, "the survey consults %s" % show(e.data[0]))
    return first_rand, nseed


def flows(sc, e):
    return any(c.kind == "EQ" and any(x.op == "app" and str(x.args[0]).startswith(("time", "datetime")) for x in subterms(c.a)) for c in sc.I.checks)


def config(extra_sel=True):
    return ""


TWIN = '''
%(imports)s
def make(seed):
%(body)s
    return synth
first = make(integer("seed"))
mark("b1")
one = first.draw_survey(%(draw)s)
mark("e1")
other = make(integer("otherseed"))
x = other.draw_survey(%(draw)s)
hash_order(1)
second = make(integer("seed"))
mark("b2")
two = second.draw_survey(%(draw)s)
mark("e2")
mark("pops", one, two)
EQ(one, two, "population of two identical synths")
'''


def body(items, seedkw="seed"):
    imps, lines = [], []
    for it, var, extra, role in items:
        code = it.build(var, prefix=var + "_", extra=extra).strip().split("\n")
        imps.append(code[0])
        lines += code[1:]
    return imps, lines


def twin(ctx, name, sp, lum, auxs=(), fsel=None, dsel=None, ssel=None, draw="flux_sigma=real('fs')", progress=False, seedpos="seed"):
    imps, lines = [], []
    for it, var, extra in [(sp, "sp", ""), (lum, "lm", "")] + [(a, "aux%d" % i, "observed=True" if "observed" in a.optional else "")
                                                               for i, a in enumerate(auxs)] + \
            ([(fsel, "fsel", "")] if fsel else []) + ([(dsel, "dsel", "")] if dsel else []) + ([(ssel, "ssel", "")] if ssel else []):
        if it is None:
            continue
        code = it.build(var, extra=extra).strip().split("\n")
        imps.append(code[0])
        lines += code[1:]
    lines.append("synth = popsynth.PopulationSynth(sp, luminosity_distribution=%s, seed=seed)" % ("lm" if lum else "None"))
    for i, a in enumerate(auxs):
        lines.append("synth.add_observed_quantity(aux%d)" % i)
    if fsel:
        lines.append("synth.set_flux_selection(fsel)")
    if dsel:
        lines.append("synth.set_distance_selection(dsel)")
    if ssel:
        lines.append("synth.add_spatial_selector(ssel)")
    src = TWIN % {"imports": "\n".join(imps), "body": "\n".join("    " + l for l in lines), "draw": draw}
    sc = ctx.scene(name, src, progress=progress)
    ctx.check_all(sc, "same-population", labels=["population of two identical synths"])
    seed = sym("seed", "int", ())
    f, n = effects(ctx, sc, seed, "b1", "e1")
    effects(ctx, sc, seed, "b2", "e2")
    if f is None:
        ctx.undecided("seeded-draw", name, "no random draw reached")
    return sc


FOREST = """
%s
class Dl(DerivedLumAuxSampler):
    _auxiliary_sampler_name = "PsaDl"
    def true_sampler(self, size):
        self._true_values = np.random.uniform(size=size)
    def compute_luminosity(self):
        out = self._true_values
        for k, v in self.secondary_samplers.items():
            out = out + np.exp(v.true_values)
        return out
def make(seed):
    sp = spatial()
    lum = ParetoDistribution()
    lum.Lmin, lum.alpha = real("Lmin"), real("alpha")
    synth = popsynth.PopulationSynth(sp, %sseed=seed)
    smp = {}
    for n in ("a", "b", "c", "d", "e", "f", "g"):
        smp[n] = popsynth.NormalAuxSampler(n, observed=flag("obs:" + n))
        smp[n].mu = real("mu:" + n)
        k = S.SoftSelection(use_obs_value=True)
        k.boundary, k.strength = real("bound:" + n), real("strength:" + n)
        smp[n].set_selection_probability(k)
    for p, c in (("a", "c"), ("a", "d"), ("b", "d"), ("b", "c"), ("c", "e"), ("d", "e"), ("c", "f")):
        smp[p].set_secondary_sampler(smp[c])
    %s
    synth.add_auxiliary_sampler(smp["a"])
    synth.add_auxiliary_sampler(smp["b"])
    synth.add_auxiliary_sampler(smp["g"])
    fs, ds, ss = S.SoftFluxSelection(), S.BernoulliSelection(), S.GalacticPlaneSelection()
    fs.boundary, fs.strength, ds.probability, ss.b_limit = real("fb"), real("fst"), real("p"), real("bl")
    synth.set_flux_selection(fs)
    synth.set_distance_selection(ds)
    synth.add_spatial_selector(ss)
    return synth
first = make(integer("seed"))
desc = first.to_dict()
mark("b1")
one = first.draw_survey(flux_sigma=real("fs"))
mark("e1")
other = make(integer("otherseed"))
x = other.draw_survey(flux_sigma=real("fs"))
hash_order(1)
second = make(integer("seed"))
EQ(desc, second.to_dict(), "description of two identical synths")
mark("b2")
two = second.draw_survey(flux_sigma=real("fs"))
mark("e2")
mark("pops", one, two)
EQ(one, two, "population of two identical synths")
hash_order(0)
%s
"""
REBUILT = """third = popsynth.PopulationSynth.from_dict(desc)
hash_order(1)
fourth = popsynth.PopulationSynth.from_dict(desc)
hash_order(0)
p3 = third.draw_survey(flux_sigma=real("fs"))
hash_order(1)
p4 = fourth.draw_survey(flux_sigma=real("fs"))
EQ(p3, p4, "population of two synths built from the same description")
"""


def forest(ctx, name, derived, progress):
    der = """d = Dl("dl")
    d.set_secondary_sampler(smp["c"])
    d.set_secondary_sampler(smp["d"])
    synth.add_auxiliary_sampler(d)""" if derived else ""
    src = FOREST % (T.GENERIC, "" if derived else "luminosity_distribution=lum, ", der, "" if derived else REBUILT)
    sc = ctx.scene(name, src, progress=progress)
    ctx.check_all(sc, "same-population", labels=["population of two identical synths", "description of two identical synths"] +
                  ([] if derived else ["population of two synths built from the same description"]))
    seed = sym("seed", "int", ())
    effects(ctx, sc, seed, "b1", "e1")
    effects(ctx, sc, seed, "b2", "e2")


def check(ctx):
    for derived in (False, True):
        for pr in (False, True):
            ctx.run(forest, ctx, "samplers%s%s" % (" with derived luminosity" if derived else "", " (progress bars)" if pr else ""), derived, pr)
    cs = K.by_name("ConstantSphericalDistribution")
    sfr = K.by_name("SFRDistribution")
    par = K.by_name("ParetoDistribution")
    B = K.by_name
    for pr in (False, True):
        for sp in K.kinds("spatial"):
            ctx.run(twin, ctx, "spatial %s%s" % (sp.name, " (progress bars)" if pr else ""), sp, par, fsel=B("SoftFluxSelection"), progress=pr)
    for lm in K.kinds("lum"):
        ctx.run(twin, ctx, "luminosity " + lm.name, cs, lm, fsel=B("HardFluxSelection"))
    for a in K.kinds("aux"):
        ctx.run(twin, ctx, "sampler " + a.name, cs, par, auxs=[a])
    for s in K.kinds("sel"):
        for pr in (False, True):
            if s.isa("SpatialSelection"):
                ctx.run(twin, ctx, "spatial selection " + s.name, sfr, par, ssel=s, progress=pr)
            elif "use_distance" in s.optional:
                ctx.run(twin, ctx, "flux selection " + s.name + str(pr), sfr, par, fsel=B("SoftFluxSelection"), dsel=B("BernoulliSelection"), progress=pr)
            else:
                ctx.run(twin, ctx, "distance selection " + s.name + str(pr), sfr, par, fsel=s, dsel=B("BernoulliSelection"), progress=pr)
    ctx.run(prebuilt, ctx)


def prebuilt(ctx):
    """the seed handed to a constructor or stored in a description is the one the survey is seeded with"""
    src = '''
import popsynth.populations as PP
mark("b1")
s = PP.SchechterSFRPopulation(r0=real("r0"), a=real("a"), rise=real("rise"), decay=real("decay"), peak=real("peak"), Lmin=real("Lmin"), alpha=real("alpha"), seed=integer("seed"), r_max=real("rm"))
one = s.draw_survey(flux_sigma=real("fs"))
mark("e1")
d = s.to_dict()
t = popsynth.PopulationSynth.from_dict(d)
mark("b2")
two = t.draw_survey(flux_sigma=real("fs"))
mark("e2")
'''
    sc = ctx.scene("seed of a pre-built population and its description", src)
    seed = sym("seed", "int", ())
    effects(ctx, sc, seed, "b1", "e1")
    effects(ctx, sc, seed, "b2", "e2")
