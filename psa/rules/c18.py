"""C18: observed sampler values are the true values plus configured noise."""
from . import topo as T
from . import catalog as K
from . import draws as D
from .c16 import strip

EXPLANATION = ("Every built-in auxiliary sampler is drawn with symbolic parameters and any number of objects, observed and unobserved, alone, as a secondary and in a "
               "survey; the observed values must be the true values plus sigma times exactly one standard normal variate per object that the true values do not "
               "depend on, or the true values themselves, and drawing the observed values must leave the true values as they were.  Driver-defined samplers show "
               "the same for the base class.")
ASSUMPTIONS = ("scipy.stats.norm.rvs and numpy.random.normal deliver independent normal variates",)


def observed(ctx, it, how):
    name = "%s %s" % (it.name, how)
    src = it.build("s", extra="observed=True" if "observed" in it.optional else "")
    src += 'N = integer("N")\n' + T.GENERIC
    if how == "alone":
        src += '''
sel = Sel("keep")
s.set_selection_probability(sel)
s.draw(size=N)
true, obs, seen = s.true_values, s.obs_values, SEEN["val:keep"]
'''
    elif how == "as secondary":
        src += '''
p = Smp("parent")
p.set_secondary_sampler(s)
p.set_spatial_values(popsynth.distribution.SpatialContainer(array("d", N), array("t", N), array("p", N)))
p.set_luminosity(array("L", N))
p.draw(size=N)
true, obs, seen = s.true_values, s.obs_values, s.obs_values
'''
    else:
        src += '''
sp = spatial()
lum = ParetoDistribution()
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lum, seed=integer("seed"))
synth.add_auxiliary_sampler(s)
pop = synth.draw_survey(n_samples=N)
var = getattr(pop, s.name)
true, obs, seen = var.latent, np.asarray(var), np.asarray(var)
'''
    has = "sigma" in it.params
    src += D.PLACEHOLDERS + '''
mark("true", freeze(true))
mark("obs", freeze(obs))
mark("n", N)
EQ(len(obs), N, "number of observed values")
EQ(seen, obs, "what the selection judges")
mark("reference", freeze(true + %s * slot("stdnormal", 0)))
''' % ("real('s_sigma')" if has else "0")
    if not has:
        src += 'EQ(obs, true, "observed values")\n'
    sc = ctx.scene(name, src, prelude="import popsynth.distribution\nimport popsynth\nimport numpy as np\n")
    ctx.check_all(sc, "noise", labels=["number of observed values"] + ([] if has else ["observed values"]))
    if has:
        m = D.marks(sc)
        D.formula(ctx, sc, "noise", name, strip(m["obs"]), [strip(m["reference"])], ["stdnormal"], m["n"], given=[m["true"]],
                  guard=sc.I.marks["reference"][0], what="the observed value")


def unobserved(ctx, it):
    src = it.build("s", extra="observed=False") + '''
N = integer("N")
s.draw(size=N)
EQ(s.obs_values, s.true_values, "observed values")
EQ(len(s.true_values), N, "number of values")
'''
    sc = ctx.scene("%s unobserved" % it.name, src)
    ctx.check_all(sc, "noise", labels=["observed values", "number of values"])


def untouched(ctx, it):
    src = it.build("s", extra="observed=flag('observed')" if "observed" in it.optional else "") + '''
N = integer("N")
s.true_sampler(N)
before = freeze(s.true_values)
s.observation_sampler(N)
EQ(freeze(s.true_values), before, "true values after drawing the observed ones")
t = s.true_values
s.observation_sampler(N)
EQ(freeze(t), before, "true values after drawing again")
'''
    sc = ctx.scene("%s true values" % it.name, src)
    ctx.check_all(sc, "true values", labels=["true values after drawing the observed ones", "true values after drawing again"])


def base(ctx):
    src = T.GENERIC + '''
N = integer("N")
a = Smp("a", observed=False)
b = Smp("b", observed=True)
u = Smp("u", observed=flag("seen"))
d = Der("dl")
v = SpatialC = popsynth.distribution.SpatialContainer(array("d", N), array("t", N), array("p", N))
for s in (a, b, u, d):
    s.set_spatial_values(v)
    s.draw(size=N)
EQ(a.obs_values, a.true_values, "unobserved")
EQ(a.true_values, array("true:a#1", N), "true values of an unobserved sampler")
EQ(b.true_values, array("true:b#1", N), "true values of an observed sampler")
EQ(b.obs_values, array("obs:b#1", N), "observed")
EQ(u.true_values, array("true:u#1", N), "true values")
EQ(u.obs_values, array("obs:u#1", N) if flag("seen") else array("true:u#1", N), "observed or not")
EQ(d.obs_values, d.true_values, "derived luminosity")
EQ(COUNT.get("obs:a", 0), 0, "observation draws of an unobserved sampler")
EQ(COUNT.get("obs:b", 0), 1, "observation draws of an observed sampler")
'''
    sc = ctx.scene("any sampler", src, prelude="import popsynth.distribution\nimport popsynth\nimport numpy as np\n")
    ctx.check_all(sc, "noise", labels=["unobserved", "observed", "observed or not", "derived luminosity"])


def check(ctx):
    for it in K.kinds("aux"):
        ctx.run(untouched, ctx, it)
        for how in ("alone", "as secondary", "in a survey"):
            ctx.run(observed, ctx, it, how)
        if "observed" in it.optional:
            ctx.run(unobserved, ctx, it)
    ctx.run(base, ctx)
