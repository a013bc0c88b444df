"""C10: ready-made populations configure exactly the distributions they name."""
import ast

from ..terms import *
from . import catalog as K
from .catalog import sig

EXPLANATION = ("Every class of popsynth.populations (discovered from the analysed program) is constructed by an abstract client with a different symbol for every "
               "constructor argument, by keyword, by position and with the optional arguments left out; the resulting synth must be the synth assembled by hand "
               "from the distributions the class name spells out, with every argument on the parameter of the same name (value numbering of all fields), and the "
               "abstract survey drawn from both must be the same term.")

LUM = {"Pareto": "ParetoDistribution", "Schechter": "SchechterDistribution", "BPL": "BPLDistribution", "LogNormal": "LogNormalDistribution",
       "Log10Normal": "Log10NormalDistribution", "": None}
SPATIAL = {"HomogeneousSpherical": "ConstantSphericalDistribution", "Spherical": "ConstantSphericalDistribution", "ZPowerSpherical": "ZPowerSphericalDistribution",
           "ZPowerCosmo": "ZPowerCosmoDistribution", "SFR": "SFRDistribution", "MWRadial": "SpiralGalaxyDistribution"}


def parts(name):
    stem = name[:-len("Population")]
    for l in sorted(LUM, key=len, reverse=True):
        if stem.startswith(l) and stem[len(l):] in SPATIAL:
            return SPATIAL[stem[len(l):]], LUM[l]
    return None, None


def populations():
    K.catalog()
    I = K._cache["I"]
    out = []
    for c in I.P.classes.values():
        if c.module.name.startswith("popsynth.populations") and any(x.name == "PopulationSynth" for x in c.mro()) and c.name.endswith("Population"):
            out.append((c, sig(c, I)))
    return out


def defaults(ci):
    for c in ci.mro():
        f = c.methods.get("__init__")
        if f is not None:
            a = f.node.args
            names = [x.arg for x in a.args]
            d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
            return {k: ast.unparse(v) for k, v in d.items()}
    return {}


def symbolic(n):
    return "integer('seed')" if n == "seed" else "flag('is_rate')" if n == "is_rate" else "mylum" if n == "luminosity_distribution" else "real(%r)" % n


FIELDS = '''
def fields(x):
    out = {}
    for k in sorted(vars(x).keys()):
        if k != "_name" and k != "_graph":
            out[k] = getattr(x, k)
    return out
'''


def by_hand(sp, lm, args, vals, var):
    """the synth the class name spells out"""
    def arg(n, dflt):
        return vals.get(n, dflt)
    src = sp.imp + "\n%s_sp = %s(seed=%s%s)\n" % (var, sp.name, arg("seed", "1234"), ", is_rate=%s" % arg("is_rate", "True") if "is_rate" in sp.optional else "")
    for p in sp.params:
        src += "%s_sp.%s = %s\n" % (var, p, vals[p])
    src += "%s_sp.r_max = %s\n" % (var, vals["r_max"])
    if lm is not None:
        src += lm.imp + "\n%s_lm = %s(seed=%s)\n" % (var, lm.name, arg("seed", "1234"))
        for p in lm.params:
            src += "%s_lm.%s = %s\n" % (var, p, vals[p])
    else:
        src += "%s_lm = %s\n" % (var, vals.get("luminosity_distribution", "None"))
    return src + "%s = popsynth.PopulationSynth(%s_sp, luminosity_distribution=%s_lm, seed=%s)\n" % (var, var, var, vals["seed"])


MYLUM = '''
from popsynth.distributions.delta_distribution import DeltaDistribution
mylum = DeltaDistribution()
mylum.Lp = real("Lp")
'''

SAME = '''
EQ(type(got.spatial_distribution), type(want.spatial_distribution), "spatial distribution class (%(how)s)")
EQ(got.spatial_distribution.params, want.spatial_distribution.params, "spatial parameters (%(how)s)")
EQ(fields(got.spatial_distribution), fields(want.spatial_distribution), "spatial distribution (%(how)s)")
EQ(type(got.luminosity_distribution), type(want.luminosity_distribution), "luminosity distribution class (%(how)s)")
if want.luminosity_distribution is not None:
    EQ(got.luminosity_distribution.params, want.luminosity_distribution.params, "luminosity parameters (%(how)s)")
    EQ(fields(got.luminosity_distribution), fields(want.luminosity_distribution), "luminosity distribution (%(how)s)")
EQ(got._seed, want._seed, "seed (%(how)s)")
EQ(fields(got), fields(want), "configuration (%(how)s)")
'''


def one(ctx, ci, req, opt):
    spn, lmn = parts(ci.name)
    if spn is None:
        ctx.undecided("names", ci.name, "the name does not spell out the distributions")
        return
    sp, lm = K.by_name(spn), K.by_name(lmn) if lmn else None
    names = req + opt
    known = set(sp.params) | set(lm.params if lm else ()) | {"r_max", "seed", "is_rate", "luminosity_distribution"}
    for p in sorted((set(sp.params) | set(lm.params if lm else ()) | {"r_max", "seed"}) - set(names)):
        ctx.violation("arguments", "%s:%s" % (ci.name, p), (ci.module.path, ci.node.lineno, ci.module.name + "." + ci.name),
                      "%s of its distributions cannot be set through the constructor" % p)
        return
    for p in sorted(set(names) - known):
        ctx.undecided("arguments", "%s:%s" % (ci.name, p), "argument with no counterpart")
        return
    df = defaults(ci)
    vals = {n: symbolic(n) for n in names}
    src = FIELDS + MYLUM + "from %s import %s\n" % (ci.module.name, ci.name)
    how = {"by keyword": "%s(%s)" % (ci.name, ", ".join("%s=%s" % (n, vals[n]) for n in names)),
           "by position": "%s(%s)" % (ci.name, ", ".join(vals[n] for n in names))}
    src += by_hand(sp, lm, names, vals, "want")
    for h, e in how.items():
        src += "got = %s\n" % e + SAME % dict(how=h)
    dvals = dict(vals, **df)
    src += by_hand(sp, lm, names, dvals, "want")
    src += "got = %s(%s)\n" % (ci.name, ", ".join("%s=%s" % (n, vals[n]) for n in req)) + SAME % dict(how="optional arguments left out")
    sc = ctx.scene("construction of %s" % ci.name, src)
    ctx.check_all(sc, "construction", labels=["configuration (%s)" % h for h in list(how) + ["optional arguments left out"]])
    src = MYLUM + "from %s import %s\n" % (ci.module.name, ci.name) + by_hand(sp, lm, names, vals, "want") + '''
one = want.draw_survey(flux_sigma=real("fs"))
got = %s
two = got.draw_survey(flux_sigma=real("fs"))
def content(p):
    out = {}
    for k in vars(p).keys():
        if k != "_pop_synth" and k != "_graph" and k != "_name":
            out[k] = getattr(p, k)
    return out
EQ(content(one), content(two), "survey")
''' % how["by keyword"]
    sc = ctx.scene("survey of %s" % ci.name, src)
    ctx.check_all(sc, "survey", labels=["survey"])


def check(ctx):
    ps = populations()
    for ci, (req, opt) in ps:
        ctx.run(one, ctx, ci, req, opt)
    have = {c.name for c, _ in ps}
    for l in LUM:
        for s in ("HomogeneousSpherical", "ZPowerSpherical", "ZPowerCosmo", "SFR"):
            n = l + s + "Population"
            if l and n not in have:
                ctx.violation("ready-made", n, None, "the ready-made population %s is gone" % n)
            elif l:
                ctx.discharge("ready-made", n)
