"""C22: every built-in class can be found under its own unique registry name."""
import os

from ..interp import Interp
from ..terms import *
from .. import libext
from . import catalog as K
from .base import REPO, PRELUDE

EXPLANATION = ("The import of the package and the import of every one of its modules are interpreted abstractly, metaclasses and registries included; every "
               "concrete class below a registering base class must be entered by `import popsynth` alone, each name of a registry must have been claimed by "
               "one class only, looking the name up must give that class, and for every class placed in a synth (each role it can have) the dictionary and "
               "the synth rebuilt from it must lead back to the same class. Classes a user derives are entered under their own name and leave the others "
               "alone; the listing functions print every name.")
ASSUMPTIONS = ("class_registry.ClassRegistry maps the class attribute's value to the class and AutoRegister registers every class without abstract methods",)

REGS = {"distribution_registry": "_distribution_name", "auxiliary_parameter_registry": "_auxiliary_sampler_name", "selection_registry": "_selection_name"}
ROOTS = {"Distribution": "distribution_registry", "AuxiliarySampler": "auxiliary_parameter_registry", "SelectionProbability": "selection_registry"}
KIND = {"spatial": "distribution_registry", "lum": "distribution_registry", "aux": "auxiliary_parameter_registry", "sel": "selection_registry"}


def modules():
    out = []
    for d, subs, fs in os.walk(os.path.join(REPO, "popsynth")):
        subs[:] = sorted(s for s in subs if s not in ("test", "tests", "data") and not s.startswith((".", "__")))
        for f in sorted(fs):
            if f.endswith(".py") and f != "_version.py":
                m = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, ".")
                out.append(m[:-len(".__init__")] if m.endswith(".__init__") else m)
    return out


def root_of(c):
    for b in c.mro():
        if b.name in ROOTS and b.module.name.startswith("popsynth."):
            return b.name
    return None


def entries(sc, reg):
    """name -> set of classes registered under it, from the registration events"""
    I = sc.I
    o = I.h.get(("M", "popsynth.utils.registry", reg))
    out = {}
    for e in I.events:
        if e.kind == "register" and e.data[0] is o:
            out.setdefault(e.data[1], []).append((e.data[2], e.loc))
    return o, out


def library_classes(sc):
    return [c for c in sc.I.P.classes.values() if c.module.name.startswith("popsynth.") and ".test" not in c.module.name and root_of(c)]


def registered(ctx):
    bare = ctx.scene("import popsynth", "import popsynth.utils.registry\n", prelude="import popsynth\n")
    full = ctx.scene("import of every module", "".join("import %s\n" % m for m in modules()), prelude="import popsynth\n")
    have = {}
    for reg in REGS:
        o, ent = entries(bare, reg)
        ctx.expect(o is not None and bool(ent), "registry", reg, None, "%s is empty after importing the package" % reg)
        for k, cs in ent.items():
            names = sorted({c.args[0].qual if hasattr(c.args[0], "qual") else c.args[0].name for c, _ in cs})
            have.setdefault(reg, {})[cval(k) if is_const(k) else k] = names
        o, ent = entries(full, reg)
        for k, cs in ent.items():
            kn = cval(k) if is_const(k) else show(k, 4)
            names = sorted({"%s.%s" % (c.args[0].module.name, c.args[0].name) for c, _ in cs})
            ctx.expect(len(names) == 1, "unique", "%s:%s" % (reg, kn), cs[-1][1], "the name %r is claimed by several classes: %s" % (kn, ", ".join(names)))
            ctx.expect(isinstance(kn, str) and kn != "", "name", "%s:%s" % (reg, kn), cs[-1][1], "registry name %r is not a non-empty string" % (kn,))
    cs = library_classes(full)
    bases = {b for c in cs for b in c.bases}
    I = full.I
    for c in cs:
        reg = ROOTS[root_of(c)]
        v = I.class_attr(c, REGS[reg])
        abstract = libext.has_abstract(I, c)
        leaf = c not in bases
        if v is ABSENT or not is_const(v):
            ctx.expect(bool(abstract), "registered", c.name, None, "%s has no registry name" % c.name)
            continue
        if abstract:
            own = I.h.get(("C", c, REGS[reg]))
            if leaf and own is not None:
                ctx.violation("registered", c.name, None, "%s.%s has the registry name %r but still has abstract methods, so it is not registered" % (
                    c.module.name, c.name, cval(v)))
            continue
        got = have.get(reg, {}).get(cval(v))
        q = c.qual if hasattr(c, "qual") else c.name
        ctx.expect(got is not None and q in got, "registered", c.name, None,
                   "%s.%s is not found under %r after `import popsynth` (found: %s)" % (c.module.name, c.name, cval(v), got))


def lookup(ctx):
    src = "import popsynth.utils.registry as R\n"
    for it in K.catalog():
        reg = KIND[it.kind]
        src += "%s\nEQ(R.%s.get_class(%s.%s), %s, 'class found for %s')\n" % (it.imp, reg, it.name, REGS[reg], it.name, it.name)
        if not it.required or it.required == ["name"]:
            src += "o = R.%s.get(%s.%s%s)\nEQ(type(o), %s, 'class built for %s')\n" % (reg, it.name, REGS[reg], ", 'x'" if it.required else "", it.name, it.name)
    sc = ctx.scene("look up every built-in class", src, prelude="import popsynth\n")
    ctx.check_all(sc, "lookup")


HEAD = '''
import popsynth.utils.registry as R
from popsynth.distributions import ConstantSphericalDistribution, ParetoDistribution
def synth_of(sp, ld=None):
    return popsynth.PopulationSynth(sp, luminosity_distribution=ld, seed=integer("seed"))
def plain_spatial():
    sp = ConstantSphericalDistribution()
    sp.Lambda = real("Lambda")
    sp.r_max = real("rmax")
    return sp
'''


def saved(ctx, it):
    """the name that is written leads back to the class"""
    src = HEAD + it.build("s", values={} if it.kind != "sel" else None)
    if it.kind == "spatial":
        src += "synth = synth_of(s)\nd = synth.to_dict()\nname = list(d['spatial distribution'].keys())[0]\nEQ(R.distribution_registry.get_class(name), %s, 'written name')\n" % it.name
        src += "back = popsynth.PopulationSynth.from_dict(d)\nEQ(type(back.spatial_distribution), %s, 'class rebuilt')\n" % it.name
    elif it.kind == "lum":
        src += "synth = synth_of(plain_spatial(), s)\nd = synth.to_dict()\nname = list(d['luminosity distribution'].keys())[0]\n"
        src += "EQ(R.distribution_registry.get_class(name), %s, 'written name')\n" % it.name
        src += "back = popsynth.PopulationSynth.from_dict(d)\nEQ(type(back.luminosity_distribution), %s, 'class rebuilt')\n" % it.name
    elif it.kind == "aux":
        src += "synth = synth_of(plain_spatial())\nsynth.add_observed_quantity(s)\nd = synth.to_dict()\n"
        src += "EQ(R.auxiliary_parameter_registry.get_class(d['auxiliary samplers'][s.name]['type']), %s, 'written name')\n" % it.name
        src += "back = popsynth.PopulationSynth.from_dict(d)\nEQ(type(back._auxiliary_observations[s.name]), %s, 'class rebuilt')\n" % it.name
    else:
        src += '''
from popsynth.aux_samplers.normal_aux_sampler import NormalAuxSampler
n = NormalAuxSampler(name="n")
n.mu, n.tau, n.sigma = real("mu"), real("tau"), real("sigma")
n.set_selection_probability(s)
synth = synth_of(plain_spatial())
synth.add_observed_quantity(n)
d = synth.to_dict()
EQ(list(d["auxiliary samplers"]["n"]["selection"].keys()), [%s._selection_name], "written name")
back = popsynth.PopulationSynth.from_dict(d)
EQ(type(back._auxiliary_observations["n"].selector), %s, "class rebuilt")
''' % (it.name, it.name)
    sc = ctx.scene("saved %s" % it.name, src)
    ctx.check_all(sc, "saved")


def roles(ctx, it):
    src = HEAD + it.build("f", prefix="f_") + it.build("g", prefix="g_")
    src += '''
synth = synth_of(plain_spatial())
synth.set_flux_selection(f)
synth.set_distance_selection(g)
d = synth.to_dict()
EQ(list(d["flux selection"].keys()), [%s._selection_name], "written flux selection")
EQ(list(d["distance selection"].keys()), [%s._selection_name], "written distance selection")
back = popsynth.PopulationSynth.from_dict(d)
EQ(type(back._flux_selector), %s, "flux selection rebuilt")
EQ(type(back._distance_selector), %s, "distance selection rebuilt")
''' % ((it.name,) * 4)
    sc = ctx.scene("flux and distance selection %s" % it.name, src)
    ctx.check_all(sc, "saved")


def users(ctx):
    src = HEAD + '''
import popsynth.selection_probability as S
from popsynth.aux_samplers import NormalAuxSampler
class MyLum(ParetoDistribution):
    _distribution_name = "PsaMine"
class MySpatial(ConstantSphericalDistribution):
    _distribution_name = "PsaMineToo"
class MyAux(NormalAuxSampler):
    _auxiliary_sampler_name = "PsaMine"
class MySel(S.BoxSelection):
    _selection_name = "PsaMine"
EQ(R.distribution_registry.get_class("PsaMine"), MyLum, "own distribution")
EQ(R.distribution_registry.get_class("PsaMineToo"), MySpatial, "own spatial distribution")
EQ(R.auxiliary_parameter_registry.get_class("PsaMine"), MyAux, "own sampler")
EQ(R.selection_registry.get_class("PsaMine"), MySel, "own selection")
EQ(R.distribution_registry.get_class("ParetoDistribution"), ParetoDistribution, "base of own distribution")
EQ(R.auxiliary_parameter_registry.get_class("NormalAuxSampler"), NormalAuxSampler, "base of own sampler")
EQ(R.selection_registry.get_class("BoxSelection"), S.BoxSelection, "base of own selection")
%s
for r in (R.distribution_registry, R.auxiliary_parameter_registry, R.selection_registry):
    ok, v = attempt(lambda: r["PsaNobody"])
    HOLDS(not ok, "an unknown name is refused")
''' % "".join("%s\nEQ(R.%s.get_class(%r), %s, 'entry of %s')\n" % (it.imp, KIND[it.kind], it.regname, it.name, it.name) for it in K.catalog())
    sc = ctx.scene("classes derived by a user", src)
    ctx.check_all(sc, "lookup")


def listing(ctx):
    for fn, reg in (("list_available_distributions", "distribution_registry"), ("list_available_selection_functions", "selection_registry"),
                    ("list_available_auxiliary_samplers", "auxiliary_parameter_registry")):
        sc = ctx.scene("popsynth.%s()" % fn, "import popsynth.utils.registry\npopsynth.%s()\n" % fn, prelude="import popsynth\n")
        o, ent = entries(sc, reg)
        said = [x for e in sc.events("print") for x in e.data]
        for k in ent:
            ctx.expect(any(contains(s, k) for s in said), "listing", "%s:%s" % (fn, show(k, 3)), None, "%s does not print the name %s" % (fn, show(k, 3)))


def contains(t, k):
    return t is k or is_const(k) and is_const(t) and isinstance(cval(t), str) and cval(k) in cval(t) or any(x is k for x in subterms(t))


def check(ctx):
    ctx.run(registered, ctx)
    ctx.run(lookup, ctx)
    ctx.run(users, ctx)
    ctx.run(listing, ctx)
    for it in K.catalog():
        ctx.run(saved, ctx, it)
        if it.kind == "sel" and it.name not in ("SpatialSelection",) and "use_obs_value" not in it.required:
            ctx.run(roles, ctx, it)
