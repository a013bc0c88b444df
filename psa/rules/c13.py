"""C13: reading, exporting or plotting a population does not change it."""
from . import topo as T
from .c12 import observables, nodes, SETUP_SPACE
from ..interp import Interp
from ..terms import *
from .base import REPO

EXPLANATION = ("Purity (effect) analysis by abstract interpretation: every public property and method of Population, discovered from the class, is applied to a "
               "population with auxiliary quantities, known and unknown distances and model spaces; after each, every observable quantity must have "
               "its earlier value number (in-place stores through aliases included).  Reassigning a published auxiliary quantity must be refused on "
               "populations that were drawn, read from a file, or taken as sub-populations.")

SKIP = {"hard_cut", "distance_probability"}    # C29: these read attributes that nothing assigns


def members():
    I = Interp(root=REPO)
    I.exists_mode = FALSE
    I.run_driver("import popsynth\n", "psa_driver_members")
    ci = [c for c in I.P.classes.values() if c.name == "Population" and c.module.name == "popsynth.population"][0]
    props, meths = [], []
    for c in ci.mro():
        for n, f in c.methods.items():
            if n.startswith("__") and n not in ("__repr__", "__str__", "__len__"):
                continue
            decs = [d.id if hasattr(d, "id") else getattr(d, "attr", "") for d in f.node.decorator_list]
            if "property" in decs:
                props.append(n)
            elif "classmethod" in decs or "staticmethod" in decs or "setter" in decs:
                continue
            elif not n.startswith("_") or n in ("__repr__", "__str__"):
                a = f.node.args
                req = [x.arg for x in a.args[1:len(a.args) - len(a.defaults)]]
                meths.append((n, req, [x.arg for x in a.args[1:]]))
    return props, meths


ARGS = {"file_name": "'out.h5'", "group_name": "'grp'"}
CALLS = {"to_sub_population": ["", "observed=False"], "writeto": ["'out.h5'"], "addto": ["'out.h5', 'grp'"],
         "display_fluxes": ["", "with_arrows=False", "true_color='red', obs_color='blue'"]}


def kept(src, label):
    return src + "".join("EQ(%s, KEEP[%r], '%s after %s')\n" % (e, k, k, label.replace("'", "")) for k, e in OB.items())


def reads(ctx, derived, tag, origin=""):
    global OB
    src = T.setup(derived) + SETUP_SPACE + "pop = synth.draw_survey(flux_sigma=real('fs'))\n" + origin + nodes(derived, True)
    OB = observables("pop", derived, True)
    if "sub" in tag:
        OB.pop("stan data", None)
    base = src + "KEEP = {}\n" + "".join("KEEP[%r] = freeze(%s)\n" % (k, e) for k, e in OB.items())
    props, meths = members()
    one = base
    for p in props:
        if p in SKIP:
            continue
        one += "x = pop.%s\n" % p
    one = kept(one, "reading every property")
    one += "y = pop.to_stan_data()\nr = repr(pop)\n"
    one = kept(one, "exporting to Stan")
    sc = ctx.scene("properties " + tag, one)
    ctx.check_all(sc, "pure-property")
    ctx.stats["properties"] = len(props)
    for n, req, allargs in meths:
        calls = CALLS.get(n) or [", ".join("%s=%s" % (r, ARGS.get(r, "opaque(%r)" % r)) for r in req)]
        for i, c in enumerate(calls):
            s = base + ("pop.writeto('out.h5')\n" if n == 'addto' else '') + "r = pop.%s(%s)\n" % (n, c)
            ctx.run(method, ctx, kept(s, "%s(%s)" % (n, c)), "%s(%s) %s" % (n, c, tag))


def method(ctx, src, name):
    sc = ctx.scene("method " + name, src, must_complete=False)
    if sc.I.pc is FALSE:
        ctx.undecided("pure-method", name, "the analysed call does not complete in the model")
        return
    ctx.check_all(sc, "pure-method")


def protected(ctx, derived):
    src = T.setup(derived) + '''
pop = synth.draw_survey(flux_sigma=real("fs"))
sub = pop.to_sub_population()
hid = pop.to_sub_population(observed=False)
pop.writeto("out.h5")
back = popsynth.Population.from_file("out.h5")
pop.writeto("out2.h5")
pop.addto("out2.h5", "grp")
grp = popsynth.Population.from_group("out2.h5", "grp")
'''
    for who in ("pop", "sub", "hid", "back", "grp"):
        for t in T.samplers(derived, True):
            src += "b = freeze((np.asarray(%s.%s), %s.%s.latent))\n" % (who, t, who, t)
            src += "ok, r = attempt(setattr, %s, '%s', opaque('other'))\n" % (who, t)
            src += "EQ(ok, False, 'reassigning %s of %s is refused')\n" % (t, who)
            src += "EQ((np.asarray(%s.%s), %s.%s.latent), b, '%s of %s is unchanged')\n" % (who, t, who, t, t, who)
    sc = ctx.scene("protected names" + (" derived" if derived else ""), src)
    ctx.check_all(sc, "protected")


def check(ctx):
    ctx.run(reads, ctx, False, "of a drawn population")
    ctx.run(reads, ctx, True, "with derived luminosity")
    ctx.run(reads, ctx, False, "of a sub-population", "pop = pop.to_sub_population()\n")
    ctx.run(protected, ctx, False)
    ctx.run(protected, ctx, True)
