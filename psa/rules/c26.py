"""C26: every documented configuration value takes effect where it is used."""
from ..terms import *
from . import catalog as K
from .base import PRELUDE
from .c23 import own, path_text, base_path

EXPLANATION = ("Data-flow of the configuration by abstract interpretation of the import with a user's file whose every entry is an arbitrary symbol that may or may not "
               "be present: the value numbers of the cosmology, of both handler levels and of the set of handlers of every logger of the package must be those "
               "symbols (or the defaults where absent); every distance and volume of the package must have the value number of the configured cosmology, also after "
               "its parameters are reassigned; progress bars appear exactly under the progress flag and change no value; the configuration file is written only "
               "when it does not exist, with the defaults, into a folder that is created when needed.")
ASSUMPTIONS = ("OmegaConf.merge lets later arguments win entry by entry; OmegaConf.load reads the file", "float32 storage of the jitted cosmology class is ignored")

DEFAULTS = {"logging.debug": "False", "logging.console.on": "True", "logging.console.level": "'WARNING'", "logging.file.on": "True",
            "logging.file.level": "'WARNING'", "cosmology.Om": "0.307", "cosmology.h0": "67.7", "show_progress": "True"}

HEAD = '''
import logging
import numpy as np
import popsynth
import popsynth.utils.logging as L
import popsynth.utils.configuration as CF
from popsynth.utils.cosmology import cosmology, Cosmology
'''


def expected(user):
    """driver names of the configured values"""
    out = "W = {}\n"
    for k, d in DEFAULTS.items():
        out += "W[%r] = %s\n" % (k, "userval(%r, %s)" % (k, d) if user else d)
    return out


VALUES = '''
c = CF.popsynth_config
for key in W:
    v = c
    for part in key.split("."):
        v = v[part]
    EQ(v, W[key], "configuration value " + key)
EQ(c.show_progress, W["show_progress"], "attribute access")
EQ(c.logging.console.level, W["logging.console.level"], "nested attribute access")
SAME(popsynth.popsynth_config, c, "the configuration of the package")
EQ(cosmology.Om, W["cosmology.Om"], "matter density of the cosmology")
EQ(cosmology.h0, W["cosmology.h0"], "Hubble constant of the cosmology")
SAME(popsynth.cosmology, cosmology, "the cosmology of the package")
ref = logging.StreamHandler()
ref.setLevel(W["logging.console.level"])
EQ(L.popsynth_console_log_handler.level, ref.level, "level of the console")
ref.setLevel(W["logging.file.level"])
EQ(L.popsynth_usr_log_handler.level, ref.level, "level of the file")
EQ(L.popsynth_dev_log_handler.level, logging.DEBUG, "level of the developer log")
'''


def values(ctx, user):
    src = HEAD + expected(user) + VALUES
    sc = ctx.scene("values with%s a user's file" % ("" if user else "out"), src, prelude="", exists=TRUE if user else FALSE)
    ctx.check_all(sc, "values")


def loggers(ctx):
    first = ctx.scene("loggers of the package", "import popsynth\nimport popsynth.utils.registry\nimport popsynth.utils.logging\n", prelude="", exists=TRUE)
    names = sorted({cval(k[1]) for k in first.I.h if k[0] == "LOGGER" and is_const(k[1])})
    ctx.expect(len(names) >= 3, "loggers", "package", None, "the package sets up no loggers")
    src = HEAD + expected(True) + '''
def check(lg, what):
    n = 0
    HOLDS((L.popsynth_console_log_handler in lg.handlers) == W["logging.console.on"], "console handler of " + what)
    HOLDS((L.popsynth_usr_log_handler in lg.handlers) == W["logging.file.on"], "file handler of " + what)
    HOLDS((L.popsynth_dev_log_handler in lg.handlers) == W["logging.debug"], "developer handler of " + what)
    HOLDS(lg.level <= logging.DEBUG, "messages of every level pass " + what)
    EQ(lg.propagate, False, "propagation of " + what)
'''
    for n in names:
        src += "check(logging.getLogger(%r), %r)\n" % (n, n)
    src += "check(L.setup_logger('brand.new'), 'a new logger')\ncheck(L.setup_logger('brand.new'), 'a logger set up twice')\n"
    sc = ctx.scene("handlers of every logger", src, prelude="", exists=TRUE)
    ctx.check_all(sc, "loggers")


COSMO = '''
Om, h0 = W["cosmology.Om"], W["cosmology.h0"]
z, y = real("z"), real("y")
ASSUME(z > 0)
ASSUME(y > 0)
def all_of(c, z):
    return (c.luminosity_distance(z), c.comoving_transverse_distance(z), c.differential_comoving_volume(z), c.dh, c.Ode, c.a(z))
EQ(all_of(cosmology, z), all_of(Cosmology(Om, h0), z), "functions of the configured cosmology")
EQ(all_of(cosmology, z), all_of(Cosmology(), z), "functions of a cosmology built by default")
d1, d2 = Cosmology(real("Oa"), real("ha")), Cosmology(real("Oa"), real("hb"))
EQ(d1.luminosity_distance(z) * d1.h0, d2.luminosity_distance(z) * d2.h0, "distances scale with the inverse Hubble constant")
EQ(d1.differential_comoving_volume(z) * d1.h0 ** 3, d2.differential_comoving_volume(z) * d2.h0 ** 3, "volumes scale with its inverse cube")
'''


def cosmos(ctx, it, user=True):
    """volumes and distances of a cosmological distribution are those of the configured cosmology"""
    src = HEAD + expected(user) + COSMO + it.build("sp") + '''
ref = Cosmology(Om, h0)
L0 = real("L0")
ASSUME(L0 > 0)
EQ(sp.differential_volume(z) * ref.differential_comoving_volume(y), sp.differential_volume(y) * ref.differential_comoving_volume(z), "volume element")
EQ(sp.transform(L0, z) * ref.luminosity_distance(z) ** 2, sp.transform(L0, y) * ref.luminosity_distance(y) ** 2, "flux of a luminosity")
mark("dep", (sp.differential_volume(z), sp.transform(L0, z)))
mark("own", all_of(Cosmology(real("Oa"), real("ha")), z))
before = (sp.differential_volume(z), sp.transform(L0, z))
popsynth.cosmology.Om = real("Om2")
popsynth.cosmology.h0 = real("h2")
ref2 = Cosmology(real("Om2"), real("h2"))
EQ(sp.differential_volume(z) * ref.differential_comoving_volume(z), before[0] * ref2.differential_comoving_volume(z), "volume element after a change of cosmology")
EQ(sp.transform(L0, z) * ref2.luminosity_distance(z) ** 2, before[1] * ref.luminosity_distance(z) ** 2, "flux after a change of cosmology")
EQ(all_of(cosmology, z), all_of(ref2, z), "functions after a change of cosmology")
mark("changed", (all_of(cosmology, z), sp.differential_volume(z), sp.transform(L0, z)))
'''
    sc = ctx.scene("cosmology of %s" % it.name, src, prelude="", exists=TRUE if user else FALSE)
    ctx.check_all(sc, "cosmology")
    for m, what in (("own", "a cosmology with parameters of its own"), ("changed", "the cosmology after its parameters were changed")):
        d = sc.I.marks[m][1][0]
        old = sorted({x.args[0] for x in subterms(d) if x.op == "sym" and x.args[0].startswith("user:cosmology")})
        ctx.expect(not old, "cosmology", "%s:%s" % (it.name, what), None, "%s still depends on the configured %s" % (what, ", ".join(o[5:] for o in old)))
    g, (d,), h = sc.I.marks["dep"]
    for i, what in enumerate(("volume element", "flux")):
        syms = {x.args[0] for x in subterms(d.args[i]) if x.op == "sym"}
        for s in ("user:cosmology.Om", "user:cosmology.h0"):
            ctx.expect(s in syms, "cosmology", "%s:%s" % (it.name, what), d.args[i], "the %s of %s does not depend on %s" % (what, it.name, s[5:]))


def sampler_distance(ctx):
    src = HEAD + expected(True) + '''
from popsynth.auxiliary_sampler import AuxiliarySampler
class Q(AuxiliarySampler):
    _auxiliary_sampler_name = "PsaQ"
    def __init__(self):
        super(Q, self).__init__("q", observed=False, uses_distance=True)
    def true_sampler(self, size):
        self._true_values = self.luminosity_distance
n = integer("n")
q = Q()
z = array("z", n)
class V(object):
    pass
v = V()
v.distance, v.theta, v.phi, v.ra, v.dec, v.spherical = z, array("t", n), array("p", n), array("r", n), array("d", n), array("s", n)
q.set_spatial_values(v)
q.draw(n)
EQ(q.true_values, Cosmology(W["cosmology.Om"], W["cosmology.h0"]).luminosity_distance(z), "luminosity distance of a sampler")
popsynth.cosmology.Om = real("Om2")
popsynth.cosmology.h0 = real("h2")
EQ(q.luminosity_distance, Cosmology(real("Om2"), real("h2")).luminosity_distance(z), "luminosity distance after a change of cosmology")
'''
    sc = ctx.scene("luminosity distance of a sampler", src, prelude="", exists=TRUE)
    ctx.check_all(sc, "cosmology")


BAR = '''
from popsynth.utils.progress_bar import progress_bar
CF.popsynth_config.show_progress = flag("progress")
xs = [real("a"), real("b"), real("c")]
EQ(list(progress_bar(xs)), xs, "items")
EQ(list(progress_bar(xs, desc="text")), xs, "items with a description")
EQ([i for i in progress_bar(range(4))], [0, 1, 2, 3], "items of a range")
'''


def progress(ctx):
    sc = ctx.scene("progress bars", HEAD + BAR, prelude="", exists=FALSE)
    ctx.check_all(sc, "progress")
    bars(ctx, sc, "progress_bar", 3)


def drawn(ctx, sp, lm):
    src = sp.build("sp") + lm.build("lm") + '''
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lm, seed=integer("seed"))
pop = synth.draw_survey(flux_sigma=real("fs"))
'''
    sc = ctx.scene("survey with %s" % sp.name, src, progress=None)
    bars(ctx, sc, "a survey with " + sp.name, 1)


def bars(ctx, sc, what, least):
    f = atom_of(raw("sym", "progress", "flag", ()))
    ev = sc.events("progress")
    for e in ev:
        ok = b_and(e.guard, b_not(f)) is FALSE or sc.holds(f, e.guard).equal
        ctx.expect(ok, "progress", "%s:%s" % (what, e.loc[2]), e.loc, "%s shows a progress bar although progress bars are silenced" % what)
    for f2 in (f,):
        shown = FALSE
        for e in ev:
            shown = b_or(shown, e.guard)
        if least and not ev:
            ctx.violation("progress", what + ":shown", None, "%s never shows a progress bar" % what)
    if what == "progress_bar":
        for e in ev:
            ctx.expect(sc.holds(e.guard, f).equal, "progress", what + ":on", e.loc, "no progress bar although they are switched on")


def created(ctx):
    """the file is created with the defaults, only when missing"""
    src = HEAD + expected(False) + '''
mark("cfg", CF.popsynth_config)
'''
    sc = ctx.scene("no configuration file", src, prelude="", exists=FALSE)
    saves = sc.events("cfg-save")
    ctx.expect(len(saves) == 1, "created", "file", saves[0].loc if saves else None, "a missing configuration file is written %d times" % len(saves))
    for e in saves:
        p = base_path(sc, e.data[1])
        ctx.expect(path_text(p).startswith("~/.config/popsynth"), "created", "path", e.loc, "the configuration file is written to %s" % show(p, 4))
        cfg = e.data[0]
        for k, d in DEFAULTS.items():
            v = cfg
            for part in k.split("."):
                v = sc.I.dict_get(v, const(part)) if v.op == "obj" else ABSENT
            want = const(eval(d))
            ctx.expect(v is want, "created", "default " + k, e.loc, "the file that is created holds %s = %s instead of %s" % (k, show(v, 3) if v is not ABSENT else "nothing", d))
    both = ctx.scene("perhaps a configuration file", HEAD, prelude="", exists=None)
    n = 0
    for e in both.I.events:
        if e.kind == "open" and cval(e.data[0]) != "OmegaConf.load" and is_const(e.data[2]) and any(m in cval(e.data[2]) for m in "wax+") or e.kind == "cfg-save":
            p = base_path(both, e.data[1])
            if not path_text(p).startswith("~/.config/popsynth"):
                continue
            n += 1
            ex = [x for x in subterms(e.guard) if x.op == "exists"] if isinstance(e.guard, Term) else []
            mode = cval(e.data[2]) if e.kind == "open" else "w"
            ok = "x" in mode or any(b_and(e.guard, atom_of(x)) is FALSE or not both.sat(b_and(e.guard, atom_of(x))) for x in ex if "config" in path_text(x.args[0]))
            ctx.expect(ok, "created", "overwrite:%s" % e.loc[2], e.loc, "an existing configuration file is overwritten")
        if e.kind == "mkdir":
            ex = [x for x in subterms(e.guard) if x.op == "exists"] if isinstance(e.guard, Term) else []
            ok = e.data[1] is TRUE or any(full(x.args[0]).rstrip('/') == full(e.data[0]).rstrip('/') for x in ex)
            ctx.expect(ok, "created", "mkdir:%s" % path_text(e.data[0]), e.loc, "the folder %s is created although it may exist" % path_text(e.data[0]))
            ctx.expect(e.data[2] is TRUE, "created", "parents:%s" % path_text(e.data[0]), e.loc, "the parents of %s are not created" % path_text(e.data[0]))
    ctx.expect(n > 0, "created", "written", None, "a missing configuration file is never written")
    loads = [e for e in both.I.events if e.kind == "open" and cval(e.data[0]) == "OmegaConf.load"]
    saved = [base_path(both, e.data[1]) for e in both.I.events if e.kind == "cfg-save"]
    ctx.expect(bool(loads), "created", "read", None, "an existing configuration file is never read")
    for e in loads:
        ctx.expect(any(full(e.data[1]) == full(p) for p in saved), "created", "same file", e.loc, "the file that is read (%s) is not the one that is created" % full(e.data[1]))


def full(p):
    if p.op == "path":
        return "/".join(full(a).strip("/") if i else full(a).rstrip("/") for i, a in enumerate(p.args))
    return str(cval(p)) if is_const(p) else show(p, 4)


def check(ctx):
    ctx.run(values, ctx, True)
    ctx.run(values, ctx, False)
    ctx.run(loggers, ctx)
    ctx.run(created, ctx)
    ctx.run(progress, ctx)
    ctx.run(sampler_distance, ctx)
    lms = K.kinds("lum")
    for i, sp in enumerate(K.kinds("spatial")):
        ctx.run(drawn, ctx, sp, lms[i % len(lms)])
        if sp.isa("CosmologicalDistribution"):
            ctx.run(cosmos, ctx, sp)
