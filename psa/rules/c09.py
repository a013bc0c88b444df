"""C09: parameter bounds, fixed flags and per-object storage are enforced."""
from . import catalog as K

EXPLANATION = ("Most general client of the parameter descriptor: parameters are declared with every combination of symbolic or zero bounds, default, free flag and "
               "normalisation flag on classes of every parameterised base (distributions, samplers, selections), directly and through inheritance, and a history "
               "of reads and assignments of arbitrary values to several objects is interpreted; whether each assignment is refused must be equivalent, as a "
               "condition, to 'fixed or out of bounds', and each following read must have the value number of the last accepted assignment or of the default.  "
               "The same history is run on every parameter of every built-in class.")

HOSTS = {
    "distribution": ("from popsynth.distribution import LuminosityDistribution as Base, DistributionParameter as Par\n",
                     "    _distribution_name = 'Psa%s'\n    def __init__(self):\n        super(%s, self).__init__(name='x', seed=1, form='y')\n"
                     "    def phi(self, L):\n        return L\n    def draw_luminosity(self, size):\n        return array('lum', size)\n"),
    "spatial distribution": ("from popsynth.distribution import SpatialDistribution as Base, DistributionParameter as Par\n",
                             "    _distribution_name = 'Psa%s'\n    def __init__(self):\n        super(%s, self).__init__(name='x', seed=1, form='y')\n"
                             "    def differential_volume(self, d):\n        return d\n    def dNdV(self, d):\n        return d\n    def transform(self, l, d):\n        return l\n"),
    "sampler": ("from popsynth.auxiliary_sampler import AuxiliarySampler as Base, AuxiliaryParameter as Par\n",
                "    _auxiliary_sampler_name = 'Psa%s'\n    def __init__(self):\n        super(%s, self).__init__('x', observed=True)\n"
                "    def true_sampler(self, size):\n        self._true_values = array('x', size)\n"),
    "selection": ("from popsynth.selection_probability import SelectionProbability as Base, SelectionParameter as Par\n",
                  "    _selection_name = 'Psa%s'\n    def __init__(self):\n        super(%s, self).__init__()\n"
                  "    def draw(self, size):\n        self._selection = boolarray('x', size)\n"),
}

BOUNDS = (("", None, None), ("vmin=real('lo')", "real('lo')", None), ("vmax=real('hi')", None, "real('hi')"),
          ("vmin=real('lo'), vmax=real('hi')", "real('lo')", "real('hi')"), ("vmin=0", "0", None), ("vmax=0", None, "0"),
          ("vmin=0.0, vmax=real('hi')", "0.0", "real('hi')"))

HISTORY = '''
def holds(v):
    r = FREE
    if LO is not None:
        r = r and v >= LO
    if HI is not None:
        r = r and v <= HI
    return r
a = C()
b = C()
r0, v0 = attempt(getattr, a, "p")
EQ(r0, HASDEF, "a parameter that was never set reads as its default")
if r0:
    EQ(v0, DEFAULT, "default value")
cur = DEFAULT
has = HASDEF
n = 0
for v in (VALUES):
    n = n + 1
    ok, _ = attempt(setattr, a, "p", v)
    EQ(ok, holds(v), "assignment refused exactly when fixed or out of bounds")
    if ok:
        cur = v
        has = True
    r, got = attempt(getattr, a, "p")
    EQ(r, has, "readable exactly when it has a value or a default")
    if r:
        EQ(got, cur, "the next read returns the last accepted value")
    rb, vb = attempt(getattr, b, "p")
    EQ(rb, HASDEF, "another object is not changed")
    if rb:
        EQ(vb, DEFAULT, "another object keeps its default")
    EQ(a.q, 7, "another parameter is not changed")
c = C()
rc, vc = attempt(getattr, c, "p")
EQ(rc, HASDEF, "a later object is not changed")
if rc:
    EQ(vc, DEFAULT, "a later object has the default")
okb, _ = attempt(setattr, b, "p", real("vb"))
EQ(okb, holds(real("vb")), "assignment to the other object")
ra, va = attempt(getattr, a, "p")
EQ(ra, has, "the first object keeps its value")
if ra:
    EQ(va, cur, "the first object keeps the value it had")
'''


def history(ctx, host, label, decl, lo, hi, default, free, inherit, norm):
    imp, body = HOSTS[host]
    regname = body.split("\n")[0] + "\n"
    args = [x for x in (decl, "default=%s" % default if default else "", "free=%s" % free if free else "", norm) if x]
    src = imp + "class P0(Base):\n    p = Par(%s)\n    q = Par(default=7)\n" % ", ".join(args) + body % ("P0", "P0")
    if inherit == "inherited":
        src += "class C(P0):\n" + regname % "C"
    elif inherit == "redeclared":
        src = imp + "class P0(Base):\n    p = Par(default=99, vmin=98)\n    q = Par(default=7)\n" + body % ("P0", "P0")
        src += "class C(P0):\n    p = Par(%s)\n" % ", ".join(args) + regname % "C"
    else:
        src += "C = P0\n"
    src += "LO = %s\nHI = %s\nDEFAULT = %s\nHASDEF = %s\nFREE = %s\n" % (lo, hi, default, bool(default), free or "True")
    src += HISTORY.replace("VALUES", "real('v1'), 0, real('v2'), %sreal('v3')" % (lo + ", " if lo else hi + ", " if hi else ""))
    sc = ctx.scene("%s parameter (%s)" % (host, ", ".join(args + [inherit]) or "no options"), src)
    ctx.check_all(sc, "descriptor", labels=["a later object is not changed", "the first object keeps its value"])


def toggles(ctx, host):
    imp, body = HOSTS[host]
    src = imp + "class C(Base):\n    p = Par(default=real('d'))\n    q = Par(default=7)\n" + body % ("C", "C") + '''
a = C()
a.p = real("v1")
d = vars(C)["p"]
d.fix = True
EQ(d.free, False, "fixed is not free")
ok, _ = attempt(setattr, a, "p", real("v2"))
EQ(ok, False, "a fixed parameter refuses assignment")
EQ(a.p, real("v1"), "a fixed parameter keeps its value")
a.q = 8
EQ(a.q, 8, "another parameter is still free")
d.free = True
EQ(d.fix, False, "free is not fixed")
ok, _ = attempt(setattr, a, "p", real("v3"))
EQ(ok, True, "a freed parameter can be set")
EQ(a.p, real("v3"), "a freed parameter takes the value")
d.free = False
ok, _ = attempt(setattr, a, "p", real("v4"))
EQ((ok, a.p), (False, real("v3")), "fixed by clearing free")
d.fix = False
a.p = real("v5")
EQ(a.p, real("v5"), "freed by clearing fix")
'''
    sc = ctx.scene("%s parameter fixed and freed" % host, src)
    ctx.check_all(sc, "fixed", labels=["freed by clearing fix"])


def builtin(ctx, it):
    if not it.params:
        return
    extra = ", ".join(["name='x'"] * ("name" in it.required + it.optional and it.kind == "aux") + ["name='x'"] * ("name" in it.required and it.kind != "aux"))
    src = it.imp + "\ndef make():\n    return %s(%s)\n" % (it.name, extra) + '''
def decl(p):
    for c in X.__mro__:
        if p in c.__dict__:
            return c.__dict__[p]
X = %s
a = make()
b = make()
stored = {}
''' % it.name
    for p in it.params:
        hasdef = p in it.defaults
        src += '''
d = decl(%(p)r)
lo, hi, df = d._vmin, d._vmax, d._default
r, got = attempt(getattr, b, %(p)r)
EQ(r, %(hd)s, "%(p)s readable before it is set exactly when it has a default")
if r:
    EQ(got, df, "default of %(p)s")
v = real(%(p)r)
want = d._free and (lo is None or v >= lo) and (hi is None or v <= hi)
ok, _ = attempt(setattr, a, %(p)r, v)
EQ(ok, want, "%(p)s refused exactly when out of bounds")
r1, got = attempt(getattr, a, %(p)r)
EQ(r1, ok or %(hd)s, "%(p)s readable")
if r1:
    EQ(got, v if ok else df, "value of %(p)s")
''' % dict(p=p, hd=hasdef)
    for p in it.params:
        src += '''
d = decl(%(p)r)
lo, hi, df = d._vmin, d._vmax, d._default
v = real(%(p)r)
want = d._free and (lo is None or v >= lo) and (hi is None or v <= hi)
r1, got = attempt(getattr, a, %(p)r)
if r1:
    EQ(got, v if want else df, "%(p)s unchanged by the other parameters")
r, got = attempt(getattr, b, %(p)r)
EQ(r, %(hd)s, "%(p)s of another object")
if r:
    EQ(got, df, "%(p)s of another object keeps its default")
''' % dict(p=p, hd=p in it.defaults)
    sc = ctx.scene("parameters of %s" % it.name, src)
    ctx.check_all(sc, "built-in", labels=["%s of another object" % p for p in it.params])


def check(ctx):
    for host in HOSTS:
        for decl, lo, hi in BOUNDS:
            for default in (None, "real('default')"):
                ctx.run(history, ctx, host, "", decl, lo, hi, default, None, "", "")
        for inherit in ("inherited", "redeclared"):
            ctx.run(history, ctx, host, "", BOUNDS[3][0], BOUNDS[3][1], BOUNDS[3][2], "real('default')", None, inherit, "")
        ctx.run(history, ctx, host, "", BOUNDS[3][0], BOUNDS[3][1], BOUNDS[3][2], "real('default')", "flag('free')", "", "")
        ctx.run(history, ctx, host, "", "", None, None, None, "False", "", "")
        ctx.run(history, ctx, host, "", BOUNDS[3][0], BOUNDS[3][1], BOUNDS[3][2], "0", None, "", "is_normalization=True")
        ctx.run(toggles, ctx, host)
    for it in K.catalog():
        ctx.run(builtin, ctx, it)
