"""C08: a synth rebuilt from its own dictionary or YAML file is the same synth."""
from . import topo as T
from . import catalog as K

EXPLANATION = ("Abstract round trip: a synth of arbitrary configuration (every parameter, flag and seed symbolic; samplers nested to depth four, shared "
               "secondaries, derived luminosity; user-defined classes and every registered built-in class) is taken through the analysed to_dict/from_dict "
               "and write_to/from_file; seed, classes, every parameter value, rate flag, observed flags, selections with their judged quantities, "
               "secondaries, order, and the population drawn from the rebuilt synth must have the value numbers of the original, and the dictionary that "
               "was read must be unchanged.")

COMPARE = '''
def params(x):
    out = {}
    for k in vars(type(x)).keys():
        pass
    st = x._parameter_storage
    for k in st.keys():
        out[k] = st[k]
    return out
def show_sel(s):
    if s is None:
        return None
    return (type(s), params(s), s._use_obs_value, s._use_distance, s._use_luminosity, s._use_flux)
def show_role(s):
    if s is None:
        return None
    return (type(s), params(s))
def same_sampler(x, y, label):
    EQ(type(x), type(y), "class of " + label)
    EQ(x.name, y.name, "name of " + label)
    EQ(x.obs_name, y.obs_name, "observed name of " + label)
    EQ(params(x), params(y), "parameters of " + label)
    EQ(x.truth, y.truth, "truth of " + label)
    EQ(x.observed, y.observed, "observed flag of " + label)
    EQ(x.is_secondary, y.is_secondary, "secondary flag of " + label)
    EQ(x.has_secondary, y.has_secondary, "has secondary of " + label)
    EQ(sorted(x.parents), sorted(y.parents), "parents of " + label)
    EQ(x.uses_distance, y.uses_distance, "uses distance of " + label)
    EQ(x.uses_luminosity, y.uses_luminosity, "uses luminosity of " + label)
    EQ(x.uses_sky_position, y.uses_sky_position, "uses sky position of " + label)
    EQ(show_sel(x.selector), show_sel(y.selector), "selection of " + label)
    EQ(list(x.secondary_samplers.keys()), list(y.secondary_samplers.keys()), "secondaries of " + label)
    for k in x.secondary_samplers.keys():
        same_sampler(x.secondary_samplers[k], y.secondary_samplers[k], label + "/" + k)
def same_synth(x, y):
    EQ(x._seed, y._seed, "seed")
    EQ(type(x.spatial_distribution), type(y.spatial_distribution), "spatial class")
    EQ(x.spatial_distribution.name, y.spatial_distribution.name, "spatial name")
    EQ(params(x.spatial_distribution), params(y.spatial_distribution), "spatial parameters")
    EQ(x.spatial_distribution.r_max, y.spatial_distribution.r_max, "maximum distance")
    EQ(x.luminosity_distribution is None, y.luminosity_distribution is None, "luminosity distribution present")
    if x.luminosity_distribution is not None:
        EQ(type(x.luminosity_distribution), type(y.luminosity_distribution), "luminosity class")
        EQ(params(x.luminosity_distribution), params(y.luminosity_distribution), "luminosity parameters")
    EQ(show_role(x._flux_selector), show_role(y._flux_selector), "flux selection")
    EQ(show_role(x._distance_selector), show_role(y._distance_selector), "distance selection")
    EQ(show_role(x._spatial_selector), show_role(y._spatial_selector), "spatial selection")
    EQ(x._flux_selector_set, y._flux_selector_set, "flux selection set")
    EQ(x._distance_selector_set, y._distance_selector_set, "distance selection set")
    EQ(list(x._auxiliary_observations.keys()), list(y._auxiliary_observations.keys()), "samplers")
    for k in x._auxiliary_observations.keys():
        same_sampler(x._auxiliary_observations[k], y._auxiliary_observations[k], k)
    EQ(x._has_derived_luminosity, y._has_derived_luminosity, "derived luminosity present")
    if x._has_derived_luminosity:
        same_sampler(x._derived_luminosity_sampler, y._derived_luminosity_sampler, "derived")
def order_of(d):
    return [(k, list(d[k].keys()) if isinstance(d[k], dict) else None) for k in d.keys()]
'''

BACK = '''
d = synth.to_dict()
before = freeze(d)
korder = freeze(order_of(d))
back = popsynth.PopulationSynth.from_dict(d)
EQ(before, freeze(d), "input unchanged")
EQ(korder, freeze(order_of(d)), "input order unchanged")
EQ(before, freeze(synth.to_dict()), "to_dict changes nothing")
same_synth(synth, back)
EQ(before, freeze(back.to_dict()), "dictionary of the rebuilt synth")
synth.write_to("synth.yml")
again = popsynth.PopulationSynth.from_file("synth.yml")
same_synth(synth, again)
EQ(before, freeze(again.to_dict()), "dictionary of the synth read from file")
'''

DRAWN = '''
d = synth.to_dict()
one = synth.draw_survey(flux_sigma=real("fs"))
COUNT.clear()
back = popsynth.PopulationSynth.from_dict(d)
two = back.draw_survey(flux_sigma=real("fs"))
EQ(one, two, "population of the rebuilt synth")
'''

USERCLASSES = '''
class MySpatial(ConstantSphericalDistribution):
    _distribution_name = "PsaSpatial"
    extra = popsynth.utils.spherical_geometry.sample_theta_phi and DistributionParameter(default=2, vmin=0)
class MyLum(ParetoDistribution):
    _distribution_name = "PsaLum"
    extra = DistributionParameter(default=3)
class SubSmp(Smp):
    _auxiliary_sampler_name = "PsaSubSmp"
    own = AuxiliaryParameter(default=4)
    def __init__(self, name, observed=True):
        super(SubSmp, self).__init__(name, observed=observed, uses_distance=True)
class NoObs(Smp):
    _auxiliary_sampler_name = "PsaNoObs"
    def __init__(self, name):
        super(NoObs, self).__init__(name, observed=False)
class Fixed(Smp):
    _auxiliary_sampler_name = "PsaFixed"
    def __init__(self):
        super(Fixed, self).__init__("fx", observed=False, uses_luminosity=True)
class SubSel(Sel):
    _selection_name = "PsaSubSel"
    own = SelectionParameter()
'''


def user(ctx, name, derived=False, aux=True, **kw):
    src = T.setup(derived, aux, **kw) + COMPARE
    # the generic samplers record what they use in their constructor arguments; only name and observed flag are part of a description
    src = src.replace('uses_distance=flag("ud:" + n), uses_luminosity=flag("ul:" + n),\n                     uses_sky_position=flag("us:" + n)', '')
    src = src.replace('uses_distance=flag("ud:" + n), uses_luminosity=False,\n                     uses_sky_position=flag("us:" + n)', '')
    src = src.replace('Der("dl", uses_distance=flag("ud:dl"))', 'Der("dl")')
    if aux or derived:
        src += "for n in sorted(S_.keys()):\n    s = S_[n].selector\n    for u in ('obs_value', 'distance', 'luminosity', 'flux'):\n" \
               "        setattr(s, '_use_' + u, flag('use ' + u + ':' + n))\n"
    for s in ("flux", "dist"):
        if kw.get(s, True):
            src += "%ssel.level = real('level:%s')\n" % (s[0], s)
    src += BACK
    sc = ctx.scene("description of " + name, src)
    ctx.check_all(sc, "round-trip", labels=["seed", "input unchanged", "dictionary of the synth read from file"])


def draws(ctx, name, derived=False, aux=True, **kw):
    src = T.setup(derived, aux, **kw)
    src = src.replace('uses_distance=flag("ud:" + n), uses_luminosity=flag("ul:" + n),\n                     uses_sky_position=flag("us:" + n)', '')
    src = src.replace('uses_distance=flag("ud:" + n), uses_luminosity=False,\n                     uses_sky_position=flag("us:" + n)', '')
    src = src.replace('Der("dl", uses_distance=flag("ud:dl"))', 'Der("dl")')
    # a description does not carry the labels of selections: the generic selections are told apart by their level
    src = src.replace("super(Sel, self).__init__(name=name)", "super(Sel, self).__init__()").replace(
        "super(SpSel, self).__init__(name=name)", "super(SpSel, self).__init__(name='spsel')")
    src += DRAWN
    sc = ctx.scene("survey of a rebuilt synth: " + name, src)
    ctx.check_all(sc, "same-survey", labels=["population of the rebuilt synth"])


def classes(ctx):
    src = T.GENERIC + "from popsynth.distribution import DistributionParameter\n" + USERCLASSES.replace(
        "popsynth.utils.spherical_geometry.sample_theta_phi and ", "") + COMPARE + '''
sp = MySpatial()
sp.Lambda = real("Lambda")
sp.r_max = real("rmax")
sp.extra = real("spextra")
lum = MyLum()
lum.Lmin = real("Lmin")
lum.alpha = real("alpha")
lum.extra = real("lumextra")
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lum, seed=integer("seed"))
def sel():
    s = SubSel()
    s.own = real("selown")
    s.level = real("sellevel")
    return s
synth.set_flux_selection(sel())
synth.set_distance_selection(sel())
synth.add_spatial_selector(SpSel())
x = SubSmp("x", observed=flag("ox"))
x.own = real("xown")
x.mu = real("xmu")
y = NoObs("y")
y.mu = real("ymu")
y.set_selection_probability(sel())
z = Fixed()
z.mu = real("zmu")
x.set_secondary_sampler(y)
y.set_secondary_sampler(z)
w = SubSmp("w", observed=flag("ow"))
synth.add_observed_quantity(x)
synth.add_observed_quantity(w)
''' + BACK
    sc = ctx.scene("description of a synth made of user-defined classes", src)
    ctx.check_all(sc, "user-classes", labels=["seed", "input unchanged"])


def lone(ctx):
    src = T.GENERIC + COMPARE + """
synth = popsynth.PopulationSynth(spatial(), seed=integer("seed"))
dl = Der("dl")
dl.mu = real("mu")
dl.scale = real("scale")
s = Sel("s")
s.level = real("level")
s._use_luminosity = flag("on luminosity")
dl.set_selection_probability(s)
synth.add_observed_quantity(dl)
a = Smp("a", observed=flag("oa"))
a.width = real("width")
b = Smp("b", observed=flag("ob"))
synth.add_observed_quantity(b)
synth.add_observed_quantity(a)
""" + BACK + DRAWN
    sc = ctx.scene("description of samplers without secondaries", src.replace("super(Sel, self).__init__(name=name)", "super(Sel, self).__init__()"))
    ctx.check_all(sc, "round-trip", labels=["seed", "input unchanged", "population of the rebuilt synth"])


def orders(ctx):
    """nothing is attached in the order of the names"""
    src = T.GENERIC + COMPARE + """
from popsynth.aux_samplers.normal_aux_sampler import NormalAuxSampler
lum = ParetoDistribution()
lum.Lmin = real("Lmin")
lum.alpha = real("alpha")
synth = popsynth.PopulationSynth(spatial(), luminosity_distribution=lum, seed=integer("seed"))
def mk(n):
    x = NormalAuxSampler(n, observed=flag("observed:" + n))
    x.mu = real("mu:" + n)
    x.tau = real("tau:" + n)
    x.sigma = real("sigma:" + n)
    return x
m = {}
for n in ("v", "m", "z", "c", "k", "b"):
    m[n] = mk(n)
m["z"].set_secondary_sampler(m["k"])
m["z"].set_secondary_sampler(m["b"])
m["m"].set_secondary_sampler(m["z"])
m["m"].set_secondary_sampler(m["c"])
synth.add_observed_quantity(m["v"])
synth.add_observed_quantity(m["m"])
""" + BACK + DRAWN
    sc = ctx.scene("description of samplers attached in no particular order of names", src)
    ctx.check_all(sc, "round-trip", labels=["seed", "input unchanged", "population of the rebuilt synth"])


def handwritten(ctx):
    src = T.GENERIC + COMPARE + '''
def text_form(sel1, sel2, sec):
    return {"seed": 1234,
     "spatial distribution": {"ConstantSphericalDistribution": {"Lambda": 1, "r_max": 5}},
     "luminosity distribution": {"ParetoDistribution": {"Lmin": 1, "alpha": 2}},
     "distance selection": sel1, "flux selection": sel2,
     "auxiliary samplers": {
       "q": {"type": "NormalAuxSampler", "observed": True, "mu": 1, "tau": 2, "sigma": 3, "secondary": sec, "selection": {"UpperBound": {"boundary": 4}}},
       "r": {"type": "NormalAuxSampler", "observed": False, "mu": 5, "tau": 6},
       "p": {"type": "ParetoAuxSampler", "observed": True, "xmin": 1, "alpha": 2, "sigma": 3, "selection": {"UnitySelection": None}}}}
for i in range(3):
    sec = ["r", ["r"], {"r": {}}][i]
    d = text_form({"UnitySelection": None}, {"SoftFluxSelection": {"boundary": 1, "strength": 2}}, sec)
    f = freeze(d)
    s = popsynth.PopulationSynth.from_dict(d)
    EQ(f, freeze(d), "input unchanged")
    EQ(s._seed, 1234, "seed")
    EQ(list(s._auxiliary_observations.keys()), ["q", "p"], "top-level samplers")
    q = s._auxiliary_observations["q"]
    EQ(list(q.secondary_samplers.keys()), ["r"], "secondary")
    EQ((q.mu, q.tau, q.sigma, q.observed), (1.0, 2.0, 3.0, True), "parameters")
    EQ((q.secondary_samplers["r"].mu, q.secondary_samplers["r"].tau, q.secondary_samplers["r"].observed), (5.0, 6.0, False), "secondary parameters")
    EQ(q.selector.boundary, 4.0, "selection parameter")
    EQ(q.selector._use_obs_value, True, "selection on the observed value")
    EQ((s.spatial_distribution.Lambda, s.spatial_distribution.r_max), (1.0, 5.0), "spatial parameters")
    EQ((s.luminosity_distribution.Lmin, s.luminosity_distribution.alpha), (1.0, 2.0), "luminosity parameters")
    EQ((s._flux_selector.boundary, s._flux_selector.strength), (1.0, 2.0), "flux selection parameters")
n = popsynth.PopulationSynth.from_dict(text_form(None, None, None))
EQ((n._distance_selector_set, n._flux_selector_set), (False, False), "selections left out")
c = popsynth.PopulationSynth.from_dict({"seed": 1, "spatial distribution": {"ZPowerCosmoDistribution": {"Lambda": 1, "delta": 2, "r_max": 3}}})
EQ((c.spatial_distribution._is_rate, c.spatial_distribution.delta), (True, 2.0), "rate flag by default")
r = flag("rate")
c = popsynth.PopulationSynth.from_dict({"seed": 1, "spatial distribution": {"ZPowerCosmoDistribution": {"Lambda": 1, "delta": 2}, "is_rate": r}})
EQ(c.spatial_distribution._is_rate, r, "rate flag")
'''
    sc = ctx.scene("hand-written descriptions", src)
    ctx.check_all(sc, "hand-written", labels=["input unchanged", "seed", "selections left out"])


OPTIONAL = '''
ROLES = {"flux selection": ("SoftFluxSelection", {"boundary": 3, "strength": 2}), "distance selection": ("UpperBound", {"boundary": 4}),
         "spatial selection": ("DistanceSelection", {"min_distance": 1, "max_distance": 2})}
BARE = {"flux selection": "UnitySelection", "distance selection": "UnitySelection", "spatial selection": "GalacticPlaneSelection"}
def description(forms):
    d = {"seed": 7, "spatial distribution": {"ConstantSphericalDistribution": {"Lambda": 1, "r_max": 5}}}
    for role, form in forms.items():
        if form == "none":
            d[role] = None
        elif form == "bare":
            d[role] = {BARE[role]: None}
        elif form == "empty":
            d[role] = {BARE[role]: {}}
        elif form == "full":
            d[role] = {ROLES[role][0]: dict(ROLES[role][1])}
    return d
FORMS = ["absent", "none", "bare", "empty", "full"]
CASES = []
for f in FORMS:
    for s in FORMS:
        CASES.append({"flux selection": f, "distance selection": s, "spatial selection": "absent"})
        CASES.append({"flux selection": "absent", "distance selection": f, "spatial selection": s})
        CASES.append({"flux selection": f, "distance selection": "absent", "spatial selection": s})
'''


def optional(ctx):
    """every combination of two selections that are left out, named without parameters or given with them"""
    src = T.GENERIC + OPTIONAL + '''
def role(s, r):
    return {"flux selection": s._flux_selector, "distance selection": s._distance_selector, "spatial selection": s._spatial_selector}[r]
for c in CASES:
    s = popsynth.PopulationSynth.from_dict(description(c))
    for r, form in c.items():
        sel = role(s, r)
        if form in ("bare", "empty"):
            EQ(type(sel).__name__, BARE[r], r + " named without parameters")
            EQ({k: v for k, v in sel.parameters.items()}, {}, "parameters of a " + r + " named without parameters")
        elif form == "full":
            EQ(type(sel).__name__, ROLES[r][0], r)
            EQ({k: v for k, v in sel.parameters.items()}, {k: float(v) for k, v in ROLES[r][1].items()}, "parameters of the " + r)
    EQ((s._flux_selector_set, s._distance_selector_set), (c["flux selection"] in ("bare", "empty", "full"), c["distance selection"] in ("bare", "empty", "full")), "selections set")
'''
    sc = ctx.scene("descriptions with optional parts", src)
    ctx.check_all(sc, "hand-written", labels=["selections set"])


SELROLES = ("flux", "distance", "spatial", "aux")


def builtin(ctx, i, sp, lm, ax, sl):
    pos = sl.isa("SpatialSelection")
    ax2 = ax[(i + 1) % len(ax)]
    src = COMPARE + sp.build("sp", extra="is_rate=flag('is_rate')" if "is_rate" in sp.optional else "") + lm.build("lm") + \
        "synth = popsynth.PopulationSynth(sp, luminosity_distribution=lm, seed=integer('seed'))\n"
    src += sl.build("sel0") + (sl.build("sel1") + sl.build("sel2") if not pos else "")
    src += "synth.add_spatial_selector(sel0)\n" if pos else "synth.set_flux_selection(sel0)\nsynth.set_distance_selection(sel1)\n"
    if pos:
        src += "from popsynth.selection_probability import UnitySelection\nsel2 = UnitySelection()\n"
    src += ax[i % len(ax)].build("q", extra=obs(ax[i % len(ax)], "oq"))
    der = ax[i % len(ax)].isa("DerivedLumAuxSampler")
    src += "q.set_selection_probability(sel2)\n"
    if not same_names(ax[i % len(ax)], ax2) and not ax2.isa("DerivedLumAuxSampler"):
        src += ax2.build("r", extra=obs(ax2, "or")) + "q.set_secondary_sampler(r)\n"
    src += "synth.add_observed_quantity(q)\n"
    src += BACK
    sc = ctx.scene("description with %s, %s, %s, %s" % (sp.name, lm.name, ax[i % len(ax)].name, sl.name), src)
    ctx.check_all(sc, "built-in", labels=["seed", "input unchanged"])


def obs(a, f):
    return "observed=flag(%r)" % f if "observed" in a.required + a.optional else ""


def same_names(a, b):
    """neither takes a name: they may collide"""
    return "name" not in a.required + a.optional and "name" not in b.required + b.optional


def check(ctx):
    for n, kw in T.VARIANTS:
        ctx.run(user, ctx, n, **kw)
        ctx.run(draws, ctx, n, **kw)
    ctx.run(classes, ctx)
    ctx.run(handwritten, ctx)
    ctx.run(optional, ctx)
    ctx.run(lone, ctx)
    ctx.run(orders, ctx)
    sps, lms, axs, sls = K.kinds("spatial"), K.kinds("lum"), K.kinds("aux"), K.kinds("sel")
    for i in range(max(len(sps), len(lms), len(axs), len(sls))):
        ctx.run(builtin, ctx, i, sps[i % len(sps)], lms[i % len(lms)], axs, sls[i % len(sls)])
