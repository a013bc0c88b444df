"""Most general clients: driver-defined samplers and selections that record what the library hands them.

The driver modules below are analysed together with the library (never executed): every generic sampler returns an arbitrary array,
every generic selection an arbitrary mask, and notes which values it could see when the library called it."""

GENERIC = '''
from popsynth.auxiliary_sampler import AuxiliarySampler, DerivedLumAuxSampler, AuxiliaryParameter
from popsynth.selection_probability import SelectionProbability, SelectionParameter
from popsynth.selection_probability.spatial_selection import SpatialSelection
from popsynth.distributions.spherical_distribution import ConstantSphericalDistribution
from popsynth.distributions.pareto_distribution import ParetoDistribution
SEEN = {}
COUNT = {}
ORDER = []

def tick(tag):
    COUNT[tag] = COUNT.get(tag, 0) + 1
    ORDER.append(tag)
    return tag + "#" + str(COUNT[tag])

def note(key, value):
    SEEN[key] = freeze(value)

class Sel(SelectionProbability):
    _selection_name = "PsaSel"
    level = SelectionParameter(default=1)
    def __init__(self, name="sel"):
        super(Sel, self).__init__(name=name)
    def draw(self, size=1):
        t = self._name
        k = tick("sel:" + t)
        note("val:" + t, self._observed_value)
        note("dist:" + t, self._distance)
        note("lum:" + t, self._luminosity)
        note("flux:" + t, self._observed_flux)
        note("size:" + t, size)
        self._selection = boolarray("keep:" + k, size)

class SpSel(SpatialSelection):
    _selection_name = "PsaSpSel"
    def __init__(self, name="spsel"):
        super(SpSel, self).__init__(name=name)
    def draw(self, size=1):
        t = self._name
        k = tick("sel:" + t)
        note("pos:" + t, self._spatial_distribution)
        note("theta:" + t, self._spatial_distribution.theta)
        note("phi:" + t, self._spatial_distribution.phi)
        note("dist:" + t, self._spatial_distribution.distances)
        note("size:" + t, size)
        self._selection = boolarray("keep:" + k, size)

def seen_by(self, size):
    n = self._name
    note("dist:" + n, getattr(self, "_distance", None))
    note("theta:" + n, getattr(self, "_theta", None))
    note("phi:" + n, getattr(self, "_phi", None))
    note("ra:" + n, getattr(self, "_ra", None))
    note("dec:" + n, getattr(self, "_dec", None))
    note("lum:" + n, getattr(self, "_luminosity", None))
    note("size:" + n, size)
    for k, s in self._secondary_samplers.items():
        note("sec:" + n + ":" + k, s.true_values)
        note("secobs:" + n + ":" + k, s.obs_values)

class Smp(AuxiliarySampler):
    _auxiliary_sampler_name = "PsaSmp"
    mu = AuxiliaryParameter(default=0)
    width = AuxiliaryParameter(default=1, vmin=0)
    def __init__(self, name, observed=True, uses_distance=False, uses_luminosity=False, uses_sky_position=False):
        super(Smp, self).__init__(name, observed=observed, uses_distance=uses_distance, uses_luminosity=uses_luminosity,
                                  uses_sky_position=uses_sky_position)
    def true_sampler(self, size):
        k = tick("true:" + self._name)
        seen_by(self, size)
        note("used-mu:" + self._name, self.mu)
        note("used-width:" + self._name, self.width)
        self._true_values = array(k, size)
    def observation_sampler(self, size=1):
        k = tick("obs:" + self._name)
        note("true-at-obs:" + self._name, self._true_values)
        self._obs_values = array(k, size)

class Der(DerivedLumAuxSampler):
    _auxiliary_sampler_name = "PsaDer"
    mu = AuxiliaryParameter(default=0)
    scale = AuxiliaryParameter(default=2.5)
    def __init__(self, name="dl", uses_distance=False):
        super(Der, self).__init__(name, uses_distance=uses_distance)
    def true_sampler(self, size):
        k = tick("true:" + self._name)
        seen_by(self, size)
        note("used-mu:" + self._name, self.mu)
        self._true_values = array(k, size)
    def compute_luminosity(self):
        note("used-scale:" + self._name, self.scale)
        k = tick("lum:" + self._name)
        return array(k, len(self._true_values))

def spatial():
    sp = ConstantSphericalDistribution()
    sp.Lambda = real("Lambda")
    sp.r_max = real("rmax")
    return sp
'''

# the sampler forest: a1 -> s1 -> t1 -> u1 ; a1 -> s2 <- a2 ; s1 -> t2 <- s2 ; t2 -> u1 ; a3 alone
FOREST = '''
def forest(cls=Smp):
    out = {}
    for n in ("a1", "a2", "a3", "s1", "s2", "t1", "t2", "u1"):
        out[n] = cls(n, observed=flag("observed:" + n), uses_distance=flag("ud:" + n), uses_luminosity=flag("ul:" + n),
                     uses_sky_position=flag("us:" + n))
        out[n].mu = real("mu:" + n)
        sel = Sel(n)
        sel.level = real("level:" + n)
        out[n].set_selection_probability(sel)
    out["t1"].set_secondary_sampler(out["u1"])
    out["s1"].set_secondary_sampler(out["t1"])
    out["t2"].set_secondary_sampler(out["u1"])
    out["s1"].set_secondary_sampler(out["t2"])
    out["a1"].set_secondary_sampler(out["s1"])
    out["a1"].set_secondary_sampler(out["s2"])
    out["a2"].set_secondary_sampler(out["s2"])
    out["s2"].set_secondary_sampler(out["t2"])
    return out
def derived(cls=Smp):
    out = {}
    dl = Der("dl", uses_distance=flag("ud:dl"))
    dl.mu = real("mu:dl")
    dl.set_selection_probability(Sel("dl"))
    for n in ("d1", "e1", "d2"):
        out[n] = cls(n, observed=flag("observed:" + n), uses_distance=flag("ud:" + n), uses_luminosity=False,
                     uses_sky_position=flag("us:" + n))
        out[n].mu = real("mu:" + n)
        out[n].set_selection_probability(Sel(n))
    out["d1"].set_secondary_sampler(out["e1"])
    dl.set_secondary_sampler(out["d1"])
    dl.set_secondary_sampler(out["d2"])
    out["d2"].set_secondary_sampler(out["e1"])
    out["dl"] = dl
    return out
'''

TOP = ("a1", "a2", "a3")
ALL = ("a1", "a2", "a3", "s1", "s2", "t1", "t2", "u1")
EDGES = (("s1", "a1"), ("s2", "a1"), ("s2", "a2"), ("t1", "s1"), ("t2", "s1"), ("t2", "s2"), ("u1", "t1"), ("u1", "t2"))
DER = ("dl", "d1", "e1", "d2")
DEDGES = (("d1", "dl"), ("d2", "dl"), ("e1", "d1"), ("e1", "d2"))


def setup(derived=False, aux=True, flux=True, dist=True, spat=True, seed='integer("seed")'):
    lines = [GENERIC, FOREST, "lum = None" if derived == "only" else
             "lum = ParetoDistribution()\nlum.Lmin = real('Lmin')\nlum.alpha = real('alpha')",
             "sp = spatial()", "synth = popsynth.PopulationSynth(sp, luminosity_distribution=lum, seed=%s)" % seed, "S_ = {}"]
    if derived:
        lines.append("der = derived()\nsynth.add_observed_quantity(der['dl'])\nS_.update(der)")
    if aux:
        lines.append("aux = forest()\nfor n in ('a1', 'a2', 'a3'):\n    synth.add_observed_quantity(aux[n])\nS_.update(aux)")
    if derived and aux:
        lines.append("aux['a3'].set_secondary_sampler(der['d2'])")
    if flux:
        lines.append("fsel = Sel('FLUX')\nsynth.set_flux_selection(fsel)")
    if dist:
        lines.append("dsel = Sel('DIST')\nsynth.set_distance_selection(dsel)")
    if spat:
        lines.append("ssel = SpSel('SPAT')\nsynth.add_spatial_selector(ssel)")
    return "\n".join(lines) + "\n"


DRAW = "pop = synth.draw_survey(flux_sigma=real('fs'))\n"


def samplers(derived, aux):
    return (DER if derived else ()) + (ALL if aux else ())


def edges(derived, aux):
    return (DEDGES if derived else ()) + (EDGES if aux else ()) + ((("d2", "a3"),) if derived and aux else ())


VARIANTS = (("samplers", dict(derived=False)), ("derived", dict(derived=True, aux=True)),
            ("derived only", dict(derived="only", aux=False)), ("no spatial selection", dict(derived=False, spat=False)),
            ("no flux selection", dict(derived="only", flux=False)), ("plain", dict(aux=False)))
