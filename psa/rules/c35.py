"""C35: volumes, densities, time dilation and fluxes follow the documented formulas."""
from . import catalog as K
from .c30 import int_powers

EXPLANATION = ("Every built-in spatial distribution (discovered from the class hierarchy) is interpreted abstractly with symbolic parameters; the value numbers of its "
               "density, differential volume, time adjustment and flux transform at an arbitrary distance, scalar or array, must be those of the documented formula. "
               "The functions of the cosmology must satisfy the relations that define them (flat Lambda-CDM with the radiation and neutrino terms of WMAP9) for every "
               "matter density and Hubble constant.")
ASSUMPTIONS = ("float32 storage of the jitted cosmology class is ignored", "compiled functions (numba.njit) compute what their Python source says",
               "the approximant of the luminosity distance (Adachi and Kasai 2012) is taken as given; its accuracy is C32")

DENSITY = {
    "ConstantSphericalDistribution": "real('s_Lambda') + 0 * r",
    "ZPowerSphericalDistribution": "real('s_Lambda') * (1 + r) ** real('s_delta')",
    "FlatlandDistribution": "real('s_Lambda') + 0 * r",
    "SpiralGalaxyDistribution": "real('s_rho') * ((r + real('s_R1')) / (real('s_R0') + real('s_R1'))) ** real('s_a') * np.exp(-real('s_b') * (r - real('s_R0')) / (real('s_R0') + real('s_R1')))",
    "SFRDistribution": "real('s_r0') * (real('s_a') + real('s_rise') * r) / (1 + (r / real('s_peak')) ** real('s_decay'))",
    "ZPowerCosmoDistribution": "real('s_Lambda') * (1 + r) ** real('s_delta')",
    "UniformCosmoDistribution": "real('s_r0') / (real('s_zmax') - real('s_zmin')) + 0 * r",
}
# family: (differential volume, flux, time adjustment)
FAMILY = [
    ("CosmologicalDistribution", ("cosmology.differential_comoving_volume(r)", "L / (4 * np.pi * cosmology.luminosity_distance(r) ** 2)",
                                  "1 + 0 * r + (r if flag('is_rate') else 0)")),
    ("SphericalDistribution", ("4 * np.pi * r ** 2", "L / (4 * np.pi * (1 + r) ** 2)", "1 + 0 * r")),
    ("FlatlandDistribution", ("1 + 0 * r", "L + 0 * r", "1 + 0 * r")),
]
POINTS = (("one distance", "real('r')", "real('L')"), ("many distances", "array('r', integer('n'))", "array('L', integer('n'))"))


def family(it):
    for n, f in FAMILY:
        if it.isa(n):
            return f
    return None


def density(ctx, it):
    dens = None
    for c in it.ci.mro():
        if c.name in DENSITY:
            dens = DENSITY[c.name]
            break
    fam = family(it)
    if dens is None or fam is None:
        return ctx.undecided("formula", it.name, "no formula is known for this distribution")
    src = "from popsynth.utils.cosmology import cosmology\n" + it.build("s", extra="is_rate=flag('is_rate')" if "is_rate" in it.optional else "")
    for label, r, l in POINTS:
        src += '''
r, L = %s, %s
b = freeze((r, L))
ASSUME(0 < r)
EQ(s.dNdV(r) + 0 * r, %s, "density at %s")
EQ(s.differential_volume(r) + 0 * r, %s, "volume at %s")
EQ(s.transform(L, r) + 0 * r, %s, "flux at %s")
EQ(s.time_adjustment(r) + 0 * r, %s, "time adjustment at %s")
EQ((r, L), b, "arguments are left alone at %s")
''' % (r, l, dens, label, fam[0], label, fam[1], label, fam[2], label, label)
    src += "EQ((%s), (%s), 'parameters are left alone')\n" % (", ".join("s." + p for p in it.params) + ",", ", ".join("real('s_%s')" % p for p in it.params) + ",")
    sc = ctx.scene(it.name, src)
    ctx.check_all(sc, "formula")


def integers(ctx, it):
    """parameters and distances given as integers"""
    src = it.build("s", values={p: "(3 * integer('s_%s') - 7)" % p for p in it.params})
    for r in ("integer('r')", "intarray('q', integer('n'))"):
        src += "r = %s\nASSUME(0 < r)\ns.dNdV(r)\ns.differential_volume(r)\ns.transform(real('L'), r)\ns.time_adjustment(r)\n" % r
    sc = ctx.scene("%s with integer parameters" % it.name, src)
    int_powers(ctx, sc)


def rates(ctx):
    """without asking for it, a cosmological distribution models a rate"""
    for it in K.kinds("spatial"):
        if "is_rate" not in it.optional:
            continue
        src = it.build("s") + "EQ(s.time_adjustment(real('r')), 1 + real('r'), 'time adjustment of a rate')\n"
        src += "EQ(%s(is_rate=False).time_adjustment(real('r')), 1, 'time adjustment of a steady population')\n" % it.name
        sc = ctx.scene(it.name + " default", src)
        ctx.check_all(sc, "formula")


def cosmo(ctx):
    src = '''
from popsynth.utils.cosmology import Cosmology
from astropy.cosmology import WMAP9
from astropy.constants import c as light
Om, h0 = real("Om"), real("h0")
ASSUME(0 < Om)
ASSUME(Om < 0.9)
ASSUME(0 < h0)
k = Cosmology(Om, h0)
dh = light.value * 1e-3 / h0
Ode = 1 - Om - (WMAP9.Onu0 + WMAP9.Ogamma0)
def Phi(x):
    return (1 + 1.320 * x + 0.441 * x ** 2 + 0.02656 * x ** 3) / (1 + 1.392 * x + 0.5121 * x ** 2 + 0.03944 * x ** 3)
def dl(z):
    return 2 * dh * (1 + z) / np.sqrt(Om) * (Phi((1 - Om) / Om) - Phi((1 - Om) / Om / (1 + z) ** 3) / np.sqrt(1 + z)) * 3.086e24
EQ(k.dh, dh, "Hubble distance")
EQ(k.Ode, Ode, "dark energy density")
EQ(k.Om_reduced, (1 - Om) / Om, "reduced density")
EQ(k.Om_sqrt, np.sqrt(Om), "root of the density")
for z, label in ((real("z"), "at one redshift"), (array("z", integer("n")), "at many redshifts")):
    b = freeze(z)
    ASSUME(0 < z)
    EQ(k.a(z), np.sqrt(Om * (1 + z) ** 3 + Ode), "expansion rate " + label)
    EQ(k.xx(z), (1 - Om) / Om / (1 + z) ** 3, "density ratio " + label)
    EQ(k.Phi(z), Phi(z), "approximant " + label)
    EQ(k.luminosity_distance(z), dl(z), "luminosity distance " + label)
    EQ(k.comoving_transverse_distance(z), dl(z) / (1 + z), "comoving distance " + label)
    EQ(k.differential_comoving_volume(z), dh * (dl(z) / (1 + z) / 3.086e24) ** 2 / np.sqrt(Om * (1 + z) ** 3 + Ode) * 1e-9, "comoving volume " + label)
    EQ(z, b, "redshifts are left alone " + label)
EQ((k.Om, k.h0), (Om, h0), "the cosmology is left alone")
'''
    sc = ctx.scene("cosmology", src)
    ctx.check_all(sc, "cosmology")


def check(ctx):
    for it in K.kinds("spatial"):
        ctx.run(density, ctx, it)
        ctx.run(integers, ctx, it)
    ctx.run(rates, ctx)
    ctx.run(cosmo, ctx)
