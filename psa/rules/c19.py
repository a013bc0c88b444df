"""C19: angles always lie in their domain and on the right axis."""
from ..terms import show, is_num, cval, b_and, atom_of, mk_cmp, const
from . import topo as T
from . import catalog as K
from . import draws as D
from .c16 import strip

EXPLANATION = ("The sky positions of every built-in spatial distribution are drawn abstractly.  The default sky must be the inverse-CDF formulas of the uniform sphere over two "
               "different uniform variates; any other polar angle must be an arc cosine (whose range is [0, pi]) of a ratio that is bounded by one by construction.  "
               "Declination and right ascension of distributions, containers and populations must be 90 degrees minus the polar angle and the azimuth in degrees; the "
               "sky and viewing-angle samplers must be their inverse-CDF formulas; the Cartesian conversion must be the one of a polar angle and an azimuth.")
ASSUMPTIONS = ("numpy.random.uniform delivers variates in [0, 1)", "numpy.arccos returns values in [0, pi]")

SKY = [("theta", ["np.arccos(1 - 2 * slot('u01', 0))", "np.arccos(2 * slot('u01', 0) - 1)"]),
       ("phi", ["2 * np.pi * slot('u01', 0)", "2 * np.pi * (1 - slot('u01', 0))"])]


def refs(name, formulas):
    return "".join("mark(%r, freeze(%s))\n" % ("%s ref %d" % (name, i), f) for i, f in enumerate(formulas))


def formula(ctx, sc, subject, key, n_refs, n, what, given=()):
    m = D.marks(sc)
    return D.formula(ctx, sc, "formula", subject, strip(m[key]), [strip(m["%s ref %d" % (key, i)]) for i in range(n_refs)], ["u01"], n,
                     given=given, guard=sc.I.marks["%s ref 0" % key][0], what=what)


def arc(t):
    """an arc cosine, or a gated choice of them: the argument(s), or None"""
    t = strip(t)
    if t.op == "ite":
        a, b = arc(t.args[1]), arc(t.args[2])
        return None if a is None or b is None else a + b
    if t.op == "call" and t.args[0] == "arccos":
        return [t.args[1]]
    return None


def bounded(sc, t):
    """x / sqrt(x**2 + y**2 ...) lies in [-1, 1]: the radicand minus the square of the numerator is a sum of squares"""
    from ..terms import raw
    if t.op != "mul":
        return False
    for f in t.args:
        if f.op == "pow" and is_num(f.args[1]) and cval(f.args[1]) == -0.5 and f.args[0].op == "add":
            num = [x for x in t.args if x is not f]
            sq = [x for x in f.args[0].args]
            even = all(square(x) for x in sq)
            target = raw("mul", *(num + num)) if num else None
            if even and target is not None and any(sc.equal(x, target).equal for x in sq):
                return True
    return False


def square(x):
    if x.op == "pow":
        return is_num(x.args[1]) and cval(x.args[1]) % 2 == 0
    if x.op == "mul":
        return all(square(y) or (is_num(y) and cval(y) >= 0) for y in x.args)
    return is_num(x) and cval(x) >= 0


def sky(ctx, it):
    src = it.build("sp", extra="is_rate=flag('is_rate')" if "is_rate" in it.optional else "") + "sp.r_max = real('rmax')\n" + D.PLACEHOLDERS + '''
N = integer("N")
sp._distances = array("d", N)
sp.draw_sky_positions(N)
theta, phi = sp.theta, sp.phi
EQ(len(theta), N, "number of polar angles")
EQ(len(phi), N, "number of azimuths")
EQ(sp.dec, 90 - theta * 180 / np.pi, "declination")
EQ(sp.ra, phi * 180 / np.pi, "right ascension")
v = sp.spatial_values
EQ(v.theta, theta, "polar angle handed to samplers")
EQ(v.phi, phi, "azimuth handed to samplers")
EQ(v.dec, 90 - theta * 180 / np.pi, "declination handed to samplers")
EQ(v.ra, phi * 180 / np.pi, "right ascension handed to samplers")
EQ(v.distance, sp.distances, "distance handed to samplers")
mark("theta", freeze(theta))
mark("phi", freeze(phi))
mark("n", N)
''' + "".join(refs(k, f) for k, f in SKY)
    sc = ctx.scene("sky of " + it.name, src)
    ctx.check_all(sc, "axes", labels=["declination", "right ascension", "polar angle handed to samplers", "azimuth handed to samplers"])
    m = D.marks(sc)
    own = any("draw_sky_positions" in c.methods for c in it.ci.mro() if c.name != "SpatialDistribution")
    if not own:
        for k, f in SKY:
            formula(ctx, sc, "%s %s" % (it.name, k), k, len(f), m["n"], "the %s of %s" % ("polar angle" if k == "theta" else "azimuth", it.name),
                    given=[m["phi"]] if k == "theta" else [m["theta"]])
        return
    t = strip(m["theta"])
    args = arc(t)
    ctx.expect(args is not None, "domain", it.name + " polar angle", t.loc,
               "the polar angle of %s is not an arc cosine, so nothing keeps it in [0, pi]: %s" % (it.name, show(t, 6)[:400]))
    for i, a in enumerate(args or ()):
        if bounded(sc, a):
            ctx.discharge("domain", "%s argument %d" % (it.name, i))
            continue
        inside = b_and(atom_of(mk_cmp("le", a, const(1 + 1e-9))), atom_of(mk_cmp("le", const(-1 - 1e-9), a)))
        if not sc.holds(inside, sc.I.pc).equal:
            ctx.violation("domain", "%s argument %d" % (it.name, i), t.loc,
                          "the polar angle of %s is the arc cosine of a quantity that leaves [-1, 1]: %s" % (it.name, show(a, 6)[:400]))
        else:
            ctx.undecided("domain", "%s argument %d" % (it.name, i), "the argument of the arc cosine is not recognised as a ratio bounded by one: %s" % show(a, 6)[:300])


def samplers(ctx):
    src = D.PLACEHOLDERS + '''
from popsynth.aux_samplers.sky_sampler import RASampler, DecSampler, SkySampler
from popsynth.aux_samplers.viewing_angle_sampler import ViewingAngleSampler
N = integer("N")
ra, dec, va = RASampler(), DecSampler(), ViewingAngleSampler()
ASSUME(0 < real("angle"))
ASSUME(real("angle") <= 180)
va.max_angle = real("angle")
sky = SkySampler()
HOLDS(isinstance(sky.ra_sampler, RASampler), "default right ascension sampler")
HOLDS(isinstance(sky.dec_sampler, DecSampler), "default declination sampler")
own = SkySampler(ra_sampler=ra, dec_sampler=dec)
SAME(own.ra_sampler, ra, "given right ascension sampler")
SAME(own.dec_sampler, dec, "given declination sampler")
for s in (ra, dec, va):
    s.draw(size=N)
m = np.cos(real("angle") * np.pi / 180)
mark("ra", freeze(ra.true_values))
mark("dec", freeze(dec.true_values))
mark("va", freeze(va.true_values))
mark("n", N)
EQ(va.probability, np.sin(va.true_values) / (1 - m), "density of the viewing angle")
'''
    refs_ = {"ra": ["2 * np.pi * slot('u01', 0)", "2 * np.pi * (1 - slot('u01', 0))"],
             "dec": ["np.arcsin(1 - 2 * slot('u01', 0))", "np.arcsin(2 * slot('u01', 0) - 1)"],
             "va": ["np.arccos(1 - slot('u01', 0) * (1 - m))", "np.arccos(m + slot('u01', 0) * (1 - m))"]}
    for k, f in refs_.items():
        src += refs(k, f)
    sc = ctx.scene("angle samplers", src)
    ctx.check_all(sc, "axes")
    n = D.marks(sc)["n"]
    for k, w in (("ra", "the value of the RA sampler"), ("dec", "the value of the declination sampler"), ("va", "the viewing angle")):
        formula(ctx, sc, w, k, 2, n, w)


ANGLES = ("RASampler", "DecSampler", "SkySampler", "ViewingAngleSampler")


def viewing(ctx):
    """maximum viewing angles over their whole range"""
    src = D.PLACEHOLDERS + '''
from popsynth.aux_samplers.viewing_angle_sampler import ViewingAngleSampler
N = integer("N")
va = ViewingAngleSampler()
x = real("angle") ** 2
angle = 180 * x / (1 + x)
va.max_angle = angle
va.draw(size=N)
m = np.cos(angle * np.pi / 180)
mark("va", freeze(va.true_values))
mark("n", N)
EQ(va.probability, np.sin(va.true_values) / (1 - m), "density of the viewing angle")
''' + refs("va", ["np.arccos(1 - slot('u01', 0) * (1 - m))", "np.arccos(m + slot('u01', 0) * (1 - m))"])
    sc = ctx.scene("viewing angle over the whole range", src)
    ctx.check_all(sc, "axes")
    formula(ctx, sc, "viewing angle over the whole range", "va", 2, D.marks(sc)["n"], "the viewing angle")


def geometry(ctx):
    src = '''
from popsynth.utils.spherical_geometry import xyz
N = integer("N")
r, theta, phi = array("r", N), array("theta", N), array("phi", N)
x, y, z = xyz(r, theta, phi)
EQ(x, r * np.sin(theta) * np.cos(phi), "x")
EQ(y, r * np.sin(theta) * np.sin(phi), "y")
EQ(z, r * np.cos(theta), "z")
x, y, z = xyz(real("a"), real("b"), real("c"))
EQ(x, real("a") * np.sin(real("b")) * np.cos(real("c")), "x of one point")
EQ(y, real("a") * np.sin(real("b")) * np.sin(real("c")), "y of one point")
EQ(z, real("a") * np.cos(real("b")), "z of one point")
'''
    sc = ctx.scene("Cartesian coordinates", src)
    ctx.check_all(sc, "axes", labels=["x", "y", "z"])


def population(ctx, it):
    src = it.build("sp", extra="is_rate=flag('is_rate')" if "is_rate" in it.optional else "") + '''
sp.r_max = real("rmax")
from popsynth.distributions.pareto_distribution import ParetoDistribution
lum = ParetoDistribution()
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lum, seed=integer("seed"))
pop = synth.draw_survey(n_samples=integer("N"))
EQ(pop.theta.latent, sp.theta, "polar angle")
EQ(pop.phi.latent, sp.phi, "azimuth")
EQ(np.asarray(pop.theta), sp.theta, "observed polar angle")
EQ(np.asarray(pop.phi), sp.phi, "observed azimuth")
EQ(pop.distances.latent, sp.distances, "distance")
EQ(np.asarray(pop.dec), 90 - sp.theta * 180 / np.pi, "declination")
EQ(np.asarray(pop.ra), sp.phi * 180 / np.pi, "right ascension")
EQ(pop.dec.latent, 90 - sp.theta * 180 / np.pi, "latent declination")
EQ(pop.ra.latent, sp.phi * 180 / np.pi, "latent right ascension")
'''
    sc = ctx.scene("population of " + it.name, src)
    ctx.check_all(sc, "axes", labels=["polar angle", "azimuth", "declination", "right ascension"])


def check(ctx):
    for it in K.kinds("spatial"):
        ctx.run(sky, ctx, it)
        ctx.run(population, ctx, it)
    ctx.run(samplers, ctx)
    ctx.run(viewing, ctx)
    ctx.run(geometry, ctx)
