"""C16: object count and distances follow one and the same rate."""
from ..terms import raw, Term, subterms, TRUE, FALSE, show, cval, is_num, const, mk_mul, b_not
from . import catalog as K

EXPLANATION = ("A survey of a spatial distribution whose density, volume, time adjustment and transform are arbitrary functions, with and without normalisation, "
               "progress bar and fixed size, is interpreted abstractly; the object count must be the Poisson variate of the integral of density times volume over "
               "time adjustment.  Of the distances, the accepted value of the rejection loop, the exit condition of that loop and the heights and distances drawn "
               "in it are taken from the value graph: each distance must be maximum distance times a uniform variate drawn in the same pass of the loop, and the loop "
               "must stop exactly when another uniform variate times the maximum of the rate on a grid over the whole range lies below the rate at that distance.  "
               "The same is required of every built-in spatial distribution.")
ASSUMPTIONS = ("numpy.random.uniform and numpy.random.poisson deliver independent variates of their documented distributions",
               "whether the grid maximum bounds the rate is not decided (C31)")

GENSP = '''
from popsynth.distribution import SpatialDistribution, DistributionParameter
import scipy.integrate as integrate
class GenSp(SpatialDistribution):
    _distribution_name = "PsaGenSp"
    Lambda = DistributionParameter(default=1, vmin=0NORM)
    def __init__(self):
        super(GenSp, self).__init__(name="gensp", seed=1, form="f")
    def differential_volume(self, r):
        return ufn("volume", r)
    def dNdV(self, r):
        return self.Lambda * ufn("density", r)
    def time_adjustment(self, r):
        return ufn("time", r)
    def transform(self, L, r):
        return ufn("flux", L, r)
sp = GenSp()
sp.Lambda = real("Lambda")
sp.r_max = real("rmax")
'''

REFERENCE = '''
def rate(r):
    return sp.dNdV(r) * sp.differential_volume(r) / sp.time_adjustment(r)
def reference_rate(normalize):
    """the rate that governs the draw; normalising divides by the integral at unit normalisation"""
    if not normalize:
        return rate
    if not NORMP:
        total = integrate.quad(rate, 0.0, sp.r_max)[0]
    else:
        old = getattr(sp, NORMP)
        sp._parameter_storage[NORMP] = 1
        total = integrate.quad(rate, 0.0, sp.r_max)[0]
        sp._parameter_storage[NORMP] = old
    return lambda r: rate(r) / total
f = reference_rate(%s)
ASSUME(0 < real("psa_u"))
ASSUME(real("psa_u") < 1)
ASSUME(0 < real("psa_v"))
ASSUME(real("psa_v") < 1)
ASSUME(0 < real("rmax"))
distance = real("rmax") * real("psa_u")
mark("distance", distance)
top = np.max(f(np.linspace(0.0, real("rmax"), integer("psa_grid"))))
mark("accept", real("psa_v") * top < f(distance))
mark("limit", f(distance) / top)
ASSUME(0 < top)
ASSUME(0 < f(distance))
mark("regular", distance)
'''


def preparation(builtin, normp):
    if builtin is not None:
        src = "import scipy.integrate as integrate\n" + builtin.build("sp", extra="is_rate=flag('is_rate')" if "is_rate" in builtin.optional else "")
        return src + "sp.r_max = real('rmax')\nNORMP = sp._normalization_parameter\n"
    return GENSP.replace("NORM", ", is_normalization=True" if normp else "") + "NORMP = %s\n" % ("'Lambda'" if normp else "None")


def rewrite(t, table, memo=None):
    """replace whole subterms"""
    memo = {} if memo is None else memo
    if t in table:
        return table[t]
    if t.id in memo:
        return memo[t.id]
    if not any(isinstance(a, Term) for a in t.args):
        r = t
    else:
        a = [rewrite(x, table, memo) if isinstance(x, Term) else x for x in t.args]
        r = t if all(x is y for x, y in zip(a, t.args)) else raw(t.op, *a)
    memo[t.id] = r
    return r


def strip(t):
    """the value itself, without the wrappers that mark copies and conversions"""
    while True:
        name = t.args[0] if t.op in ("app", "call") else t.op
        inner = t.args[1:] if t.op in ("app", "call") else t.args
        if name in ("fresh", "array", "asarray", "frozenval") and inner and isinstance(inner[0], Term):
            t = inner[0]
        else:
            return t


def element(t):
    """(count, element term) of an array that a loop fills one entry per pass"""
    t = strip(t)
    if t.op == "mu":
        b = strip(t.args[2])
        if b.op == "store" and strip(t.args[1]).op == "full" and b.args[0].op == "phi" and b.args[0].args[0] == t.args[0]:
            i = b.args[1]
            if i.op in ("iterelem", "elem") and i.args[0] == t.args[0]:
                return t.args[3], b.args[2]
    if t.op == "mapstore" and strip(t.args[1]).op == "full":
        i = t.args[2]
        if i.op in ("iterelem", "elem") and i.args[0] == t.args[0]:
            return t.args[4], t.args[3]
    if t.op == "maplist" and not t.args[1].args:
        return t.args[3], t.args[2]
    return None, None


def of_loop(t, lid):
    return any(x.op == "phi" and x.args[0] == lid and x.args[1] == ("R", "np") for x in subterms(t))


def uniforms(t, lid):
    return {x for x in subterms(t) if x.op == "rand" and x.args[0] == "u01" and of_loop(x, lid)} if t is not None else set()


def rejection(ctx, sc, D):
    name = sc.name + ":distances"
    ref = marks(sc)
    count, v = element(D)
    if v is None:
        return ctx.undecided("rejection", name, "the distances are not filled by one loop: " + show(D, 6)[:300])
    loops = [l for l, d in sc.I.loops.items() if isinstance(l, int) and d["kind"] == "while" and d.get("exit") is not None and uniforms(v, l)]
    if not loops:
        return ctx.violation("rejection", name, v.loc, "the accepted distance is not drawn in a rejection loop: %s" % show(v, 6)[:400])
    lid = max(loops)
    W = sc.I.loops[lid]
    us = uniforms(v, lid)
    where = W["loc"]
    if not ctx.expect(len(us) == 1, "rejection", name + " one variate", where, "the accepted distance is made of %d uniform variates: %s" % (len(us), show(v, 6)[:400])):
        return
    u = us.pop()
    vs = uniforms(W["exit"], lid) - {u}
    if not ctx.expect(len(vs) == 1, "rejection", name + " height", where,
                      "the loop compares %d uniform heights of its own with the rate: it stops when %s" % (len(vs), show(W["exit"], 9)[:600])):
        return
    h = vs.pop()
    syms = {}
    for t in ref.values():
        for x in subterms(t):
            if x.op == "sym" and str(x.args[0]).startswith("psa_"):
                syms[x.args[0]] = x
    table = {u: syms["psa_u"], h: syms["psa_v"]}
    ex = rewrite(W["exit"], table)
    grid = {}
    for x in subterms(ex):
        if x.op == "call" and x.args[0] == "linspace":
            n = x.args[3]
            if is_num(n) and cval(n) >= 2:
                grid[n] = syms["psa_grid"]
                new = raw("call", "linspace", x.args[1], x.args[2], syms["psa_grid"])
                table[x] = new
    ctx.expect(len(grid) <= 1, "rejection", name + " one grid", where, "the height of the rejection box comes from several grids")
    ex = rewrite(W["exit"], table)
    r = sc.equal(rewrite(v, table), ref["distance"], sc.I.marks["accept"][0])
    ctx.expect(r.equal, "rejection", name + " candidate", v.loc or where, "the candidate distance is %s, not the maximum distance times a uniform variate" % show(v, 7)[:400])
    r = sc.equal(ex, ref["accept"], sc.I.marks["accept"][0])
    if r.equal:
        # and at the very edge: heights that differ from the limit in the seventh digit are told apart
        edge = sc.I.marks["regular"][0]
        lim = ref["limit"]
        for factor, want in ((1 - 1e-7, True), (1 + 1e-7, False)):
            t2 = dict(table)
            t2[h] = mk_mul(const(factor), lim)
            at = rewrite(W["exit"], t2)
            q = sc.holds(at if want else b_not(at), edge)
            if not q.equal:
                r = q
    if r.equal and not r.active:
        return ctx.undecided("rejection", name + " acceptance", "no sample satisfies the assumptions")
    ctx.expect(r.equal, "rejection", name + " acceptance", where, "a candidate is accepted when %s; by the rate it must be %s" % (show(W["exit"], 11)[:900], show(ref["accept"], 11)[:900]))


def marks(sc):
    return {k: m[1][0] for k, m in sc.I.marks.items()}


def survey(ctx, name, norm, progress, kw, normp=True, builtin=None):
    src = preparation(builtin, normp) + '''
from popsynth.distributions.pareto_distribution import ParetoDistribution
lum = ParetoDistribution()
synth = popsynth.PopulationSynth(sp, luminosity_distribution=lum, seed=integer("seed"))
'''
    kws = [x for x in ("normalize=%s" % norm if norm else "", kw) if x]
    size = "integer('n_samples')" if kw else "np.random.poisson(integrate.quad(f, 0.0, sp.r_max)[0])"
    src += '''
pop = synth.draw_survey(%s)
np.random.seed(integer("seed"))
%s
n = %s
EQ(pop.n_objects, n, "number of objects")
EQ(len(pop.distances), n, "number of distances")
mark("distances", freeze(np.asarray(pop.distances.latent)))
''' % (", ".join(kws), REFERENCE % (norm or "False"), size)
    sc = ctx.scene("survey of %s" % name, src, progress=progress)
    if builtin is not None and builtin.name == "SpiralGalaxyDistribution":
        # the galaxy scatters the drawn distances along the arms; its draw_distance is checked on its own
        ctx.check_all(sc, "rate", labels=["number of objects"], only=lambda l: str(l) == "number of objects")
    else:
        ctx.check_all(sc, "rate", labels=["number of objects", "number of distances"])
        rejection(ctx, sc, marks(sc)["distances"])


def draw(ctx, name, norm, progress, builtin=None, normp=True):
    src = preparation(builtin, normp) + '''
n = integer("size")
sp.draw_distance(size=n%s)
got = sp.distances
%s
EQ(len(got), n, "number of distances")
mark("distances", freeze(got))
''' % (", normalize=%s" % norm if norm else "", REFERENCE % (norm or "False"))
    sc = ctx.scene("distances of %s" % name, src, progress=progress)
    ctx.check_all(sc, "rate", labels=["number of distances"])
    rejection(ctx, sc, marks(sc)["distances"])


def check(ctx):
    for progress in (False, True):
        t = " with progress bar" if progress else ""
        for norm in (None, "True", "flag('norm')"):
            for kw in ("", "n_samples=integer('n_samples')"):
                ctx.run(survey, ctx, "any spatial distribution, normalize=%s, %s%s" % (norm, kw or "drawn size", t), norm, progress, kw)
            ctx.run(draw, ctx, "any spatial distribution, normalize=%s%s" % (norm, t), norm, progress)
        ctx.run(survey, ctx, "a distribution without normalisation parameter" + t, "flag('norm')", progress, "", normp=False)
        ctx.run(draw, ctx, "a distribution without normalisation parameter" + t, "flag('norm')", progress, normp=False)
    for sp in K.kinds("spatial"):
        ctx.run(survey, ctx, sp.name, "flag('norm')", False, "", builtin=sp)
        ctx.run(draw, ctx, sp.name, "flag('norm')", True, builtin=sp)
