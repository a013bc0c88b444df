"""C33: plots and accessors show the quantity, and the objects, that they name."""
from ..terms import *
from .base import PRELUDE

EXPLANATION = ("A population is built from arbitrary arrays, an arbitrary selection and arbitrary known distances. Every accessor (deprecated ones included) must have the "
               "value number of the quantity its name announces; every call of a plotting library made by a display routine is recorded with the value "
               "numbers of its arguments at the call, and the arguments must be the announced quantity of the announced objects, both coordinates "
               "for the same objects, with no further data drawn.")
ASSUMPTIONS = ("matplotlib and ipyvolume draw the arrays they are given",)

SETUP = '''
from popsynth.population import Population
N = integer("N")
M = boolarray("m", N)
K = np.sum(M)
L, D, F, O, TH, PH, PR = (array(x, N) for x in ("L", "D", "F", "O", "TH", "PH", "PR"))
KD = array("KD", K)
UNK = np.array([])
TRUTH = {"x": {"a": real("truth")}}
LF = {"alpha": real("alpha")}
SPP = {"Lambda": real("Lambda")}
RM = real("rmax")
pop = Population(luminosities=L, distances=D, known_distances=KD, known_distance_idx=intarray("KI", K), unknown_distance_idx=UNK, fluxes=F, flux_obs=O,
                 selection=M, flux_sigma=real("fs"), r_max=RM, n_model=500, lf_params=LF, spatial_params=SPP, theta=TH, phi=PH, model_spaces={},
                 seed=integer("seed"), truth=TRUTH, probability=PR, name="pop", lf_form="a", spatial_form="b", pop_synth={"s": real("s")})
'''

ACCESS = (("luminosities", "L"), ("luminosities.latent", "L"), ("luminosities_latent", "L"), ("luminosities.selected", "L[M]"), ("luminosities.non_selected", "L[~M]"),
          ("distances", "D"), ("distances.latent", "D"), ("distances.selected", "D[M]"), ("distances.non_selected", "D[~M]"), ("theta", "TH"), ("phi", "PH"),
          ("theta.selected", "TH[M]"), ("phi.selected", "PH[M]"), ("ra", "np.rad2deg(PH)"), ("dec", "90 - np.rad2deg(TH)"), ("known_distances", "KD"), ("selection", "M"),
          ("fluxes", "O"), ("fluxes.latent", "F"), ("fluxes.selected", "O[M]"), ("fluxes.selected.latent", "F[M]"), ("fluxes.non_selected", "O[~M]"),
          ("fluxes.non_selected.latent", "F[~M]"), ("fluxes_latent", "F"), ("fluxes_observed", "O"), ("selected_fluxes_observed", "O[M]"),
          ("selected_fluxes_latent", "F[M]"), ("selected_distances", "D[M]"), ("hidden_fluxes_observed", "O[~M]"), ("hidden_fluxes_latent", "F[~M]"),
          ("hidden_distances", "D[~M]"), ("probability", "PR"), ("probability.selected", "PR[M]"))
PLAIN = (("flux_sigma", "real('fs')"), ("n_objects", "N"), ("n_detections", "np.sum(M)"), ("n_non_detections", "N - np.sum(M)"), ("has_detections", "np.sum(M) != 0"),
         ("luminosity_parameters['alpha']", "real('alpha')"), ("spatial_parameters['Lambda']", "real('Lambda')"), ("truth['x']['a']", "real('truth')"),
         ("pop_synth['s']", "real('s')"))


def accessors(ctx):
    src = SETUP
    labels = []
    for a, e in ACCESS:
        labels.append("population.%s" % a)
        src += "EQ(np.asarray(pop.%s), %s, %r)\n" % (a, e, labels[-1])
    for a, e in PLAIN:
        labels.append("population.%s" % a)
        src += "EQ(pop.%s, %s, %r)\n" % (a, e, labels[-1])
    sc = ctx.scene("accessors", src, prelude="import popsynth\nimport numpy as np\n", must_complete=False)
    ctx.check_all(sc, "accessor", labels=labels)


def base(t):
    """observed values of a recorded argument"""
    if t.op == "frozenval":
        return base(t.args[0])
    if t.op == "fobj":
        for x in t.args[1:]:
            if isinstance(x, Term) and x.op == "item" and is_const(x.args[0]) and cval(x.args[0]) == "$base":
                return x.args[1]
            if isinstance(x, Term) and x.op == "item" and x.args[0] == "$base":
                return x.args[1]
    return t


class Calls:
    def __init__(self, ctx, name, body):
        self.ctx, self.name = ctx, name
        src = SETUP + "".join("mark(%r, freeze(%s))\n" % (k, e) for k, e in QUANTITIES.items()) + "mark('detected', np.sum(M) != 0)\n" + body + "mark('end', 1)\n"
        self.sc = ctx.scene(name, src, prelude="import popsynth\nimport numpy as np\n", must_complete=False, opts={"record_plots": True})
        m = self.sc.I.marks
        ctx.expect("end" in m and self.sc.sat(m["end"][0]), "completes", name, None, "the display routine never completes")
        self.q = {k: base(m[k][1][0]) for k in QUANTITIES}
        self.detected = atom_of(m["detected"][1][0]) if m["detected"][1][0].op != "ite" else m["detected"][1][0]

    def calls(self, *names):
        """(event, positional values by name) of the recorded plotting calls"""
        out = []
        for e in self.sc.I.events:
            if e.kind == "plot" and str(cval(e.data[0])).split(".")[-1] in names:
                out.append((e, [base(a) for a in e.data[1].args], {k.args[0]: base(k.args[1]) for k in e.data[2].args}))
        return out

    def same(self, t, want, guard):
        if t.op in ("const", "frozen"):
            return False
        try:
            v = self.sc.equal(t, want, guard)
        except Exception:
            return False
        return v.equal and v.active > 0

    def coords(self, e, pos, kw, names):
        out = []
        for i, n in enumerate(names):
            v = pos[i] if i < len(pos) else kw.get(n)
            out.append(v)
        return out

    def drawn(self, what, names, arg_names, wanted, always=True):
        """the data drawn by the calls `names` are exactly the tuples of `wanted` {label: (quantities)}"""
        found = {k: [] for k in wanted}
        for e, pos, kw in self.calls(*names):
            vals = self.coords(e, pos, kw, arg_names)
            hit = None
            for k, qs in wanted.items():
                if all(v is not None and self.same(v, self.q[x] if isinstance(x, str) else x, e.guard) for v, x in zip(vals, qs)):
                    hit = k
            if hit is None:
                self.ctx.violation("drawn", "%s:%s" % (self.name, e.loc[2] if e.loc else "?"), e.loc,
                                   "%s draws %s, which is none of %s" % (self.name, ", ".join(show(v, 6)[:150] if v is not None else "nothing" for v in vals),
                                                                         "; ".join("%s (%s)" % (k, ", ".join(map(str, q))) for k, q in wanted.items())))
            else:
                found[hit].append(e)
        for k in wanted:
            g = FALSE
            for e in found[k]:
                g = b_or(g, e.guard)
            need = self.detected if always is not True else self.sc.I.marks["end"][0]
            need = b_and(need, self.sc.I.marks["end"][0])
            ok = bool(found[k]) and not self.sc.sat(b_and(need, b_not(g)))
            self.ctx.expect(ok, "shown", "%s:%s" % (self.name, k), None, "%s does not draw %s" % (self.name, k))


QUANTITIES = {"distances": "D", "true fluxes": "F", "observed fluxes": "O", "detected distances": "D[M]", "detected observed fluxes": "O[M]", "detected true fluxes": "F[M]",
              "hidden distances": "D[~M]", "hidden observed fluxes": "O[~M]", "luminosities": "L", "detected luminosities": "L[M]", "hidden luminosities": "L[~M]",
              "detected theta": "TH[M]", "detected phi": "PH[M]", "hidden theta": "TH[~M]", "hidden phi": "PH[~M]", "rmax": "RM"}

DIAGRAMS = (
    ("display_true_fluxes", {"all true fluxes": ("distances", "true fluxes")}, True),
    ("display_obs_fluxes", {"the detected observed fluxes": ("detected distances", "detected observed fluxes")}, "detected"),
    ("display_luminosities", {"the detected luminosities": ("detected distances", "detected luminosities"),
                              "the hidden luminosities": ("hidden distances", "hidden luminosities")}, True),
)
BOTH = {"all true fluxes": ("distances", "true fluxes"), "the detected observed fluxes": ("detected distances", "detected observed fluxes")}


def diagrams(ctx, ax):
    arg = "ax=opaque('ax')" if ax else ""
    for m, wanted, when in DIAGRAMS:
        c = Calls(ctx, m + (" on given axes" if ax else ""), "pop.%s(%s)\n" % (m, arg))
        c.drawn("points", ("scatter", "plot", "errorbar", "loglog", "semilogy"), ("x", "y"), wanted, when)
    for w in ("True", "False"):
        c = Calls(ctx, "display_fluxes %s arrows%s" % ("with" if w == "True" else "without", " on given axes" if ax else ""),
                  "pop.display_fluxes(%swith_arrows=%s)\n" % (arg + ", " if arg else "", w))
        c.drawn("points", ("scatter", "plot", "errorbar", "loglog", "semilogy"), ("x", "y"), BOTH, "detected")
        arrows(ctx, c, w == "True")
    c = Calls(ctx, "display_distances" + (" on given axes" if ax else ""), "pop.display_distances(%s)\n" % arg)
    c.drawn("histogram", ("hist",), ("x",), {"all distances": ("distances",), "the detected distances": ("detected distances",)}, True)


def element(t):
    """(array, index) of an element read"""
    return (t.args[0], t.args[1:]) if t.op in ("index", "getitem", "elem", "at") else (None, None)


def arrows(ctx, c, wanted):
    evs = c.calls("arrow")
    if not wanted:
        ctx.expect(not any(c.sc.sat(e.guard) for e, _, _ in evs), "arrows", c.name, evs[0][0].loc if evs else None, "%s draws arrows" % c.name)
        return
    ctx.expect(bool(evs), "arrows", c.name, None, "%s draws no arrow" % c.name)
    for e, pos, kw in evs:
        x, y, dx, dy = c.coords(e, pos, kw, ("x", "y", "dx", "dy"))
        arr, i = element(x)
        ok = arr is not None and c.same(arr, c.q["detected distances"], e.guard)
        ctx.expect(ok, "arrow-position", c.name, e.loc, "the arrow is placed at %s, not at the distance of a detected object" % show(x, 6)[:200])
        if not ok:
            continue
        at = lambda q: raw(x.op, c.q[q], *i)
        ctx.expect(c.same(y, at("detected true fluxes"), e.guard), "arrow-start", c.name, e.loc, "the arrow starts at %s, not at the true flux of the object" % show(y, 6)[:200])
        ctx.expect(c.same(mk_add(y, dy), at("detected observed fluxes"), e.guard), "arrow-end", c.name, e.loc,
                   "the arrow ends at %s, not at the observed flux of the object" % show(mk_add(y, dy), 6)[:200])
        v = c.sc.equal(dx, const(0), e.guard)
        ctx.expect(v.equal, "arrow-upright", c.name, e.loc, "the arrow moves along the distance by %s" % show(dx, 5))


def spheres(ctx):
    for m, kinds in (("display_obs_fluxes_sphere", ("detected",)), ("display_hidden_fluxes_sphere", ("hidden",)), ("display_flux_sphere", ("detected", "hidden"))):
        for tr in (False, True):
            body = "from popsynth.utils.spherical_geometry import xyz\n"
            tf = "(lambda d: ufn('scale', d))" if tr else ""
            for k, s in (("detected", "M"), ("hidden", "~M")):
                body += "mark('%s xyz', freeze(xyz(%s, TH[%s], PH[%s])))\n" % (k, "ufn('scale', D[%s])" % s if tr else "D[%s]" % s, s, s)
            body += "pop.%s(%s)\n" % (m, "distance_transform=%s" % tf if tr else "")
            c = Calls(ctx, m + (" with a distance transform" if tr else ""), body)
            marks = c.sc.I.marks
            wanted = {}
            for k in kinds:
                p = marks["%s xyz" % k][1][0]
                p = p.args[0] if p.op == "frozenval" else p
                wanted["the positions of the %s objects" % k] = tuple(base(x) for x in p.args)
            positions(ctx, c, wanted, kinds)


def positions(ctx, c, wanted, kinds):
    seen = {}
    for e, pos, kw in c.calls("scatter"):
        vals = c.coords(e, pos, kw, ("x", "y", "z"))
        hit = [k for k, qs in wanted.items() if all(v is not None and c.same(v, x, e.guard) for v, x in zip(vals, qs))]
        ctx.expect(bool(hit), "drawn", "%s:%s" % (c.name, e.loc[2]), e.loc, "%s draws objects at %s, which are not the positions of %s objects" %
                   (c.name, ", ".join(show(v, 6)[:150] if v is not None else "nothing" for v in vals), " or ".join(kinds)))
        for k in hit:
            seen[k] = b_or(seen.get(k, FALSE), e.guard)
            flux = c.q[("detected" if "detected" in k else "hidden") + " observed fluxes"]
            col = kw.get("color")
            if col is not None:
                other = c.q[("hidden" if "detected" in k else "detected") + " observed fluxes"]
                sub = set(subterms(col))
                ctx.expect(flux in sub and other not in sub, "colour", "%s:%s" % (c.name, k), e.loc, "the colours of %s are not made from their observed fluxes" % k)
    for k in wanted:
        n = c.sc.I.marks["detected"][1][0]
        ctx.expect(k in seen and c.sc.sat(seen[k]), "shown", "%s:%s" % (c.name, k), None, "%s does not draw %s" % (c.name, k))


def check(ctx):
    ctx.run(accessors, ctx)
    ctx.run(diagrams, ctx, False)
    ctx.run(diagrams, ctx, True)
    ctx.run(spheres, ctx)
