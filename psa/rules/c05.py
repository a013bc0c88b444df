"""C05: observed values, latent values and selection of a simulated variable stay paired."""
from . import topo as T

EXPLANATION = ("Element-wise value numbering of SimulatedVariable: for arbitrary observed, latent and selection arrays of arbitrary length, every "
               "indexing form, the selected / non_selected views, every arithmetic operator and a catalogue of numpy ufuncs (with scalar, array and "
               "simulated-variable operands on either side, with out=, in place, and with observed and latent sharing memory) must yield the same "
               "terms as the operation applied separately to the two plain arrays and the mask; other operands and the original must be unchanged; "
               "the constructor must leave by an exception when lengths differ.")

DATA = '''
from popsynth.simulated_variable import SimulatedVariable
n = integer("n")
m = integer("m")
ASSUME(n >= 1)
def O(): return array("obs", n)
def L(): return array("lat", n)
def K(): return boolarray("keep", n)
def var(): return SimulatedVariable(O(), L(), K())
def O2(): return array("obs2", n)
def L2(): return array("lat2", n)
def var2(): return SimulatedVariable(O2(), L2(), boolarray("keep2", n))
def paired(r, obs, lat, keep, what):
    EQ(np.asarray(r), obs, "observed after " + what)
    EQ(r.latent, lat, "latent after " + what)
    EQ(np.asarray(r.selected), obs[keep], "selected observed after " + what)
    EQ(r.selected.latent, lat[keep], "selected latent after " + what)
    EQ(np.asarray(r.non_selected), obs[~keep], "hidden observed after " + what)
    EQ(r.non_selected.latent, lat[~keep], "hidden latent after " + what)
def same(v, what):
    paired(v, O(), L(), K(), what + " (original)")
'''

BINARY = {"+": "a + b", "-": "a - b", "*": "a * b", "/": "a / b", "**": "a ** b", "//": "a // b", "%": "a % b", "<": "a < b", "<=": "a <= b", ">": "a > b",
          ">=": "a >= b", "==": "a == b", "!=": "a != b", "power": "np.power(a, b)", "maximum": "np.maximum(a, b)", "minimum": "np.minimum(a, b)",
          "add": "np.add(a, b)", "multiply": "np.multiply(a, b)", "arctan2": "np.arctan2(a, b)", "hypot": "np.hypot(a, b)"}
UNARY = {"neg": "-a", "abs": "abs(a)", "log10": "np.log10(a)", "log": "np.log(a)", "exp": "np.exp(a)", "sqrt": "np.sqrt(a)", "rad2deg": "np.rad2deg(a)",
         "cos": "np.cos(a)", "square": "np.square(a)", "absolute": "np.abs(a)", "isfinite": "np.isfinite(a)", "floor": "np.floor(a)",
         "mixed": "90 - np.rad2deg(a) * 2", "chain": "np.log10(a / 2) + 1"}
INPLACE = {"+=": "a += b", "-=": "a -= b", "*=": "a *= b", "/=": "a /= b", "**=": "a **= b", "out=": "np.add(a, b, out=a)", "log out=": "np.log(a, out=a)",
           "power out=": "np.power(a, b, out=a)", "swapped out=": "np.subtract(b, a, out=a)"}
INDEX = {"slice": "a[i:j]", "head": "a[:5]", "tail": "a[2:]", "all": "a[:]", "step": "a[::2]", "reverse": "a[::-1]", "positions": "a[intarray('pos', m)]",
         "mask": "a[boolarray('other', n)]", "ellipsis": "a[...]", "list": "a[[0, 2, 1]]"}


def binary(ctx):
    src = DATA
    ops = {"scalar": ("real('x')", "real('x')", "real('x')"), "array": ("array('arr', n)", "array('arr', n)", "array('arr', n)"),
           "variable": ("var2()", "O2()", "L2()"), "itself": ("v", "O()", "L()")}
    for on, (b, bo, bl) in ops.items():
        for fn, e in BINARY.items():
            src += "v = var()\nf = lambda a, b: %s\n" % e
            src += "r = f(v, %s)\npaired(r, f(O(), %s), f(L(), %s), K(), 'v %s %s')\n" % (b, bo, bl, fn, on)
            if on in ("scalar", "array"):
                src += "r = f(%s, v)\npaired(r, f(%s, O()), f(%s, L()), K(), '%s %s v')\n" % (b, bo, bl, on, fn)
        src += "same(v, 'operation with %s')\n" % on
    sc = ctx.scene("binary operations", src)
    ctx.check_all(sc, "arithmetic")


def unary(ctx):
    src = DATA
    for fn, e in UNARY.items():
        src += "v = var()\nf = lambda a: %s\nr = f(v)\npaired(r, f(O()), f(L()), K(), '%s')\nsame(v, '%s')\n" % (e, fn, fn)
    for fn in ("np.add.reduce", "np.sum", "np.maximum.reduce"):
        src += "EQ(%s(var()), %s(O()), 'reduction %s')\n" % (fn, fn, fn)
    sc = ctx.scene("unary operations", src)
    ctx.check_all(sc, "arithmetic")


TWO = {"modf": "np.modf(a)", "frexp": "np.frexp(a)", "divmod": "divmod(a, b)", "np.divmod": "np.divmod(a, b)", "modf out=": "np.modf(a, out=(b, np.zeros(n)))",
       "modf half out=": "np.modf(a, out=(None, np.zeros(n)))"}


def two(ctx):
    """operations with two results"""
    src = DATA
    for on, (b, bo, bl) in {"scalar": ("real('x')", "real('x')", "real('x')"), "array": ("array('arr', n)", "array('arr', n)", "array('arr', n)"),
                            "variable": ("var2()", "O2()", "L2()")}.items():
        for fn, e in TWO.items():
            if "out=(b" in e and on == "scalar":
                continue
            src += "v = var()\nf = lambda a, b: %s\nr = f(v, %s)\nx = f(O(), %s)\ny = f(L(), %s)\n" % (e, b, bo, bl)
            for i in (0, 1):
                if "out=" in e and (on != "variable" or i == 1) and not ("half" in e and i == 0):
                    src += "EQ(np.asarray(r[%d]), x[%d], 'result %d of %s with %s')\n" % (i, i, i, fn, on)
                else:
                    keep = "K()" if "out=(b" not in e else "boolarray('keep2', n)"
                    src += "paired(r[%d], x[%d], y[%d], %s, 'result %d of %s with %s')\n" % (i, i, i, keep, i, fn, on)
            src += "same(v, '%s with %s')\n" % (fn, on)
    sc = ctx.scene("operations with two results", src)
    ctx.check_all(sc, "arithmetic")


def inplace(ctx):
    src = DATA
    ops = {"scalar": ("real('x')", "real('x')", "real('x')"), "array": ("array('arr', n)", "array('arr', n)", "array('arr', n)"),
           "variable": ("var2()", "O2()", "L2()")}
    for on, (b, bo, bl) in ops.items():
        for fn, e in INPLACE.items():
            src += "def f(a, b):\n    %s\n    return a\n" % e
            src += "v = var()\nw = f(v, %s)\npaired(v, f(O(), %s), f(L(), %s), K(), 'in place %s %s')\nSAME(v, w, 'in place %s %s')\n" % (
                b, bo, bl, fn, on, fn, on)
            src += "x = O()\nv = SimulatedVariable(x, x, K())\nw = f(v, %s)\npaired(v, f(O(), %s), f(O(), %s), K(), 'in place %s %s with shared memory')\n" % (
                b, bo, bl, fn, on)
    src += "v = var()\nw = var2()\nv += w\npaired(w, O2(), L2(), boolarray('keep2', n), 'in place (operand)')\n"
    src += ("v = var()\nw = var2()\nnp.add(v, 1, out=w)\nEQ(np.asarray(w), O() + 1, 'observed of the output')\nEQ(w.latent, L() + 1, 'latent of the output')\n"
            "same(v, 'output elsewhere')\n")
    sc = ctx.scene("in-place operations", src)
    ctx.check_all(sc, "in-place")


def indexing(ctx):
    src = DATA + "i = integer('i')\nj = integer('j')\nASSUME(i >= 0)\nASSUME(j >= i)\nASSUME(j <= n)\nASSUME(n >= 3)\n"
    for fn, e in INDEX.items():
        src += "v = var()\nf = lambda a: %s\nr = f(v)\npaired(r, f(O()), f(L()), f(K()), 'index %s')\nsame(v, 'index %s')\n" % (e, fn, fn)
        src += "r2 = f(v) * 2 + 1\npaired(r2, f(O()) * 2 + 1, f(L()) * 2 + 1, f(K()), 'arithmetic after index %s')\n" % fn
    src += "EQ(var()[i], O()[i], 'single element')\n"
    src += '''
v = var()
s = v.selected
h = v.non_selected
k = K()
paired(s, O()[k], L()[k], np.ones(sum(k), dtype=bool), "selected")
paired(h, O()[~k], L()[~k], np.zeros(sum(~k), dtype=bool), "non_selected")
EQ(np.asarray(s.selected), O()[k], "selected twice")
EQ(s.selected.latent, L()[k], "latent selected twice")
EQ(len(s.non_selected), 0, "nothing hidden among the selected")
EQ(len(h.selected), 0, "nothing selected among the hidden")
EQ(np.asarray(h.non_selected), O()[~k], "hidden twice")
same(v, "taking the selected")
w = var() * 3
EQ(np.asarray(w.selected), (O() * 3)[k], "selected after arithmetic")
t = v.selected * 2
EQ(np.asarray(t), O()[k] * 2, "observed: arithmetic after selected")
EQ(t.latent, L()[k] * 2, "latent: arithmetic after selected")
same(v, "arithmetic after selected")
EQ(v.latent, L(), "latent")
EQ(len(v), n, "length")
EQ(np.asarray(v), O(), "observed")
'''
    sc = ctx.scene("indexing", src)
    ctx.check_all(sc, "indexing")


def construction(ctx):
    src = DATA + '''
ASSUME(m != n)
ok, v = attempt(SimulatedVariable, O(), L(), boolarray("short", m))
EQ(ok, False, "a selection of another length is refused")
ok, v = attempt(SimulatedVariable, O(), array("short", m), K())
EQ(ok, False, "latent values of another length are refused")
ok, v = attempt(SimulatedVariable, array("short", m), L(), K())
EQ(ok, False, "observed values of another length are refused")
ok, v = attempt(SimulatedVariable, array("short", m), L(), boolarray("short", m))
EQ(ok, False, "latent values longer or shorter than the rest are refused")
ok, v = attempt(SimulatedVariable, O(), L(), K())
EQ(ok, True, "matching lengths are accepted")
a = O()
b = L()
k = K()
v = SimulatedVariable(a, b, k)
EQ((a, b, k), (O(), L(), K()), "construction leaves its arguments alone")
'''
    sc = ctx.scene("construction", src)
    ctx.check_all(sc, "construction")


def population(ctx):
    """the variables a population publishes pair what the survey produced"""
    src = T.setup(True) + "pop = synth.draw_survey(flux_sigma=real('fs'))\nk = pop.selection\n"
    for q in ("luminosities", "distances", "fluxes", "theta", "phi") + T.samplers(True, True):
        src += "v = pop.%s\n" % q
        src += "EQ(np.asarray(v.selected), np.asarray(v)[k], 'selected %s')\n" % q
        src += "EQ(v.selected.latent, v.latent[k], 'selected latent %s')\n" % q
        src += "EQ(np.asarray(v.non_selected), np.asarray(v)[~k], 'hidden %s')\n" % q
        src += "EQ(v.non_selected.latent, v.latent[~k], 'hidden latent %s')\n" % q
    for t in T.samplers(True, True):
        src += "EQ(pop.%s.latent, S_['%s'].true_values, 'true values of %s')\n" % (t, t, t)
        src += "EQ(np.asarray(pop.%s), S_['%s'].obs_values, 'observed values of %s')\n" % (t, t, t)
    src += ("EQ(pop.fluxes_latent, pop.fluxes.latent, 'fluxes_latent')\nEQ(pop.luminosities_latent, pop.luminosities.latent, 'luminosities_latent')\n"
            "EQ(np.asarray(pop.fluxes_observed), np.asarray(pop.fluxes), 'fluxes_observed')\n"
            "EQ(np.asarray(pop.selected_fluxes_observed), np.asarray(pop.fluxes)[k], 'selected_fluxes_observed')\n"
            "EQ(np.asarray(pop.selected_fluxes_latent), pop.fluxes.latent[k], 'selected_fluxes_latent')\n"
            "EQ(np.asarray(pop.hidden_fluxes_observed), np.asarray(pop.fluxes)[~k], 'hidden_fluxes_observed')\n"
            "EQ(np.asarray(pop.hidden_fluxes_latent), pop.fluxes.latent[~k], 'hidden_fluxes_latent')\n"
            "EQ(np.asarray(pop.selected_distances), np.asarray(pop.distances)[k], 'selected_distances')\n"
            "EQ(np.asarray(pop.hidden_distances), np.asarray(pop.distances)[~k], 'hidden_distances')\n")
    sc = ctx.scene("population variables", src)
    ctx.check_all(sc, "published")


def check(ctx):
    ctx.run(binary, ctx)
    ctx.run(unary, ctx)
    ctx.run(two, ctx)
    ctx.run(inplace, ctx)
    ctx.run(indexing, ctx)
    ctx.run(construction, ctx)
    ctx.run(population, ctx)
