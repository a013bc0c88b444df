"""C23: only the requested files are touched and input files cannot run code."""
import ast
import os

from ..terms import *
from . import topo as T
from . import catalog as K
from .base import REPO
from .c22 import modules

EXPLANATION = ("File-effect analysis on two levels.  (1) Every reading and writing entry point is interpreted abstractly with an arbitrary path and a modelled "
               "file system; each file-opening effect must name exactly the caller's path, in a mode that cannot truncate when appending and cannot write "
               "when reading, YAML must be loaded by a safe loader, other files and other groups of the same file must keep their content, and with faults "
               "injected at every operation on an open file each handle must be closed at every exit, normal or exceptional. Importing, drawing, exporting "
               "and describing have no file effect except on the package's own configuration and log folders.  (2) Every call in every function of the "
               "package is resolved through the import tables: dynamic code (eval, exec, import by name, pickle, unsafe YAML, allow_pickle) with non-literal "
               "operands, process and deletion primitives, and file writers whose path does not come from a parameter are violations.")
ASSUMPTIONS = ("h5py, yaml and open() act on the given path only", "popsynth/_version.py (generated by versioneer) is not analysed")

OWN = ("~/.config/popsynth", "~/.log/popsynth")


def path_text(p):
    """leading literal text of a path term"""
    if p.op == "path":
        out = ""
        for a in p.args:
            if not is_const(a):
                break
            t = str(cval(a))
            out = out.rstrip("/") + "/" + t if out else t
        return out
    if is_const(p):
        return str(cval(p))
    if p.op == "app" and p.args[0] == "concat" and is_const(p.args[1]):
        return str(cval(p.args[1]))
    return ""


def own(p):
    t = path_text(p)
    return any(t.startswith(o) for o in OWN)


def strip(p):
    while p.op == "path" and len(p.args) == 1:
        p = p.args[0]
    return p


def mode_of(t):
    return cval(t) if is_const(t) else None


def file_effects(sc):
    out = []
    for e in sc.I.events:
        if e.kind == "open":
            out.append((e, cval(e.data[0]), e.data[1], mode_of(e.data[2])))
        elif e.kind == "fs-mutate":
            out.append((e, cval(e.data[1]), e.data[0], "w"))
        elif e.kind == "mkdir":
            out.append((e, "mkdir", e.data[0], "mkdir"))
        elif e.kind == "cfg-save":
            out.append((e, "OmegaConf.save", e.data[1], "w"))
        elif e.kind == "handler" and "File" in str(cval(e.data[1])):
            out.append((e, cval(e.data[1]), e.data[2] if len(e.data) > 2 else NONE, "a"))
    return out


def base_path(sc, p):
    """OmegaConf.save(f=handle.name) writes to the path of the handle"""
    if p.op == "app" and p.args[0] == "name" or p.op == "extm":
        p = p.args[-2] if p.op == "extm" else p.args[1]
    if p.op == "obj":
        q = sc.I.h.get((p.args[0], "path"))
        return q if q is not None else p
    return p


def effects(ctx, sc, what, allowed, modes, readonly=False):
    """every file effect of the scene concerns an allowed path, in an allowed mode"""
    for e, op, p, mode in file_effects(sc):
        p = base_path(sc, p)
        if own(p):
            ctx.discharge("path", "%s:%s own folder" % (what, op))
            continue
        ok = any(strip(p) is strip(a) for a in allowed)
        ctx.expect(ok, "path", "%s:%s" % (what, e.loc[2] if e.loc else "?"), e.loc, "%s makes %s act on %s, which is not the path it was given" % (what, op, show(p, 5)))
        if ok:
            ctx.expect(mode in modes, "mode", "%s:%s" % (what, e.loc[2] if e.loc else "?"), e.loc,
                       "%s opens the file it was given with mode %r (allowed: %s)" % (what, mode, ", ".join(modes)))
    for e in sc.events("yaml-load"):
        fn, loader = cval(e.data[0]), e.data[1]
        ln = str(loader.args[0]) if loader.op in ("ext", "cls") and loader.args else show(loader, 3)
        safe = fn == "yaml.safe_load" or fn == "yaml.load" and ln.split(".")[-1] in ("SafeLoader", "CSafeLoader", "BaseLoader", "CBaseLoader")
        ctx.expect(safe, "loader", what, e.loc, "%s reads YAML with %s(%s), which can construct arbitrary objects" % (what, fn, ln))
    for e in sc.events("yaml-dump"):
        ctx.discharge("loader", what + " dump")


def closed(ctx, sc, what):
    """each file handle is closed at every exit of the scene"""
    exits = [(e.pc, e.h, "an exception (%s)" % show(e.val, 3)) for e in sc.I.frame.exits if e.kind == "raise"]
    if sc.I.pc is not FALSE:
        exits.append((sc.I.pc, sc.I.h, "the normal return"))
    bad = {}
    n = 0
    for pc, h, how in exits:
        for ev in sc.events("opened"):
            c = h.get((ev.data[0].args[0], "closed"))
            if c is None:
                continue
            n += 1
            g = b_and(pc, ev.guard)
            if c is TRUE or g is FALSE or c is not FALSE and sc.holds(c, g).equal:
                continue
            bad.setdefault(ev.loc, how)
    for loc, how in bad.items():
        ctx.violation("closed", "%s:%s" % (what, loc[2] if loc else "?"), loc, "%s leaves the file open at %s" % (what, how))
    if not bad and n:
        ctx.discharge("closed", what, "%d exits x handles" % n)


SURVEY = "path = text('path')\nother = text('other')\npop = synth.draw_survey(flux_sigma=real('fs'))\n"

ENTRIES = {
    "Population.writeto": ("", "pop.writeto(path)", ("w", "w-", "x")),
    "Population.addto": ("pop.writeto(path)", "pop.addto(path, 'grp')", ("r+", "a")),
    "Population.from_file": ("pop.writeto(path)", "popsynth.Population.from_file(path)", ("r",)),
    "Population.from_group": ("pop.writeto(path)\npop.addto(path, 'grp')", "popsynth.Population.from_group(path, 'grp')", ("r",)),
    "PopulationSynth.write_to": ("", "synth.write_to(path)", ("w", "x", "wt")),
    "PopulationSynth.from_file": ("synth.write_to(path)", "popsynth.PopulationSynth.from_file(path)", ("r", "rt", "rb")),
}


class Cut:
    """only the events after a mark are those of the entry point"""

    def __init__(self, sc, name):
        order = [e.order for e in sc.I.events if e.kind == "mark" and e.data and is_const(e.data[0]) and cval(e.data[0]) == name]
        self.I, self.after, self.sc = sc.I, (order[0] if order else 0), sc

    def events(self, *kinds):
        return [e for e in self.I.events if e.kind in kinds and e.order > self.after]

    def holds(self, *a):
        return self.sc.holds(*a)


def entry(ctx, name, derived, aux):
    before, call, modes = ENTRIES[name]
    src = T.setup(derived, aux, True, True, True) + SURVEY + before + "\nmark('start', path)\n" + call + "\n"
    sc = ctx.scene(name, src)
    m = sc.I.marks["start"]
    ev0 = next(e for e in sc.I.events if e.kind == "mark" and cval(e.data[0]) == "start")
    sc.I.events = [e for e in sc.I.events if e.order > ev0.order]
    effects(ctx, sc, name, [m[1][0]], modes)
    seen = [e for e, op, p, mode in file_effects(sc) if strip(base_path(sc, p)) is strip(m[1][0])]
    ctx.expect(bool(seen), "path", name + " acts", None, "%s never opens the path it is given" % name)


def entry_faults(ctx, name, derived, aux):
    before, call, modes = ENTRIES[name]
    src = T.setup(derived, aux, True, True, True) + SURVEY + before + "\nmark('start', path)\n" + call + "\n"
    sc = ctx.scene(name + " with failing operations", src, opts={"faults": {}}, must_complete=False)
    closed(ctx, sc, name)


CONTENT = '''
pop.writeto(other)
pop2 = synth.draw_survey(flux_sigma=real("fs2"))
pop2.writeto(path)
pop.addto(path, "one")
def look(p):
    return (np.asarray(p.distances), np.asarray(p.fluxes), p.fluxes.latent, p.truth, list(p.pop_synth.keys()))
root = freeze(look(popsynth.Population.from_file(path)))
one = freeze(look(popsynth.Population.from_group(path, "one")))
oth = freeze(look(popsynth.Population.from_file(other)))
def unchanged(what):
    EQ(root, freeze(look(popsynth.Population.from_file(path))), "file after " + what)
    EQ(one, freeze(look(popsynth.Population.from_group(path, "one"))), "group after " + what)
    EQ(oth, freeze(look(popsynth.Population.from_file(other))), "other file after " + what)
unchanged("reading")
pop2.addto(path, "two")
unchanged("appending another group")
ok, v = attempt(lambda: pop2.addto(path, "one"))
unchanged("appending under a taken name")
HOLDS(not ok, "a taken group name is refused")
synth.write_to("synth.yml")
s1 = popsynth.PopulationSynth.from_file("synth.yml")
d1 = freeze(s1.to_dict())
s2 = popsynth.PopulationSynth.from_file("synth.yml")
EQ(d1, freeze(s2.to_dict()), "synth file after reading")
unchanged("writing and reading a synth")
pop.to_stan_data()
pop.to_sub_population()
unchanged("exports")
'''


def content(ctx, derived, aux):
    src = T.setup(derived, aux, True, True, True) + SURVEY + "ASSUME(path != other)\n" + CONTENT
    sc = ctx.scene("contents of files%s" % (" with derived luminosity" if derived else ""), src)
    ctx.check_all(sc, "content")


def quiet(ctx):
    """importing, drawing, describing and exporting have no file effects of their own"""
    src = T.setup(True, True, True, True, True) + '''
pop = synth.draw_survey(flux_sigma=real('fs'))
pop.to_stan_data()
pop.to_sub_population()
synth.to_dict()
back = popsynth.PopulationSynth.from_dict(synth.to_dict())
synth.display()
synth.graph
synth.clean(reset=True)
popsynth.silence_logs()
popsynth.activate_logs()
popsynth.quiet_mode()
popsynth.loud_mode()
popsynth.update_logging_level("INFO")
'''
    sc = ctx.scene("import, draw, export", src, exists=None, must_complete=False)
    effects(ctx, sc, "import, draw, export", [], ())


# ------------------------------------------------------------------- whole-program audit of calls
DYNAMIC = {"eval", "exec", "compile", "__import__", "execfile", "importlib.import_module", "importlib.__import__", "runpy.run_path", "runpy.run_module",
           "pydoc.locate", "pkgutil.resolve_name", "imp.load_source", "code.interact", "ast.parse", "builtins.eval", "builtins.exec", "builtins.__import__",
           "numexpr.evaluate", "sympy.sympify", "pandas.eval", "types.FunctionType", "types.CodeType"}
DYNAMIC -= {"ast.parse"}
UNPICKLE = {"pickle.load", "pickle.loads", "pickle.Unpickler", "cPickle.load", "cPickle.loads", "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads",
            "joblib.load", "marshal.load", "marshal.loads", "shelve.open", "pandas.read_pickle", "torch.load", "yaml.unsafe_load", "yaml.unsafe_load_all",
            "yaml.full_load", "yaml.full_load_all", "jsonpickle.decode"}
PROCESS = {"os.system", "os.popen", "os.execv", "os.execve", "os.execvp", "os.spawnl", "os.spawnv", "subprocess.run", "subprocess.call", "subprocess.Popen",
           "subprocess.check_call", "subprocess.check_output", "subprocess.getoutput", "ctypes.CDLL", "urllib.request.urlopen", "urllib.request.urlretrieve",
           "requests.get", "requests.post", "socket.socket"}
DELETE = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "os.rename", "os.renames", "os.replace", "os.truncate", "os.chmod", "os.symlink", "os.link",
          "shutil.rmtree", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.copytree"}
WRITERS = {"open": 0, "io.open": 0, "codecs.open": 0, "gzip.open": 0, "h5py.File": 0, "numpy.save": 0, "numpy.savez": 0, "numpy.savez_compressed": 0,
           "numpy.savetxt": 0, "os.makedirs": 0, "os.mkdir": 0, "os.open": 0, "omegaconf.OmegaConf.save": 1, "matplotlib.pyplot.savefig": 0,
           "networkx.write_gpickle": 1, "networkx.write_graphml": 1, "networkx.write_gml": 1, "logging.FileHandler": 0, "logging.handlers.TimedRotatingFileHandler": 0,
           "logging.handlers.RotatingFileHandler": 0, "yaml.dump": None, "json.dump": None, "pickle.dump": 1}
METHODS = {"savefig": 0, "to_csv": 0, "to_pickle": 0, "to_hdf": 0, "to_json": 0, "tofile": 0, "write_text": None, "write_bytes": None, "unlink": None, "rmdir": None,
           "touch": None, "symlink_to": None, "hardlink_to": None}
UNSAFE_LOADERS = ("Loader", "FullLoader", "UnsafeLoader", "CLoader", "CFullLoader", "CUnsafeLoader")
OWNMODULES = ("popsynth.utils.configuration", "popsynth.utils.package_data", "popsynth.utils.logging")


class Audit(ast.NodeVisitor):
    def __init__(self, modname, rel, tree):
        self.mod, self.rel = modname, rel
        self.alias = {}
        self.funcs = []
        self.calls = []
        pkg = modname.split(".")
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.alias[a.asname] = a.name
                    else:
                        self.alias[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                m = n.module or ""
                if n.level:
                    m = ".".join(pkg[:len(pkg) - n.level] + ([m] if m else []))
                for a in n.names:
                    self.alias[a.asname or a.name] = m + "." + a.name
        self.visit(tree)

    def name(self, f):
        if isinstance(f, ast.Name):
            return self.alias.get(f.id, f.id)
        if isinstance(f, ast.Attribute):
            b = self.name(f.value)
            return None if b is None else b + "." + f.attr
        return None

    def visit_FunctionDef(self, n):
        self.funcs.append(n)
        self.generic_visit(n)
        self.funcs.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.funcs.append(n)
        self.generic_visit(n)
        self.funcs.pop()

    def visit_Call(self, n):
        self.calls.append((n, self.name(n.func), list(self.funcs)))
        self.generic_visit(n)


def literal(n):
    return isinstance(n, ast.Constant) or isinstance(n, (ast.Tuple, ast.List)) and all(literal(x) for x in n.elts)


def from_caller(expr, funcs, tree_alias):
    """does the expression depend on a parameter of an enclosing function (through local assignments)"""
    names = {x.id for x in ast.walk(expr) if isinstance(x, ast.Name)}
    for f in reversed(funcs):
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        flows = set(params) - {"self", "cls"}
        if not isinstance(f, ast.Lambda):
            for _ in range(4):
                for n in ast.walk(f):
                    pairs = []
                    if isinstance(n, ast.Assign):
                        pairs = [(t, n.value) for t in n.targets]
                    elif isinstance(n, ast.AnnAssign) and n.value is not None:
                        pairs = [(n.target, n.value)]
                    elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                        pairs = [(n.optional_vars, n.context_expr)]
                    elif isinstance(n, (ast.For, ast.comprehension)):
                        pairs = [(n.target, n.iter)]
                    for t, v in pairs:
                        if any(isinstance(x, ast.Name) and x.id in flows for x in ast.walk(v)):
                            flows |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        if names & flows:
            return True
    return False


def arg(n, pos, names):
    for k in n.keywords:
        if k.arg in names:
            return k.value
    if pos is not None and pos < len(n.args):
        return n.args[pos]
    return None


def audit(ctx):
    total = 0
    for m in modules():
        p = os.path.join(REPO, m.replace(".", os.sep))
        p = os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"
        rel = os.path.relpath(p, REPO)
        try:
            tree = ast.parse(open(p).read())
        except SyntaxError as e:
            ctx.undecided("calls", rel, str(e))
            continue
        A = Audit(m, rel, tree)
        for n, name, funcs in A.calls:
            total += 1
            fn = ".".join(x.name if hasattr(x, "name") else "<lambda>" for x in funcs) or "<module>"
            loc = (rel, n.lineno, m + "." + fn)
            subj = "%s.%s:%s" % (m, fn, name or "?")
            if name in DYNAMIC:
                a = n.args[0] if n.args else None
                if a is None or not literal(a):
                    ctx.violation("dynamic-code", subj, loc, "%s is called with a value that is not a literal" % name)
            elif name in UNPICKLE:
                ctx.violation("unpickle", subj, loc, "%s can construct arbitrary objects from the data it reads" % name)
            elif name in PROCESS or name in DELETE:
                ctx.violation("process" if name in PROCESS else "delete", subj, loc, "%s acts outside the requested files" % name)
            elif name in ("numpy.load", "np.load"):
                v = arg(n, None, ("allow_pickle",))
                if v is not None and not (isinstance(v, ast.Constant) and v.value is False):
                    ctx.violation("unpickle", subj, loc, "numpy.load with allow_pickle can construct arbitrary objects")
            elif name in ("yaml.load", "yaml.load_all"):
                v = arg(n, 1, ("Loader",))
                ln = (A.name(v) or "?").split(".")[-1] if v is not None else None
                if ln is None or ln in UNSAFE_LOADERS:
                    ctx.violation("loader", subj, loc, "YAML is read with %s, which can construct arbitrary objects" % (ln or "the default loader"))
            elif name == "getattr" and len(n.args) > 1 and not literal(n.args[1]):
                r = A.name(n.args[0])
                top = r.split(".")[0] if r else None
                if r and isinstance(n.args[0], ast.Name) and n.args[0].id in A.alias and (top in ("os", "builtins", "sys", "subprocess", "importlib")):
                    ctx.violation("dynamic-code", subj, loc, "getattr on the module %s with a name that is not a literal" % r)
            elif name in WRITERS and WRITERS[name] is not None:
                a = arg(n, WRITERS[name], ("file", "name", "fname", "filename", "f", "path"))
                mode = arg(n, 1, ("mode",)) if name in ("open", "io.open", "codecs.open", "gzip.open", "h5py.File") else None
                if mode is None and name in ("open", "io.open", "codecs.open", "gzip.open") or isinstance(mode, ast.Constant) and mode.value in ("r", "rb", "rt"):
                    ctx.discharge("writer", subj)
                    continue
                ok = m in OWNMODULES or a is not None and from_caller(a, funcs, A.alias)
                ctx.expect(ok, "writer", subj, loc, "%s writes to a path that does not come from the caller" % name)
            elif isinstance(n.func, ast.Attribute) and n.func.attr in METHODS and (name is None or name.split(".")[0] not in ("log",)):
                pos = METHODS[n.func.attr]
                a = n.func.value if pos is None else arg(n, pos, ("fname", "path_or_buf", "path", "fid"))
                if n.func.attr in ("unlink", "rmdir"):
                    ctx.violation("delete", subj, loc, "%s removes files" % n.func.attr)
                else:
                    ctx.expect(a is not None and from_caller(a, funcs, A.alias), "writer", subj, loc, "%s writes to a path that does not come from the caller" % n.func.attr)
        for n in ast.walk(tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                names = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or ""]
                for x in names:
                    if x.split(".")[0] in ("pickle", "cPickle", "dill", "cloudpickle", "joblib", "marshal", "shelve"):
                        pass
        ctx.discharge("calls", rel)
    ctx.stats["calls_resolved"] = total


def check(ctx):
    ctx.run(audit, ctx)
    ctx.run(quiet, ctx)
    for d in (False, True):
        ctx.run(content, ctx, d, True)
    for name in ENTRIES:
        ctx.run(entry, ctx, name, True, True)
        ctx.run(entry_faults, ctx, name, True, True)
        if ctx.thorough:
            ctx.run(entry, ctx, name, False, False)
            ctx.run(entry_faults, ctx, name, False, False)
