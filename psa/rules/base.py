"""Shared machinery of the property rules: scenes (drivers analysed abstractly), obligations, findings."""
import os
import json
import pickle
import shutil
import tempfile
import time
import traceback

from ..interp import Interp, AnalysisError
from ..terms import *
from .. import equality as Q
from .. import lib as L

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("PSA_REPO", "/repo")

PRELUDE = '''
import numpy as np
import popsynth
from popsynth.utils.configuration import popsynth_config
popsynth_config.show_progress = %s
import popsynth.populations as P
import popsynth.selection_probability as S
import popsynth.distributions as D
'''


class Scene:
    """one driver, analysed abstractly"""

    def __init__(self, ctx, name, src, I, error=None):
        self.ctx, self.name, self.src, self.I, self.error = ctx, name, src, I, error
        self.E = Q.Eval(I)
        self.pc = I.pc

    def events(self, *kinds):
        return [e for e in self.I.events if e.kind in kinds]

    def opaque_events(self):
        return [e for e in self.I.events if e.kind in ("ext-opaque", "method-opaque", "call-unknown", "unsupported")
                and not (e.data and str(e.data[0]).startswith(BENIGN))]

    def mark(self, label):
        return self.I.marks.get(label)

    def ev(self, t):
        return self.E.ev(t)

    def holds(self, t, guard=TRUE):
        return Q.holds(self.I, t, guard, self.E)

    def equal(self, a, b, guard=TRUE):
        return Q.equal(self.I, a, b, guard, self.E)

    def sat(self, guard):
        """is the guard true on some sample point"""
        if guard is FALSE:
            return False
        return bool(Q.guard_mask(self.E, guard).any())


BENIGN = ("'betagen", "betagen", "'matplotlib", "matplotlib", "'ipyvolume", "ipyvolume", "'IPython", "IPython", "'tqdm")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = []          # (rule, subject, ok|None, detail)
        self.viol = []         # dict(sig, rule, where, msg, trace)
        self.functions = set()
        self.calls = 0
        self.stats = {}
        self.notes = []
        self.thorough = tier == "thorough"
        self.parts = 0
        self.failed = []
        self.tasks = []
        self.events = 0
        self.nscenes = 0
        self.jobs = int(os.environ.get("PSA_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
        self.worker = False

    def run(self, fn, *a, **k):
        """one part of a check; a construct the engine cannot analyse makes that part undecided, not the whole check"""
        if self.jobs > 1 and not self.worker:
            self.tasks.append((fn, a, k))
            return None
        self.parts += 1
        try:
            return fn(*a, **k)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            what = "%s%r: %s: %s [%s:%s]" % (getattr(fn, "__name__", "?"), tuple(str(x)[:40] for x in a[1:]), type(e).__name__, str(e)[:300],
                                             os.path.basename(tb.filename), tb.lineno)
            self.failed.append(what)
            self.undecided("analysis", getattr(fn, "__name__", "?") + str(tuple(str(x)[:40] for x in a[1:])), what)
            if os.environ.get("PSA_DEBUG"):
                traceback.print_exc()
            return None

    FIELDS = ("obl", "viol", "functions", "calls", "stats", "notes", "parts", "failed", "events", "nscenes")

    def flush(self):
        """analyse the parts in parallel, each in its own process; results are merged in the order of the parts"""
        tasks, self.tasks = self.tasks, []
        if not tasks:
            return
        d = tempfile.mkdtemp(prefix="psa")
        running, results = {}, {}
        todo = list(range(len(tasks)))

        def reap():
            pid, st = os.wait()
            i = running.pop(pid, None)
            if i is None:
                return
            try:
                with open(os.path.join(d, str(i)), "rb") as f:
                    results[i] = pickle.load(f)
            except Exception as e:
                results[i] = None
        try:
            while todo or running:
                while todo and len(running) < self.jobs:
                    i = todo.pop(0)
                    pid = os.fork()
                    if pid == 0:
                        rc = 1
                        try:
                            self.part(tasks[i], os.path.join(d, str(i)))
                            rc = 0
                        finally:
                            os._exit(rc)
                    running[pid] = i
                reap()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for i in range(len(tasks)):
            r = results.get(i)
            if r is None:
                fn, a, k = tasks[i]
                what = "%s%r: the analysis of this part ended early" % (fn.__name__, tuple(str(x)[:40] for x in a[1:]))
                self.parts += 1
                self.failed.append(what)
                self.obl.append(("analysis", fn.__name__, None, what))
                continue
            self.merge(r)

    def part(self, task, path):
        fn, a, k = task
        self.worker = True
        self.obl, self.viol, self.functions, self.calls, self.stats, self.notes, self.parts, self.failed = [], [], set(), 0, {}, [], 0, []
        self.events = self.nscenes = 0
        self.run(fn, *a, **k)
        out = {n: getattr(self, n) for n in self.FIELDS}
        out["obl"] = [(str(r), str(s), ok if ok is None else bool(ok), None if t is None else str(t)) for r, s, ok, t in self.obl]
        with open(path, "wb") as f:
            pickle.dump(out, f)

    def merge(self, r):
        self.obl += r["obl"]
        have = {v["sig"] for v in self.viol}
        self.viol += [v for v in r["viol"] if v["sig"] not in have]
        self.functions |= r["functions"]
        self.calls += r["calls"]
        self.stats.update(r["stats"])
        self.notes += [n for n in r["notes"] if n not in self.notes]
        self.parts += r["parts"]
        self.failed += r["failed"]
        self.events += r["events"]
        self.nscenes += r["nscenes"]

    # -------------------------------------------------------------------- scenes
    def scene(self, name, body, progress=False, exists=FALSE, strict=False, implicit=False, prelude=PRELUDE, opts=None,
              must_complete=True):
        src = (prelude % ("flag('progress')" if progress is None else progress) if prelude and "%s" in prelude else (prelude or "")) + body
        I = Interp(root=REPO, implicit_exc=implicit)
        I.exists_mode = exists
        I.fs_strict = strict
        for k, v in (opts or {}).items():
            setattr(I, k, v)
        err = None
        try:
            I.run_driver(src, "psa_driver_" + "".join(c if c.isalnum() else "_" for c in name))
        except AnalysisError as e:
            err = str(e)
        sc = Scene(self, name, src, I, err)
        self.nscenes += 1
        self.events += len(I.events)
        self.functions |= {f for f in I.funcs_seen if f.startswith("popsynth")}
        self.calls += I.calls_analysed
        if err is not None:
            raise AnalysisError("%s: %s" % (name, err))
        if must_complete:
            self.escapes(sc)
            ok = I.pc is not FALSE
            ex = "; ".join(sorted({show(e.val, 4) + " at " + fmt_loc(getattr(e, "loc", None)) for e in I.frame.exits if e.kind == "raise"})) \
                if hasattr(I, "frame") and I.frame is not None else ""
            if ok:
                self.discharge("completes", name)
            else:
                raises = [e for e in I.events if e.kind == "raise"]
                last = raises[-1] if raises else None
                self.violation("completes", name + ":" + (last.loc[2] if last else "?"), last.loc if last else None,
                               "the use '%s' of the public interface always fails: %s" %
                               (name, ", ".join(show(d, 4) for d in last.data) if last else ex))
        return sc

    def escapes(self, sc, programming=None):
        """programming errors (undefined names, attributes, keys, wrong calls) that escape from a legitimate use"""
        I = sc.I
        if I.pc is FALSE:
            return
        for e in I.frame.exits:
            if e.kind != "raise":
                continue
            for g, x in guarded_leaves(e.val):
                cls = str(x.args[0].args[0] if x.op == "exc" and isinstance(x.args[0], Term) and x.args[0].args else x.args[0] if x.args else "")
                if not any(n in cls for n in programming or PROGRAMMING + (("ValueError", "ZeroDivisionError") if I.implicit_exc else ())):
                    continue
                g = b_and(e.pc, g)
                if g is FALSE or not sc.sat(g):
                    continue
                ev = [r for r in I.events if r.kind in ("raise", "missing-attr", "undefined-name") and any(n in show(r.data[0], 3) for n in (cls,))
                      and sc.sat(b_and(r.guard, g))]
                loc = x.loc or (ev[-1].loc if ev else None)
                self.violation("fails", "%s:%s" % (sc.name, loc[2] if loc else "?"), loc, "the use '%s' fails with %s %s in some configurations"
                               % (sc.name, show(x, 4), [show(d, 3) for d in ev[-1].data] if ev else ""))

    # -------------------------------------------------------------- obligations
    def discharge(self, rule, subject, detail=None):
        self.obl.append((rule, subject, True, detail))

    def undecided(self, rule, subject, why):
        self.obl.append((rule, subject, None, why))

    def violation(self, rule, subject, loc, msg, trace=None):
        self.obl.append((rule, subject, False, msg))
        if isinstance(loc, Term):
            loc = loc.loc
        sig = "%s|%s|%s" % (self.pid, rule, subject)
        if any(v["sig"] == sig for v in self.viol):
            return
        self.viol.append({"sig": sig, "rule": rule, "where": fmt_loc(loc), "msg": msg, "trace": trace or []})

    def expect(self, ok, rule, subject, loc, msg, trace=None):
        if ok is None:
            self.undecided(rule, subject, msg)
        elif ok:
            self.discharge(rule, subject)
        else:
            self.violation(rule, subject, loc, msg, trace)
        return ok

    def check_all(self, sc, rule, only=None, labels=None):
        """every EQ/SAME/HOLDS obligation of a scene"""
        n = 0
        seen = set()
        for c in sc.I.checks:
            if only and not only(c.label):
                continue
            n += 1
            seen.add(str(c.label))
            self.check_one(sc, rule, c)
        for l in labels or ():
            if l not in seen:
                self.violation(rule, sc.name + ":" + l, None, "the point of the use '%s' at which '%s' is compared is never reached" % (sc.name, l))
        return n

    def check_one(self, sc, rule, c):
        label = "%s:%s" % (sc.name, c.label)
        if c.kind == "HOLDS":
            v = sc.holds(c.a, c.guard)
            if v.equal:
                self.discharge(rule, label, "%d sample points" % v.active)
            else:
                self.violation(rule, label, c.site or c.loc, "%s does not hold: %s" % (c.label, show(c.a, 7)[:600]))
            return
        v = sc.equal(c.a, c.b, c.guard)
        if v.equal:
            if v.active == 0:
                self.undecided(rule, label, "guard not satisfiable on any sample")
            else:
                self.discharge(rule, label, "%d sample points" % v.active)
            return
        oa, ob = Q.opaques(c.a), Q.opaques(c.b)
        if (oa ^ ob) - KNOWN_OPAQUE:
            self.undecided(rule, label, "uninterpreted operations differ: %s" % ", ".join(sorted((oa ^ ob) - KNOWN_OPAQUE))[:200])
            return
        loc = best_loc(v.a, v.b) or c.site or c.loc
        self.violation(rule, label, loc, "%s differs%s: %s  versus  %s" %
                       (c.label, " at " + v.where if v.where else "", show(v.a, 7)[:700], show(v.b, 7)[:700]),
                       [fmt_loc(c.loc) + "  " + src_line(sc, c.loc)])

    # ------------------------------------------------------------------ results
    def known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("finding:"):
                    parts = line[len("finding:"):].strip().split(" ", 1)
                    sig, desc = parts[0], parts[1] if len(parts) > 1 else ""
                    out[sig.replace("%20", " ")] = desc
        return out

    def finish(self, explanation, assumptions=()):
        known = self.known()
        new = []
        for v in self.viol:
            if v["sig"] in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[v["sig"]] or v["msg"][:200]))
            else:
                new.append(v)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", "%s.violations.txt" % self.pid)
        if os.path.exists(rp):
            os.remove(rp)
        if new:
            with open(rp, "w") as f:
                for v in new:
                    f.write("%s\n  construct: %s\n  rule: %s\n  %s\n" % (v["sig"], v["where"], v["rule"], v["msg"]))
                    for t in v["trace"]:
                        f.write("    via %s\n" % t)
                    f.write("\n")
        by = {}
        for r, s, ok, d in self.obl:
            x = by.setdefault(r, [0, 0, 0])
            x[0 if ok else 1 if ok is False else 2] += 1
        cov = {
            "explanation": explanation,
            "functions_analysed": len(self.functions),
            "calls_interpreted_abstractly": self.calls,
            "scenes": self.nscenes,
            "abstract_events": self.events,
            "obligations_total": len(self.obl),
            "obligations_discharged": sum(1 for o in self.obl if o[2]),
            "obligations_violated": sum(1 for o in self.obl if o[2] is False),
            "obligations_undecided": sum(1 for o in self.obl if o[2] is None),
            "by_rule": {k: {"held": v[0], "violated": v[1], "undecided": v[2]} for k, v in sorted(by.items())},
            "functions": sorted(self.functions)[:400],
            "undecided": ["%s %s: %s" % (o[0], o[1], o[3]) for o in self.obl if o[2] is None][:40],
            "parts_not_analysed": self.failed,
            "known_findings_seen": len(self.viol) - len(new),
        }
        cov.update(self.stats)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": list(assumptions) + self.notes, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in new[:20]:
            print("%s: %s [%s]" % (v["where"], v["msg"][:900], v["rule"]))
        print("%s: %d obligations, %d held, %d violated, %d undecided; %d functions, %d calls, %d scenes, %.1fs" % (
            self.pid, cov["obligations_total"], cov["obligations_discharged"], cov["obligations_violated"],
            cov["obligations_undecided"], cov["functions_analysed"], self.calls, self.nscenes, time.time() - self.t0))
        for f in self.failed:
            print("UNDECIDED-PART property=%s %s" % (self.pid, f))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if not cov["obligations_discharged"] or 2 * len(self.failed) > self.parts > 0:
            print("ANALYSIS-ERROR property=%s: too little of the code could be analysed" % self.pid)
            return 2
        return 0


PROGRAMMING = ("AttributeError", "NameError", "UnboundLocalError", "TypeError", "KeyError", "IndexError")


def guarded_leaves(v, g=TRUE):
    if v.op == "ite":
        c = atom_of(v.args[0])
        return guarded_leaves(v.args[1], b_and(g, c)) + guarded_leaves(v.args[2], b_and(g, b_not(c)))
    return [(g, v)]


KNOWN_OPAQUE = {"array", "int", "len", "isinstance", "sum", "nonzero", "argsort", "sort", "max", "min", "linspace", "quad", "index",
                "concatenate", "levelno"}


def src_line(sc, loc):
    try:
        return sc.src.split("\n")[loc[1] - 1].strip()
    except Exception:
        return ""


def fmt_loc(loc):
    if not loc:
        return "?"
    return "%s:%s (%s)" % (loc[0], loc[1], loc[2])


def best_loc(*ts):
    best = None
    for t in ts:
        if not isinstance(t, Term):
            continue
        if good(t):
            return t.loc
        for x in subterms(t):
            if good(x) and best is None:
                best = x.loc
    return best


def good(t):
    return t.loc and str(t.loc[0]).startswith("popsynth/") and t.op not in ("const", "sym", "seq", "tuple", "flist", "fdict", "item", "ext") \
        and "logging.py" not in t.loc[0]
