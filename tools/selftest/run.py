"""differential test of the abstract interpreter: closed programs against the Python interpreter
   python3-vt tools/selftest/run.py [name ...]"""
import ast, os, sys, threading, multiprocessing
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.path.insert(0, HERE)
import warnings
warnings.simplefilter("ignore")
import numpy as np


def lit(v):
    if isinstance(v, np.ndarray):
        return "np.array(%s)" % lit(v.tolist())
    if isinstance(v, np.generic):
        return lit(v.item())
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (lit(k), lit(x)) for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(map(lit, v)) + "]"
    if isinstance(v, tuple):
        return "(" + "".join(lit(x) + ", " for x in v) + ")"
    if isinstance(v, float) and v != v:
        return "float('nan')"
    return repr(v)


def one(job):
    name, head, src, want = job
    from psa.rules.base import Ctx
    from psa.terms import show
    os.environ["PSA_DEBUG"] = "1"
    out = []
    def go():
        try:
            c = Ctx("CX", "quick", 1)
            body = "import numpy as np\n" + head + src + "\n_r = %s()\n" % name
            if isinstance(want, tuple):
                for i, w in enumerate(want):
                    body += "_x = _r[%d]\nEQ(_x, %s, '%d')\n" % (i, lit(w), i)
            else:
                body += "EQ(_r, %s, '0')\n" % lit(want)
            sc = c.scene("x", body, must_complete=False)
            n = len(want) if isinstance(want, tuple) else 1
            seen = set()
            for x in sc.I.checks:
                v = sc.equal(x.a, x.b, x.guard)
                if v.active:
                    seen.add(x.label)
                if not v.equal:
                    w = want[int(x.label)] if isinstance(want, tuple) else want
                    out.append("%s[%s]: want %s got %s" % (name, x.label, lit(w), show(x.a, 6)[:300]))
            if len(seen) < n and not out:
                out.append("%s: only %d of %d results reached" % (name, len(seen), n))
            for e in sc.I.frame.exits:
                if e.kind == "raise":
                    out.append("%s: raises %s" % (name, show(e.val, 4)[:200]))
            for e in sc.I.events:
                if e.kind in ("ext-opaque", "missing-attr", "undefined-name", "opaque") and out:
                    out.append("    %s %s %s" % (e.kind, e.loc, [show(d, 3)[:80] for d in e.data][:3]))
        except Exception as e:
            import traceback
            out.append("%s: ENGINE %s: %s (%s)" % (name, type(e).__name__, str(e)[:200], traceback.extract_tb(e.__traceback__)[-1][:3]))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[:6]


def main():
    files = [os.path.join(HERE, f) for f in sorted(os.listdir(HERE)) if f.startswith("snippets")]
    jobs = []
    for f in files:
        text = open(f).read()
        ns = {}
        exec(compile(text, f, "exec"), ns)
        tree = ast.parse(text)
        head = "".join(ast.get_source_segment(text, n) + "\n" for n in tree.body if isinstance(n, ast.Assign))
        for n in tree.body:
            if isinstance(n, ast.FunctionDef) and (len(sys.argv) < 2 or n.name in sys.argv[1:]):
                try:
                    want = ns[n.name]()
                except Exception as e:
                    print("SKIP", n.name, type(e).__name__, e)
                    continue
                jobs.append((n.name, head, ast.get_source_segment(text, n), want))
    bad = 0
    with multiprocessing.Pool(6) as p:
        for r in p.imap(one, jobs, chunksize=1):
            bad += bool(r)
            for x in r:
                print(x)
    print("%d programs, %d differ" % (len(jobs), bad))


if __name__ == "__main__":
    main()
