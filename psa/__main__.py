"""python3-vt -m psa C07 --tier quick"""
import sys
import os
import argparse
import importlib
import traceback

from .rules.base import Ctx


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    pid = a.pid.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    m = importlib.import_module("psa.rules." + pid.lower())
    ctx = Ctx(pid, a.tier, seed)
    try:
        m.check(ctx)
        ctx.flush()
    except Exception as e:
        traceback.print_exc()
        if ctx.viol:
            return ctx.finish(m.EXPLANATION, getattr(m, "ASSUMPTIONS", ()))
        print("ANALYSIS-ERROR property=%s %s: %s" % (pid, type(e).__name__, e))
        return 2
    return ctx.finish(m.EXPLANATION, getattr(m, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    sys.setrecursionlimit(200000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
