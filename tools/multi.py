"""several properties in one process on one dump (VERIF_REPO, VERIF_BUILD): one line per property that is not proved"""
import os, sys, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "analysis")); sys.path.insert(0, V)
sys.setrecursionlimit(20000)
import importlib, base, engine, check
rules = {}
for m in check.MODULES:
    rules.update(importlib.import_module(m).RULES)
ids = sys.argv[1:] or sorted(rules)
try:
    ctxs = list(base.contexts())
except Exception as x:
    print("DUMPFAIL", str(x)[-1500:]); sys.exit(3)
for pid in ids:
    R = base.Report(pid, "quick", 1)
    t = time.time()
    try:
        for ctx in ctxs:
            rules[pid](ctx, R)
    except base.Missing as x:
        R.violation("anchor", str(x), "missing")
    except engine.Limit as x:
        R.undecided("analysis-limit", str(x), "")
    except RecursionError as x:
        R.undecided("recursion", str(x), "")
    except Exception as x:
        import traceback
        if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
        R.undecided("analysis-error", type(x).__name__, str(x)[:200] + " " + traceback.format_exc().splitlines()[-3].strip())
    kf = [k for k, _ in check.known(pid)]
    seen = set()
    for st, rule, where, detail, key in R.obl:
        if st == "ok" or (st == "violation" and key in kf) or (st, key) in seen:
            continue
        seen.add((st, key))
        print("%s %s %s at %s: %s" % ("VIOL" if st == "violation" else "UNDEC", pid, rule, where, str(detail)[:260]))
    print("DONE %s %d %.1f" % (pid, len(R.obl), time.time() - t))
