#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current source by static analysis"""
import os
import sys
import json
import time
import importlib
import signal
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "analysis"))
sys.setrecursionlimit(20000)

MODULES = ["r_mut", "r_stats", "r_pop", "r_sel", "r_alg", "r_misc", "r_struct", "r_cross", "r_choice", "r_text", "r_term"]


def known(pid):
    """(kind, key, text) lines of the committed findings file for this property"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                rest = line.split(":", 1)[1].strip()
                p, key, text = rest.split(" ", 2)
                if p == "property=" + pid:
                    out.append((key.split("=", 1)[1], text))
    return out


class TimeUp(BaseException):
    pass


def time_up(*_):
    raise TimeUp()


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    import base
    import engine
    rules = {}
    for m in MODULES:
        rules.update(importlib.import_module(m).RULES)
    R = base.Report(pid, tier, seed)
    ctxs = list(base.contexts())
    ctx = ctxs[0]
    signal.signal(signal.SIGALRM, time_up)
    signal.alarm(600)
    try:
        for c in ctxs:
            rules[pid](c, R)
    except base.Missing as x:
        R.violation("anchor", str(x), "the function this property is anchored in no longer exists")
    except engine.Limit as x:
        R.undecided("analysis-limit", str(x), "abstract interpretation gave up")
    except TimeUp:
        R.undecided("analysis-limit", "time", "abstract interpretation did not finish in 600 s")
    except RecursionError as x:
        R.undecided("analysis-limit", "recursion", "abstract interpretation gave up")
    except Exception as x:
        if os.environ.get("VERIF_DEBUG"):
            raise
        traceback.print_exc()
        R.undecided("analysis-error", type(x).__name__, str(x)[:300])
    signal.alarm(0)
    n = {"ok": 0, "violation": 0, "undecided": 0}
    for o in R.obl:
        n[o[0]] += 1
    if not R.obl:
        R.violation("anchor", pid, "no obligation was generated")
    kf = known(pid)
    used, viols, seen = [], [], set()
    for st, rule, where, detail, key in R.obl:
        if st != "violation":
            continue
        hit = next((k for k, _ in kf if k == key), None)
        if hit is not None:
            used.append(hit)
        elif key not in seen:
            seen.add(key)
            viols.append((rule, where, detail, key))
    for k, text in kf:
        if k in used:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    os.makedirs(os.path.join(VERIF, "build", "reports"), exist_ok=True)
    rep = os.path.join(VERIF, "build", "reports", pid + ".txt")
    with open(rep, "w") as fh:
        for st, rule, where, detail, key in R.obl:
            fh.write("%s %s at %s: %s\n" % (st.upper(), rule, ctx.where(where), detail))
    for st, rule, where, detail, key in R.obl:
        if st == "undecided":
            print("UNDECIDED property=%s rule=%s at %s: %s" % (pid, rule, ctx.where(where), str(detail)[:300]))
    for rule, where, detail, key in viols:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        print("  rule %s at %s: %s" % (rule, ctx.where(where), str(detail)[:600]))
    by = {}
    for st, rule, where, detail, key in R.obl:
        by.setdefault(rule, {"ok": 0, "violation": 0, "undecided": 0})[st] += 1
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "obligations": len(R.obl),
            "discharged": n["ok"],
            "undecided": n["undecided"],
            "violated": n["violation"],
            "known_findings_seen": len(set(used)),
            "rules": by,
            "functions_analysed": sorted(ctx.analysed),
            "paths": ctx.npaths,
            "loops_summarised": ctx.nloops,
            "symbolic_runs": ctx.runs,
            "crate_functions": len(ctx.p.fns),
            "builds_analysed": ["with debug assertions"] + ["without debug assertions"] * (len(ctxs) - 1),
            "checker_cmd": "python3 check.py " + pid,
            "trusted_base": ["rustc nightly (type checking, MIR construction and trait resolution)",
                             "models of the std, rand, rayon and object-pool functions in analysis/models.py",
                             "the abstract interpreter in analysis/ (terms, facts, loops, engine)"],
            "explanation": "Path-sensitive abstract interpretation of the MIR of the current tree; every obligation is an entailment over the abstract outcomes of the named functions.",
        },
        "assumptions": R.assumptions + ["usize additions do not overflow (lengths are bounded by memory)",
                                        "user supplied trait implementations are arbitrary but follow their documented contracts"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d proved, %d undecided, %d violated (%.1fs)" % (pid, len(R.obl), n["ok"], n["undecided"], n["violation"], time.time() - t0))
    sys.exit(1 if viols else 0)


if __name__ == "__main__":
    main()
