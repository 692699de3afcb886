#!/usr/bin/env python3
"""debug: pretty-print dumped MIR of functions whose path contains the argument"""
import json, sys, os
d = json.load(open(os.path.join(os.path.dirname(__file__), "..", "build", "mir.json")))
def pl(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*": s = "(*%s)" % s
        elif "f" in e: s += ".%s" % e["f"]
        elif "i" in e: s += "[_%s]" % e["i"]
        elif "dc" in e: s = "(%s as %s)" % (s, e["dc"])
        else: s += str(e)
    return s
def op(o):
    if "cp" in o: return pl(o["cp"])
    if "mv" in o: return "move " + pl(o["mv"])
    c = o.get("c", o)
    if "callee" in c: return "fn:" + (c["callee"].get("res") or c["callee"]["fn"])
    return "const " + str({k: v for k, v in c.items() if k not in ("ty",)}) + ":" + ty(c.get("ty"))
def ty(t):
    return json.dumps(t)[:80]
def rv(r):
    k = r["r"]
    if k == "use": return op(r["o"])
    if k == "ref": return "&%s %s" % (r.get("m"), pl(r["p"]))
    if k == "bin": return "%s(%s, %s)" % (r["op"], op(r["a"]), op(r["b"]))
    if k == "cast": return "%s as[%s] %s" % (op(r["o"]), r["c"], ty(r.get("ty")))
    if k == "agg": return "%s %s %s{%s}" % (r["kind"], r.get("adt") or r.get("closure") or "", r.get("vname", ""), ", ".join(op(x) for x in r["os"]))
    if k == "discr": return "discr " + pl(r["p"])
    return json.dumps(r)
def term(t):
    k = t["t"] if isinstance(t.get("t"), str) else None
    return json.dumps(t)
def body(f):
    for i, b in enumerate(f["blocks"]):
        if b.get("cleanup"): continue
        print("  bb%d:" % i)
        for s in b["s"]:
            print("    %s = %s" % (pl(s["p"]), rv(s["v"])))
        t = b["t"]
        k = t.get("k") or t.get("t")
        if t.get("k") == "call":
            a = t["f"]
            print("    %s = CALL %s(%s) -> %s" % (pl(t["d"]), op(a), ", ".join(op(x) for x in t["args"]), t["t"]))
            c = a.get("c", {}).get("callee")
            if c: print("        ", json.dumps({k: v for k, v in c.items() if v})[:300])
        else:
            print("    " + json.dumps(t)[:300])
for f in d["fns"]:
    if sys.argv[1] in f["path"]:
        print(f["path"], f["span"], "argc", f["argc"], "spread", f.get("spread"))
        for i, l in enumerate(f["locals"]): print("   _%d: %s %s" % (i, l.get("n", ""), ty(l["ty"])))
        body(f)
        for i, p in enumerate(f.get("promoted", [])): print(" promoted", i); body(p)
