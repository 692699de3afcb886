"""debug: run one function symbolically and print its outcomes"""
import sys, json, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analysis"))
import dump, mir, engine
from terms import *
d = dump.dump()
p = mir.Program(d)
names = sys.argv[1:]
for nm in names:
    fs = [f for f in p.fns.values() if f.path == nm] or [f for f in p.fns.values() if nm in f.path and not f.is_closure]
    for f in fs:
        t0 = time.time()
        e = engine.Engine(p)
        st = engine.new_state()
        args = [mk("in0", (f.locals[i + 1].get("n") or "a%d" % i)) for i in range(f.argc)]
        print("=====", f.path, args)
        try:
            outs = e.run(f.path, st, args)
        except engine.Limit as x:
            print("LIMIT", x)
            continue
        for lab, s, v in outs:
            print(" --", lab, v)
            print("    facts:", [str(l) for l in s.facts.order])
            for ev in s.ev:
                print("    ev:", ev[0], *[show(x) if is_t(x) or isinstance(x, tuple) else x for x in ev[1:]])
            for r, x in s.mem.items():
                if r[0] in ("D", "P"):
                    print("    mem", r, ":=", x)
        print("  paths", len(outs), "unmodelled", e.unmodelled, "%.2fs" % (time.time() - t0))
