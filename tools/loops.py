"""debug: loops of one function: phis, and per back edge the updates and the non-linear facts"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analysis"))
import dump, mir, engine
from terms import *
p = mir.Program(dump.dump())
W = int(sys.argv[2]) if len(sys.argv) > 2 else 220
for f in [f for f in p.fns.values() if sys.argv[1] in f.path and not f.is_closure]:
    e = engine.Engine(p, opaque=[x for x in sys.argv[3:] if x != 'nofold'])
    e.no_fold = 'nofold' in sys.argv
    outs = e.run(f.path, engine.new_state(), [mk("in0", (f.locals[i + 1].get("n") or "a%d" % i)) for i in range(f.argc)])
    print("=====", f.path, len(outs), "outcomes", e.unmodelled)
    seen = set()
    def loops(evs, d):
        for ev in evs:
            if ev[0] != "loop": continue
            if ev[2] in seen: continue
            seen.add(ev[2])
            print("  " * d + "LOOP", ev[1], "uid", ev[2], ev[3], "times", show(ev[4])[:W])
            for ph in ev[5]: print("  " * d + "  phi", show(ph)[:W])
            for b in ev[6]:
                print("  " * d + "  BACK")
                for l in b[0]:
                    s = show(l)
                    if "inseq" in s or "==" in s or "forall" in s or "first" in s or "some" in s: print("  " * d + "     F", s[:W])
                for x in b[2]: print("  " * d + "     upd", show(x)[:W])
                loops(b[1], d + 2)
    for lab, s, v in outs:
        print("--", lab, (show(v) if is_t(v) else str(v))[:W])
        loops(s.ev, 1)
