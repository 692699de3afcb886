"""soundness aid: basic blocks that no analysed path reaches (a path wrongly taken for impossible would hide here)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analysis"))
sys.setrecursionlimit(20000)
import dump, mir, engine
from terms import *
p = mir.Program(dump.dump())
seen = set()
ob = engine.Engine.block
def block(self, fr, st, b):
    seen.add((fr.fn.path, b))
    return ob(self, fr, st, b)
engine.Engine.block = block
for nofold in (False, True):
    for f in [f for f in p.fns.values() if not f.is_closure]:
        if len(sys.argv) > 1 and sys.argv[1] not in f.path: continue
        e = engine.Engine(p); e.no_fold = nofold
        try:
            e.run(f.path, engine.new_state(), [mk("in0", (f.locals[i + 1].get("n") or "a%d" % i)) for i in range(f.argc)])
        except Exception as x:
            print("??", f.path, type(x).__name__, str(x)[:100])
ent = {a for a, _ in seen}
tot = 0
for f in p.fns.values():
    if f.path not in ent:
        print("never entered", f.path); continue
    for i, b in enumerate(f.blocks):
        if b["cleanup"]: continue
        tot += 1
        if (f.path, i) not in seen and b["t"]["k"] not in ("unreachable", "resume"):
            print("unreached", f.path, "bb%d" % i, b["t"].get("sp"), b["t"]["k"])
print(tot, "blocks", len(seen), "reached")
