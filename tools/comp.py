import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analysis"))
import dump, mir, engine
from terms import *
p = mir.Program(dump.dump())
alg = sys.argv[1]; fn = sys.argv[2]
W = int(sys.argv[3]) if len(sys.argv)>3 else 400
A = {"k":"adt","p":{"ga":"algorithms::ga::GeneticAlgorithm","aga":"algorithms::aga::AdaptiveGeneticAlgorithm"}[alg],"a":[{"k":"param","n":"M"}]}
hooks = [("model::EvolutionModel", n) for n in ("rng","crossover","mutate","evaluate","improve","pre_generation","breed","can_survive")]+[("individual::Individual","is_valid")]
e = engine.Engine(p, hooks=hooks, opaque=["operators::selection::SelectionStrategy::create_selector","population::Population::<I>::new","population::Population::<I>::replace"])
t0=time.time()
path="evolution::Evolution::<A, M>::"+fn
f=p.get(path)
args=[mk("in0", (f.locals[i + 1].get("n") or "a%d" % i)) for i in range(f.argc)]
outs=e.run(path, engine.new_state(), args, {"A":A})
print(f.generics, args, "unmod", e.unmodelled, "%.1fs"%(time.time()-t0), len(outs))
for lab,s,v in outs:
    print("--",lab,show(v)[:W])
    for l in s.facts.order: print("    F", show(l)[:W])
    for ev in s.ev:
        if ev[0]=="loop":
            print("    LOOP", ev[1], ev[3], show(ev[4])[:W])
            for ph in ev[5]: print("       phi", show(ph)[:W])
            for b in ev[6]:
                print("       BACK")
                for l in b[0]: print("         F", show(l)[:W])
                for x in b[1]: print("         ", x[0], *[show(y)[:W] if is_t(y) or isinstance(y,tuple) else y for y in x[1:]])
                for x in b[2]: print("         upd", show(x)[:W])
        else:
            print("    ", ev[0], *[show(x)[:W] if is_t(x) or isinstance(x, tuple) else x for x in ev[1:]])
