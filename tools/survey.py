"""debug: run every local function symbolically; print outcome counts, timing, unmodelled calls"""
import sys, os, time, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analysis"))
import dump, mir, engine
from terms import *
p = mir.Program(dump.dump())
pat = sys.argv[1] if len(sys.argv) > 1 else ""
lim = int(sys.argv[2]) if len(sys.argv) > 2 else 30
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM, h)
import traceback
for f in p.fns.values():
    if f.is_closure or pat not in f.path: continue
    t0 = time.time()
    e = engine.Engine(p)
    st = engine.new_state()
    args = [mk("in0", (f.locals[i + 1].get("n") or "a%d" % i)) for i in range(f.argc)]
    signal.alarm(lim)
    try:
        outs = e.run(f.path, st, args)
        r = "ret %d panic %d" % (sum(1 for o in outs if o[0]=="ret"), sum(1 for o in outs if o[0]!="ret"))
    except engine.Limit as x:
        r = "LIMIT %s" % x
    except TO:
        r = "TIMEOUT"
    except Exception as x:
        r = "EXC %s %s" % (type(x).__name__, traceback.format_exc().splitlines()[-3:-1] + [str(x)[:200]])
    signal.alarm(0)
    print("%-70s %s unmod=%s %.2fs" % (f.path[-70:], r, dict(e.unmodelled), time.time() - t0), flush=True)
