"""Where randomness comes from (P25) and what may be shared between tasks (P32)"""
import json
import re
from base import *
from r_alg import flat, hooked, EVO
import r_sel

RNG_HOOK = "EvolutionModel::rng"
ERX = "operators::crossover::edge_recombination_crossover"

# function paths that bring something else than arguments and generators into a computation
AMBIENT = [
    (r"rand::(rngs::(thread::)?)?thread_rng$|rand::rng$|ThreadRng|OsRng|getrandom|from_entropy$|from_os_rng$|from_rng_entropy|^rand::(prelude::)?random($|::)|rand::make_rng|StepRng", "an ambient random generator"),
    (r"std::time::|Instant::now|SystemTime", "the clock"),
    (r"std::thread::current|ThreadId|current_thread_index|current_thread_has_pending|ThreadPool::current|thread::available_parallelism|available_parallelism|std::thread::Thread::", "the identity of the thread"),
    (r"std::process::id|std::env::|std::fs::|std::net::|std::io::stdin|std::io::Read::", "the environment"),
    (r"RandomState::new|RandomState as|BuildHasher::|::hash_one$|::build_hasher$", "randomly keyed hashing"),
    (r"std::sync::atomic::|Atomic(Usize|U64|U32|I64|I32|Bool|Ptr)|core::sync::atomic", "shared mutable state"),
    (r"std::thread::LocalKey|LocalKey::", "thread-local state"),
    (r"expose_provenance|::addr$|::expose_addr", "an address"),
    (r"::(find_any|position_any|find_map_any|par_bridge|any_ok)$", "the order in which parallel tasks happen to run"),
]
AMBIENT = [(re.compile(a), b) for a, b in AMBIENT]
HASHED = re.compile(r"^(std::collections::|hashbrown::)?(hash_map|hash_set|hash::map|hash::set)::|^std::collections::hash(_map|_set|::map|::set)::|^hashbrown::(map|set)::")
LAZY = {"map", "filter", "filter_map", "copied", "cloned", "by_ref", "into_iter", "iter", "flat_map", "flatten", "inspect", "enumerate", "chain", "zip", "peekable", "clone", "size_hint", "len", "is_empty", "drop", "borrow"}
BLIND = {"all", "any", "count", "sum", "product", "max", "min", "contains", "eq", "ne", "fmt", "is_subset", "is_superset", "is_disjoint"}
SETLIKE = re.compile(r"collections::(HashSet|HashMap|BTreeSet|BTreeMap|BinaryHeap|hash_set::HashSet|hash_map::HashMap|btree_set::BTreeSet|btree_map::BTreeMap)$|^(std::collections::)?(HashSet|HashMap|BTreeSet|BTreeMap)$")


def bodies(f):
    """the parts of a dumped function that contain code"""
    return [f.d.get("blocks") or [], f.d.get("promoted") or []]


def callees(f):
    """every function mentioned in the code of `f`, called or passed on as a value, and every closure built"""
    out, clo = [], []

    def walk(x, sp):
        if isinstance(x, dict):
            sp = x.get("sp", sp)
            if "fn" in x and isinstance(x["fn"], str):
                out.append((x, sp))
            if isinstance(x.get("closure"), str):
                clo.append(x["closure"])
            if x.get("k") == "closure" and isinstance(x.get("p"), str):
                clo.append(x["p"])
            for v in x.values():
                walk(v, sp)
        elif isinstance(x, list):
            for v in x:
                walk(v, sp)
    for b in bodies(f):
        walk(b, f.d.get("span"))
    return out, clo


class Graph:
    """the call graph of the crate, calls through traits going to every implementation"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = {}
        self.edges = {}
        for p, f in ctx.p.fns.items():
            cs, clo = callees(f)
            self.calls[p] = cs
            e = set(c for c in clo if c in ctx.p.fns)
            for c, _ in cs:
                for n in (c.get("res"), c["fn"]):
                    if n in ctx.p.fns:
                        e.add(n)
                if c.get("trait") and c.get("name"):
                    for g in ctx.p.methods.get((c["trait"], c["name"]), []):
                        e.add(g.path)
            self.edges[p] = e

    def reach(self, roots, without=()):
        seen, todo = set(), [r for r in roots if r not in without]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [y for y in self.edges.get(x, ()) if y not in without]
        return seen


def is_root(f):
    return not f.is_closure and (f.d.get("reach") or f.d.get("exported") or f.d.get("impl_trait"))


def types_in(x, out):
    if isinstance(x, dict):
        if x.get("k") == "adt":
            out.append(x["p"])
        for k, v in x.items():
            types_in(v, out)
    elif isinstance(x, list):
        for v in x:
            types_in(v, out)
    return out


def p25_scan(ctx, R):
    g = Graph(ctx)
    fns = ctx.p.fns
    models = {p for p, f in fns.items() if f.d.get("impl_trait") == "model::EvolutionModel" and f.d.get("name") == "rng"}
    models |= {p for p in fns if any(p.startswith(m + "::{") for m in models)}
    models |= g.reach(models) - g.reach([p for p, f in fns.items() if is_root(f) and p not in models], models)
    erx = ctx.p.get(ERX)
    ties = set()
    if erx is not None:
        ties = set(fns) - g.reach([p for p, f in fns.items() if is_root(f) and p != erx.path], {erx.path})
    sites = 0
    for p, f in sorted(fns.items()):
        if p in models:
            continue
        for c, sp in g.calls[p]:
            sites += 1
            names = {c["fn"], c.get("res") or ""}
            for pat, what in AMBIENT:
                if c.get("local"):
                    continue
                if any(pat.search(n) for n in names):
                    R.violation("ambient", "%s (%s)" % (p, sp), "uses %s: %s" % (what, c["fn"]), key="ambient|%s|%s" % (p, c["fn"]))
        if p not in ties:
            hash_order(ctx, R, f, g.calls[p])
        for x, sp in casts(f):
            R.violation("ambient", "%s (%s)" % (p, sp), "turns an address into a number", key="address|" + p)
        if f.d.get("kind", "").startswith("Static"):
            static_state(R, f, "ambient")
    R.ok("ambient", "%d call sites of %d functions" % (sites, len(fns)), "no clock, environment, thread identity, address, global state or ambient generator")
    R.assumptions.append("Calls into other crates do only what their documented contract says; the generator a model's `rng` implementation returns is the caller's choice.")


def casts(f):
    out = []

    def walk(x, sp):
        if isinstance(x, dict):
            sp = x.get("sp", sp)
            if x.get("k") == "cast" and "Expose" in str(x.get("c")):
                out.append((x, sp))
            for v in x.values():
                walk(v, sp)
        elif isinstance(x, list):
            for v in x:
                walk(v, sp)
    for b in bodies(f):
        walk(b, None)
    return out


MUTABLE = re.compile(r"(^|::)(Mutex|RwLock|Cell|RefCell|UnsafeCell|OnceCell|Atomic\w*|Condvar|ReentrantLock|SyncUnsafeCell)$")
LAZYONCE = re.compile(r"(^|::)(OnceLock|LazyLock|Lazy|OnceCell|LazyCell)$")


def static_state(R, f, rule):
    kind = f.d["kind"]
    ts = types_in((f.d.get("locals") or [{}])[0].get("ty"), [])
    if "mutability: Mut" in kind:
        R.violation(rule, f.path, "a `static mut`", key=rule + "|static|" + f.path)
    elif any(MUTABLE.search(t) for t in ts):
        R.violation(rule, f.path, "a static holding mutable state (%s)" % ", ".join(ts[:3]), key=rule + "|static|" + f.path)
    elif any(LAZYONCE.search(t) for t in ts):
        R.undecided(rule, f.path, "a static computed once")
    else:
        R.ok(rule, f.path, "read-only static")


def hash_order(ctx, R, f, calls):
    """results must not depend on the order in which a hash table is walked"""
    sorts = any(str(c["fn"]).split("::")[-1].startswith("sort") for c, _ in calls)
    for c, sp in calls:
        gen = c.get("a") or []
        ts = [t for t in types_in(gen, []) if HASHED.search(t) and not SETLIKE.search(t) and t.split("::")[-1] not in ("Entry", "OccupiedEntry", "VacantEntry")]
        name = (c.get("name") or c["fn"]).split("::")[-1]
        if not ts or name in LAZY or name in BLIND or c.get("local"):
            continue
        into = types_in(gen[:1] if name in ("extend", "from_iter") else gen[1:], [])
        if name in ("extend", "from_iter", "collect") and any(SETLIKE.search(t) for t in into):
            continue
        if name in ("next", "for_each", "fold", "try_for_each", "try_fold"):
            # a walk over the whole table: what the body does decides
            if name == "next" and walk_commutes(ctx, f, c):
                R.ok("hash-order", "%s (%s)" % (f.path, sp), "every step of the walk touches only the entry it visits or a set")
                continue
            if name != "next":
                R.undecided("hash-order", "%s (%s)" % (f.path, sp), "walks a hash table with %s" % name)
                continue
        if sorts:
            R.undecided("hash-order", "%s (%s)" % (f.path, sp), "walks a hash table and sorts")
            continue
        R.violation("hash-order", "%s (%s)" % (f.path, sp), "the result depends on the order of a hash table (%s over %s)" % (name, ts[0]), key="hash-order|%s|%s" % (f.path, name))


HARMLESS = {"insert", "remove", "contains", "contains_key", "get", "get_mut", "entry", "or_insert", "or_insert_with", "or_default", "retain", "len", "is_empty", "eq", "ne", "lt", "le", "gt", "ge", "partial_cmp",
            "cmp", "clone", "copied", "cloned", "deref", "deref_mut", "index", "next", "iter", "into_iter", "iter_mut", "unwrap", "max", "min", "take", "replace", "clear"}


def walk_commutes(ctx, f, callee):
    """the loop around this `next` calls only operations whose order does not matter and is left only at the end"""
    blocks = f.blocks
    at_ = [i for i, b in enumerate(blocks) if b["t"].get("k") == "call" and json.dumps(callee, sort_keys=True) in json.dumps(b["t"], sort_keys=True)]
    from mir import find_loops, succs
    loops = f.loops()
    bodies_ = [set(l.get("body", l) if isinstance(l, dict) else l) for l in (loops.values() if isinstance(loops, dict) else loops)]
    if not at_:
        return False
    for i in at_:
        inside = [b for b in bodies_ if i in b]
        if not inside:
            return False
        body = min(inside, key=len)
        outs = set()
        for b in body:
            t = blocks[b]["t"]
            if t.get("k") == "call":
                n = ((t["f"].get("c") or {}).get("callee") or {})
                nm = (n.get("name") or n.get("fn") or "?").split("::")[-1]
                if nm not in HARMLESS or n.get("local"):
                    return False
            outs |= {s for s in succs(t) if s not in body and not blocks[s].get("cleanup")}
        if len(outs) > 1:
            return False
    return True


# ---------------------------------------------------------------- which generator the draws come from
ERX_LIKE = ["operators::crossover::" + n for n in ("generalized_partition_2_crossover", "sequential_constructive_crossover", "edge_recombination_crossover", "partially_mapped_crossover", "order_crossover",
                                                    "cycle_crossover", "single_point_crossover")]
WITH_RNG = {"SelectionMechanism::select": -1, "SelectionMechanism::select_distinct": -1, "EvolutionModel::crossover": -1, "EvolutionModel::mutate": -1, "EvolutionModel::breed": -1, "RandomIndividual::new_random": -1}


def rng_params(ctx, f):
    """positions of the generator parameters"""
    e = ctx.engine()
    out = []
    for i, t in enumerate(f.d.get("inputs") or []):
        if e.is_rng_ty(t):
            out.append(i)
    return out


def uses(o):
    """(where, what, generator) of every random decision on a path"""
    for e, inside in flat(o.st.ev):
        if e[0] == "draw":
            yield e[1], "a draw", e[3]
        elif e[0] == "hook" and e[2] in WITH_RNG:
            yield e[1], e[2], e[4][WITH_RNG[e[2]]]


def unrelated(r, given):
    """a generator seeded from something that has nothing to do with the caller's"""
    return r.op == "unk" and re.search(r"seed|from_rng|default|new", str(r.a[0])) is not None and not occurs(r, lambda t: t in given or t.op in ("draw", "res", "post", "phi"))


def from_model(ctx, o, r):
    """the generator is the model's own: made by its `rng`, or pulled from a pool filled by it"""
    if r.op == "res" and r.a[0] == RNG_HOOK:
        return True
    if r.op == "res" and r.a[0] == "pool.rng":
        return True
    if r.op == "at":
        return from_model(ctx, o, r.a[0])
    return False


def p25_uses(ctx, R):
    done = 0
    for p, f in sorted(ctx.p.fns.items()):
        if f.is_closure or not f.blocks:
            continue
        if f.d.get("kind") not in ("Fn", "AssocFn"):
            continue
        pos = rng_params(ctx, f)
        loops_of_run = p.startswith(EVO)
        if loops_of_run or not pos and not any(x in p for x in ("generate_new_population", "extend_population", "initialize_population")):
            continue
        names = ctx.argnames(p)
        given = set()
        for i in pos:
            x = mk("in0", names[i])
            given |= {x, mk("deref", x)}
        cfg = {"opaque": [c for c in ERX_LIKE if c != p]} if "rossover" in p else {}
        try:
            outs = ctx.sym(p, **cfg)
        except engine.Limit as x:
            R.undecided("generator", p, str(x))
            continue
        n = 0
        for o in outs:
            for site, what, r in uses(o):
                n += 1
                good = r in given if pos else from_model(ctx, o, r)
                R.need(good, "generator", "%s (%s)" % (p, site[0]), "%s uses the generator %s" % (what, show(r)[:120]), (r,), key="generator|%s|%s" % (p, what), strict=unrelated(r, given))
        done += 1
    R.need(done >= 20, "generator", "crate", "only %d functions that take random decisions were found" % done, strict=True)
    pools(ctx, R)


def p25(ctx, R):
    p25_scan(ctx, R)
    p25_uses(ctx, R)


def evs_named(ctx, evs, kind):
    return [(e, i) for e, i in flat(evs) if e[0] == kind]


def init_is_rng(ctx, fn):
    """a value of function type that is the model's `rng`, or a closure that only calls it"""
    s = show(fn)
    if fn.op == "fndef" or "fndef" in s[:8]:
        return "model::EvolutionModel::rng" in s
    if fn.op in ("closure", "agg") or "closure" in s[:12]:
        m = re.search(r'closure[^A-Za-z]*"?p?"?:? ?"?([\w:<>{}# ,&]+)', s)
        return None
    return None


def pools(ctx, R):
    """pools are filled, and emptied pools refilled, by the model's `rng`"""
    g = Graph(ctx)
    n = 0
    for p, f in sorted(ctx.p.fns.items()):
        for b in f.blocks:
            t = b["t"]
            if t.get("k") != "call":
                continue
            c = ((t["f"].get("c") or {}).get("callee") or {})
            name = c.get("fn", "")
            if not re.search(r"object_pool::Pool::<T>::(new|pull)$", name):
                continue
            n += 1
            a = (c.get("a") or [])
            fty = t["tys"][1] if len(t.get("tys", [])) > 1 else {}
            where = "%s (%s)" % (p, t.get("sp"))
            if fty.get("k") == "fndef":
                R.need(fty.get("p", "").endswith("EvolutionModel::rng"), "pool-source", where, "the pool is filled by %s" % fty.get("p"), strict=True, key="pool|%s" % p)
            elif fty.get("k") == "closure":
                q = fty["p"]
                cs = [x["fn"] for x, _ in g.calls.get(q, [])]
                ok_ = any(x.endswith("EvolutionModel::rng") for x in cs)
                other = [x for x in cs if re.search(r"SeedableRng|seed_from|from_seed|clone", x)]
                if ok_ and not other:
                    R.ok("pool-source", where, "filled by the model's rng")
                elif not ok_ and not any(x.get("local") for x, _ in g.calls.get(q, [])):
                    R.violation("pool-source", where, "the pool is filled by a closure that does not ask the model for a generator", key="pool|%s" % p)
                else:
                    R.undecided("pool-source", where, "the pool is filled by a closure calling %s" % ", ".join(cs)[:200])
            else:
                R.undecided("pool-source", where, "the pool is filled by %s" % json.dumps(fty)[:120])
    R.add("ok", "pool-source", "%d pool operations" % n)


# ------------------------------------------------------------------------------------ P32
PAR = ("for_each_with", "for_each_init", "map_init", "map_with", "par_extend")


def p32(ctx, R):
    d = ctx.dump
    for u in d.get("unsafe_blocks") or []:
        R.violation("safe-code", str(u), "an unsafe block", key="unsafe-block|" + re.sub(r":\d+", "", str(u)))
    for i in d["impls"]:
        if i.get("unsafe") and not str(i.get("trait")).endswith("::TrivialClone"):
            R.violation("safe-code", "impl %s for %s (%s)" % (i.get("trait"), i.get("self_s"), i.get("span")), "an unsafe trait implementation", key="unsafe-impl|%s|%s" % (i.get("trait"), i.get("self_s")))
    nf = 0
    for p, f in sorted(ctx.p.fns.items()):
        nf += 1
        if f.d.get("unsafe"):
            R.violation("safe-code", p, "an unsafe function", key="unsafe-fn|" + p)
        if f.d.get("kind", "").startswith("Static"):
            static_state(R, f, "global-state")
        for c, sp in callees(f)[0]:
            if re.search(r"std::thread::LocalKey", c["fn"]):
                R.violation("global-state", "%s (%s)" % (p, sp), "thread-local state", key="tls|" + p)
    R.ok("safe-code", "%d functions, %d impls" % (nf, len(d["impls"])), "no unsafe block, function or trait implementation, no mutable static")
    # generators of parallel work
    n = 0
    for p in ("algorithms::EvolutionAlgorithm::generate_new_population", "model::EvolutionModel::extend_population", "model::EvolutionModel::extend_population_with"):
        for o in ctx.sym(p):
            for e, inside in flat(o.st.ev):
                if e[0] == "hook" and e[2] in WITH_RNG:
                    r = e[4][WITH_RNG[e[2]]]
                elif e[0] == "draw":
                    r = e[3]
                else:
                    continue
                n += 1
                R.need(from_model(ctx, o, r), "own-generator", "%s (%s)" % (p, e[1][0]), "%s uses the generator %s" % (e[2], show(r)[:150]), (r,), key="own-generator|%s|%s" % (p, e[2]))
    R.need(n > 0, "own-generator", "crate", "no random decision found in parallel work", strict=True)
    pools(ctx, R)
    shared(ctx, R)
    R.assumptions.append("The type system rejects data races in safe code; rayon, object-pool and std keep their safety contracts.")


LOCKS = re.compile(r"(^|::)(Mutex|RwLock|Atomic\w*|ReentrantLock|OnceLock)$")


def shared(ctx, R):
    """parallel closures capture nothing that can be changed through a shared reference"""
    n = 0
    for p, f in sorted(ctx.p.fns.items()):
        for c, sp in callees(f)[0]:
            if c.get("crate") not in ("rayon", "rayon_core"):
                continue
            for t in c.get("a") or []:
                if t.get("k") != "closure" or t["p"] not in ctx.p.fns:
                    continue
                n += 1
                g = ctx.p.fns[t["p"]]
                ups = types_in(g.d.get("upv") or [], [])
                bad = [x for x in ups if LOCKS.search(x)]
                R.need(not bad, "shared-state", "%s (%s)" % (t["p"], sp), "a parallel closure shares %s" % ", ".join(bad), strict=True, key="shared-state|" + t["p"])
    R.ok("shared-state", "%d parallel closures" % n, "nothing mutable is shared")


RULES = {"P25": p25, "P32": p32}
