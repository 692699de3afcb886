"""P06 sorted unique population with matching statistics, P07 encapsulation, P08 counters, P31 ordering"""
from base import *
import r_stats
from r_stats import compare, count_of, FROM, adt_name, by_value

DEREF = "<population::Population<I> as std::ops::Deref>::deref"
NEW = POP + "new"
REPLACE = POP + "replace"


class PopView:
    """a population value seen through its public accessors"""

    def __init__(self, ctx, F, val):
        st = engine.new_state()
        for l in F.order:
            st.facts.add(l)
        self.val = val
        self.V = ctx.observe1(st, DEREF, val)
        self.gen = ctx.observe1(st, POP + "generation", val)
        self.stag = ctx.observe1(st, POP + "stagnation", val)
        self.stats = ctx.observe1(st, POP + "stats", val)

    def stat(self, ctx, F, name):
        r = r_stats.obs(ctx, F, self.stats, name, True)
        return r[0][1] if len(r) == 1 else None


def fit(x):
    return mk("fitness", x)


def ascending(lam):
    """is the comparator ascending by fitness (Less exactly when the first is strictly fitter-below)?"""
    x, y = skolem("x"), skolem("y")
    b = lam.a[1]
    # the comparator body speaks about el(b) and el(acc(b))
    body = lam.a[2]
    m = {mk("el", acc(b)): y, mk("el", b): x}
    body = subst(body, {mk("el", acc(b)): y})
    body = subst(body, {mk("el", b): x})
    a, c = fcmp("flt", fit(x), fit(y)), fcmp("flt", fit(y), fit(x))
    good = {"dir": None}
    for f, (v,) in splits(Facts(), body):
        if v.op != "agg" or v.a[0] != ORD:
            return None
        k = ordk(v)
        if k < 0 and not f.entails(a):
            good["dir"] = "other" if not f.entails(c) else "desc"
            return good["dir"]
        if k > 0 and not f.entails(c):
            return "desc" if f.entails(a) else "other"
        if k == 0 and not (f.entails(bnot(a)) and f.entails(bnot(c))):
            return "other"
    return "asc"


def ordk(v):
    return {0: -1, 1: 0, 2: 1}[v.a[1]]


def chain(V):
    """operations applied to a base sequence, innermost first"""
    ops = []
    while V.op in ("dedup", "dedupby", "sort", "sortby", "perm", "rev"):
        ops.append(V)
        V = V.a[0]
    return V, list(reversed(ops))


def key_of_dedup(t):
    return t.op


def only_equal(t):
    """are only elements equal to their kept neighbour dropped?"""
    if t.op == "dedup":
        return True
    lam = t.a[1]
    if lam.op != "lam":
        return False
    k = skolem()
    body = inst(lam, k)[-1]
    for f, (b,) in splits(Facts(), body):
        f.add(b)
        if f.bad:
            continue
        if not any(l.op == "peq" for l in f.order):
            return False
    return True


def arrangement(R, where, V, X, F, rule="sorted"):
    """obligations: V is X sorted ascending by fitness with equal neighbours merged"""
    base, ops = chain(V)
    R.need(base is X or same(F, base, X), "all-individuals", where, "the individuals are %s, not the given ones" % show(V)[:300], (V,))
    sorts = [i for i, t in enumerate(ops) if t.op in ("sort", "sortby")]
    R.need(bool(sorts), "sorted", where, "individuals are not sorted: %s" % show(V)[:200], (V,))
    last = None
    if sorts:
        last = sorts[-1]
        lam = ops[last].a[1]
        d = ascending(lam) if lam.op == "lam" else None
        R.need(d == "asc", "sorted", where, "the last sort is not ascending by fitness (%s)" % d, (V,))
        for t in ops[last + 1:]:
            R.need(t.op in ("dedup", "dedupby"), "sorted", where, "%s after sorting" % t.op, (V,))
    ded = [i for i, t in enumerate(ops) if t.op in ("dedup", "dedupby")]
    R.need(bool(ded), "unique", where, "equal individuals are not removed: %s" % show(V)[:200], (V,))
    for i in ded:
        R.need(only_equal(ops[i]), "keeps-different", where, "merging neighbours drops individuals that are not equal to the one kept: %s" % show(ops[i].a[1] if len(ops[i].a) > 1 else ops[i])[:200], (ops[i],))
    if ded and last is not None:
        R.need(ded[-1] > last, "unique", where, "equal individuals are removed before the individuals are sorted", (V,))
    return base, ops, last, ded


def unique(R, where, ops, last, ded):
    """are equal individuals always neighbours when neighbours are merged?"""
    if last is None or not ded or ded[-1] < last:
        return
    if ops[ded[-1]].op == "dedupby":
        R.ok("unique-all", where, "merged by the sort key")
        return
    # sorted by fitness only: equal individuals of equal fitness need not be neighbours
    R.add("violation", "unique-all", where,
          "individuals are sorted by fitness only and then adjacent equal ones are merged; equal individuals separated by a different individual of the same fitness stay",
          "sort-by-fitness-then-adjacent-dedup")


def spec_stats(ctx, F, V):
    """statistics of the fitness values of V in order, as collecting computes them"""
    it = mk("items", mk("in0", ctx.arg(FROM, 0)))
    b = fresh_bv()
    seq = comp_of(slen(V), fit(at(V, b)), b)
    res = []
    for o in ctx.sym(FROM):
        if o.lab != "ret":
            continue
        f = F.copy()
        for l in o.F.order:
            f.add(subst(l, {it: seq}))
        if not f.bad:
            res.append((f, subst(o.val, {it: seq})))
    return res


def stats_match(ctx, R, where, F, view):
    ss = spec_stats(ctx, F, view.V)
    ok = False
    for f, s in ss:
        if f.entails(eqi(count_of(ctx, f, s), ZERO)):
            continue
        ok = True
        compare(ctx, R, f, r_stats.peel_first(f, s), r_stats.peel_first(f, view.stats), "stats-of-these-individuals", where, pa=False, pb=True)
    R.need(ok, "stats-of-these-individuals", where, "no statistics to compare with", (view.V,))


def created(ctx, R, where, o, val, X, do_unique=True):
    v = PopView(ctx, o.F, val)
    if v.V is None or v.stats is None:
        R.need(False, "observable", where, "the population has no definite contents", (val,))
        return None
    base, ops, last, ded = arrangement(R, where, v.V, X, o.F)
    if do_unique:
        unique(R, where, ops, last, ded)
    stats_match(ctx, R, where, o.F, v)
    # an empty vector never gets here
    f = o.F.copy()
    f.add(eqi(slen(X), ZERO))
    R.need(f.bad, "empty-rejected", where, "a population is made from an empty vector", (o.F,))
    return v


def p06(ctx, R):
    # creation
    x = mk("in0", ctx.arg(NEW, 0))
    n = 0
    for o in ctx.sym(NEW):
        if o.lab == "ret":
            n += 1
            created(ctx, R, NEW, o, o.val, x)
        else:
            f = o.F.copy()
            f.add(le(ONE, slen(x)))
            R.need(f.bad, "non-empty-accepted", NEW, "panics (%s) for a non-empty vector" % (o.val[0],), (o.F,))
    R.need(n > 0, "non-empty-accepted", NEW, "never returns")
    # replacement
    s, y = ctx.arg(REPLACE, 0), mk("deref", mk("in0", ctx.arg(REPLACE, 1)))
    n = 0
    for o in ctx.sym(REPLACE):
        if o.lab == "ret":
            n += 1
            created(ctx, R, REPLACE, o, o.deref(s), y)
        else:
            f = o.F.copy()
            f.add(le(ONE, slen(y)))
            R.need(f.bad, "non-empty-accepted", REPLACE, "panics (%s) for a non-empty vector" % (o.val[0],), (o.F,))
    R.need(n > 0, "non-empty-accepted", REPLACE, "never returns")
    # conversion from a vector
    tf = next((f.path for f in ctx.p.methods.get(("std::convert::TryFrom", "try_from"), []) if adt_name(f.d["impl_self"]) == "population::Population"), None)
    if tf:
        z = mk("in0", ctx.arg(tf, 0))
        for o in ctx.sym(tf):
            if o.lab != "ret":
                R.need(o.F.bad, "try-from", tf, "panics: %s" % (o.val[0],), (o.F,))
                continue
            v = o.val
            if v.op == "agg" and v.a[0] == RES and v.a[1] == 0:
                created(ctx, R, tf, o, v.a[2], z)
            elif v.op == "agg" and v.a[0] == RES:
                R.need(o.F.entails(eqi(slen(z), ZERO)), "try-from", tf, "rejects a non-empty vector", (o.F,))
                R.need(same(o.F, v.a[2], z), "try-from", tf, "hands back %s" % show(v.a[2])[:100], (v,))
            else:
                R.need(False, "try-from", tf, "neither Ok nor Err: %s" % show(v)[:100], (v,))
    # reading out
    P = mk("in0", "$pop")
    v0 = PopView(ctx, Facts(), P)
    V, am = v0.V, v0.stat(ctx, Facts(), "arg_max")
    inv = lt(am, slen(V))
    for name, owned in (("fittest", False), ("take_fittest", True)):
        w = POP + name
        for o in ctx.observe(state_with(inv), w, P, owned=owned):
            if o.lab != "ret":
                R.need(o.F.bad, "fittest-total", w, "panics although the statistics are those of the individuals: %s" % (o.val[0],), (o.F,))
                continue
            R.need(same(o.F, o.val, at(V, am)), "fittest-at-arg-max", w, "hands out %s" % show(o.val)[:200], (o.val,))
    arg_in_range(ctx, R)
    vf = next((f.path for f in ctx.p.methods.get(("std::convert::From", "from"), []) if f.path.startswith("population::<impl")), None)
    if vf:
        p = mk("in0", ctx.arg(vf, 0))
        pv = PopView(ctx, Facts(), p)
        for o in ctx.sym(vf):
            R.need(o.lab == "ret" and same(o.F, o.val, pv.V), "into-vector", vf, "the vector handed out is not the individuals", (o.val,) if o.lab == "ret" else ())


def state_with(*ls):
    st = engine.new_state()
    for l in ls:
        st.assume(l)
    return st


def arg_in_range(ctx, R):
    """collected statistics: arg_min and arg_max stay below the count (induction over the samples)"""
    it = mk("items", mk("in0", ctx.arg(FROM, 0)))
    L = slen(it)
    n = mk("in0", "$n")
    outs = []
    for o in ctx.sym(FROM):
        f = o.F.copy()
        f.add(le(ONE, L))
        if o.lab == "ret" and not f.bad:
            outs.append(o)
    if len(outs) > 1:
        R = Soft(R)
    for o in outs:
        for a in ("arg_max", "arg_min"):
            def read(F, val):
                r = [r_stats.opt(v)[1] for _, v in r_stats.obs(ctx, F, val, a) if r_stats.opt(v)[0] == "some"]
                return r[0] if len(r) == 1 else None
            F1 = Facts()
            F1.add(le(ONE, n))
            one = read(F1, subst(o.val, {L: ONE}))
            tn = read(F1, subst(o.val, {L: n}))
            tn1 = read(F1, r_stats.peel(F1, subst(o.val, {L: addc(n, 1)})))
            good = one is not None and tn is not None and tn1 is not None and F1.entails(lt(one, ONE))
            if good:
                F1.add(lt(tn, n))
                good = all(g.entails(lt(v, addc(n, 1))) for g, (v,) in splits(F1, tn1))
            R.need(good, "arg-in-range", FROM, "%s may not be an index of a sample" % a, (o.val,))


# ------------------------------------------------------------------------- P08
def p08(ctx, R):
    for o in ctx.sym(NEW):
        if o.lab == "ret":
            v = PopView(ctx, o.F, o.val)
            R.need(v.gen is not None and o.F.entails(eqi(v.gen, ZERO)), "new-generation-zero", NEW, "generation of a new population is %s" % show(v.gen), (v.gen,))
            R.need(v.stag is not None and o.F.entails(eqi(v.stag, ZERO)), "new-stagnation-zero", NEW, "stagnation of a new population is %s" % show(v.stag), (v.stag,))
    s = ctx.arg(REPLACE, 0)
    P = mk("deref", mk("in0", s))
    v0 = PopView(ctx, Facts(), P)
    before = v0.stat(ctx, Facts(), "max")
    n = 0
    for o in ctx.sym(REPLACE):
        if o.lab != "ret":
            continue
        n += 1
        v = PopView(ctx, o.F, o.deref(s))
        after = v.stat(ctx, o.F, "max")
        R.need(o.F.entails(eqi(v.gen, addc(v0.gen, 1))), "generation-plus-one", REPLACE, "generation becomes %s" % show(v.gen), (v.gen,))
        better = fcmp("flt", before, after)
        want = ite(better, ZERO, addc(v0.stag, 1))
        R.need(all(numbers(f).entails(eqi(x, y)) for f, (x, y) in splits(numbers(o.F), v.stag, want)), "stagnation", REPLACE,
               "stagnation becomes %s under %s" % (show(v.stag), ", ".join(show(l)[:160] for l in o.F.order if l.op in ("flt", "fle") or (l.op == "not" and l.a[0].op in ("flt", "fle")))), (v.stag, better))
    R.need(n > 0, "generation-plus-one", REPLACE, "never returns")
    # the counters are only read through the accessors of this value
    for name in ("generation", "stagnation"):
        p = POP + name
        outs = ctx.sym(p)
        R.need(len(outs) == 1 and outs[0].lab == "ret" and not imprecise(outs[0].val), "accessor-plain", p, "accessor is not a plain read", ())
    v2 = [v0.gen, v0.stag]
    R.need(v2[0] is not v2[1], "accessor-plain", POP + "stagnation", "generation and stagnation read the same value")


# ------------------------------------------------------------------------- P07
INTERIOR = ("std::cell::Cell", "std::cell::RefCell", "std::cell::UnsafeCell", "std::sync::Mutex", "std::sync::RwLock", "std::cell::OnceCell", "std::sync::OnceLock")
OPENING = ("std::ops::DerefMut", "std::convert::AsMut", "std::borrow::BorrowMut", "std::ops::IndexMut", "std::default::Default", "std::iter::FromIterator", "std::iter::Extend", "std::convert::From")


def has_mut_ref(t):
    if isinstance(t, dict):
        if t.get("k") == "ref" and t.get("mut"):
            return True
        if t.get("p", "").endswith(("IterMut", "ChunksMut", "RefMut")):
            return True
        return any(has_mut_ref(v) for v in t.values())
    if isinstance(t, list):
        return any(has_mut_ref(x) for x in t)
    return False


def mut_of(t, name):
    """does the type give mutable access to `name`?"""
    if isinstance(t, dict):
        if t.get("k") == "ref" and t.get("mut") and r_stats.mentions(t.get("t"), name):
            return True
        return any(mut_of(v, name) for v in t.values())
    if isinstance(t, list):
        return any(mut_of(x, name) for x in t)
    return False


def p07(ctx, R):
    P = "population::Population"
    adt = ctx.p.adts.get(P)
    if adt is None:
        raise Missing(P)
    for v in adt["variants"]:
        for fl in v["fields"]:
            R.need(fl["vis"] != "pub", "fields-private", P, "field %s is public" % fl["name"], key="fields-private|" + fl["name"])
            R.need(not any(r_stats.mentions(fl["ty"], x) for x in INTERIOR), "no-interior-mutability", P, "field %s can change behind a shared reference" % fl["name"])
    for im in ctx.p.impls:
        if adt_name(im["self"]) == P:
            R.need(im["trait"] not in OPENING, "no-opening-impl", P, "implements %s" % im["trait"], key="no-opening-impl|%s" % im["trait"])
    n = m = 0
    for f in ctx.p.fns.values():
        d = f.d
        if f.is_closure:
            continue
        outside = d.get("reach") or d.get("exported") or d.get("impl_trait") or d.get("vis") == "pub"
        if not outside:
            continue
        ins = d.get("inputs") or []
        if any(r_stats.mentions(t, P) for t in ins):
            n += 1
            R.need(not (has_mut_ref(d.get("output"))), "no-mutable-view", f.path, "returns a mutable reference", key="no-mutable-view|" + f.path)
        if any(mut_of(t, P) for t in ins):
            m += 1
            mutator(ctx, R, f, [i for i, t in enumerate(ins) if mut_of(t, P)])
        if by_value(d.get("output"), P):
            maker(ctx, R, f)
    R.need(m > 0, "mutators", P, "no function replaces a population")
    R.assumptions.append("safe code outside the crate obeys Rust's privacy and borrowing rules (checked by rustc)")
    for path, u in unsafe_in(ctx):
        R.need(False, "no-unsafe", path, "unsafe code can bypass the encapsulation")


def unsafe_in(ctx):
    return [(u.get("fn") or u.get("span") or str(u), u) for u in ctx.dump.get("unsafe_blocks") or []]


def quiet_report(R):
    q = Report(R.pid, R.tier, R.seed)
    return q


def mutator(ctx, R, f, idx):
    """any function that can change a population leaves it unchanged or canonical"""
    for i in idx:
        name = ctx.arg(f.path, i)
        P = mk("deref", mk("in0", name))
        v0 = PopView(ctx, Facts(), P)
        for o in ctx.sym(f.path):
            if o.lab != "ret":
                continue
            new = o.deref(name)
            if new is P:
                R.ok("mutator-keeps-invariants", f.path, "leaves the population alone")
                continue
            v = PopView(ctx, o.F, new)
            if v.V is v0.V and v.stats is v0.stats:
                R.ok("mutator-keeps-invariants", f.path, "leaves individuals and statistics alone")
                continue
            canonical(ctx, R, f.path, o, v, "mutator-keeps-invariants")


def canonical(ctx, R, where, o, v, rule):
    q = quiet_report(R)
    base, ops = chain(v.V)
    arrangement(q, where, v.V, base, o.F)
    stats_match(ctx, q, where, o.F, v)
    bad = [x for x in q.obl if x[0] == "violation"]
    R.need(not bad, rule, where, "; ".join("%s: %s" % (x[1], x[3]) for x in bad)[:400], (v.V, v.stats))


def maker(ctx, R, f):
    """any function that yields a population yields a canonical one (or one it was given)"""
    if f.d.get("impl_trait") == "std::clone::Clone":
        return
    if f.d.get("impl_trait") == EA or f.path.startswith((EA, "evolution::")):
        # whole runs and initialisation: they go through creation and replacement (checked call by call)
        builds_only_via(ctx, R, f)
        return
    for o in ctx.sym(f.path):
        if o.lab != "ret":
            continue
        v = o.val
        if v.op == "agg" and v.a[0] in (OPT, RES):
            if (v.a[0] == OPT and v.a[1] == 0) or (v.a[0] == RES and v.a[1] == 1):
                continue
            v = v.a[2]
        if v.op in ("in0", "deref"):
            continue
        canonical(ctx, R, f.path, o, PopView(ctx, o.F, v), "maker-canonical")


def builds_only_via(ctx, R, f):
    """no population is put together outside the population module"""
    bad = []
    for g in ctx.p.fns.values():
        if g.path == f.path or g.path.startswith(f.path + "::{"):
            for b in g.blocks:
                for s in b["s"]:
                    v = s.get("v") or {}
                    if v.get("r") == "agg" and v.get("adt") == "population::Population":
                        bad.append(s.get("sp"))
    R.need(not bad, "maker-canonical", f.path, "puts a population together at %s" % bad)


# ------------------------------------------------------------------------- P31
def p31(ctx, R):
    cf = "operators::compare_fitness"
    # the arguments are references: their fitness
    outs = ctx.sym(cf)
    a, b = [mk("in0", ctx.arg(cf, i)) for i in (0, 1)]
    fa, fb = fit(mk("deref", a)), fit(mk("deref", b))
    alt = (fit(a), fit(b))
    used = any(occurs(l, lambda t: t is alt[0]) for o in outs for l in o.F.order)
    if used:
        fa, fb = alt
    ordering(R, cf, [(o.lab, o.F, o.val) for o in outs], fa, fb, False)
    W = "individual::IndividualWrapper"
    if W not in ctx.p.adts:
        raise Missing(W)
    dr = method(ctx, "std::ops::Deref", "deref", W)
    inner = lambda w: ctx.observe1(engine.new_state(), dr, w)
    for tr, names in (("std::cmp::PartialEq", ("eq", "ne")), ("std::cmp::PartialOrd", ("partial_cmp", "lt", "le", "gt", "ge")), ("std::cmp::Ord", ("cmp", "max", "min", "clamp"))):
        for nm in names:
            path = method(ctx, tr, nm, W)
            if path is None:
                if nm in ("eq", "partial_cmp", "cmp"):
                    raise Missing("%s for %s" % (nm, W))
                continue
            A, B = [mk("deref", mk("in0", ctx.arg(path, i))) for i in (0, 1)]
            fa, fb = fit(inner(A)), fit(inner(B))
            outs = [(o.lab, o.F, o.val) for o in ctx.sym(path)]
            if nm in ("cmp", "partial_cmp"):
                ordering(R, path, outs, fa, fb, nm == "partial_cmp")
            elif nm in ("eq", "ne", "lt", "le", "gt", "ge"):
                want = {"eq": fcmp("feq", fa, fb), "ne": bnot(fcmp("feq", fa, fb)), "lt": fcmp("flt", fa, fb), "le": fcmp("fle", fa, fb),
                        "gt": fcmp("flt", fb, fa), "ge": fcmp("fle", fb, fa)}[nm]
                for lab, F, v in outs:
                    R.need(lab == "ret" and truth(F, v, want), "wrapper-" + nm, path, "%s under %s" % (show(v) if is_t(v) else v, [show(l) for l in F.order][:4]), (v,) if is_t(v) else ())
            else:
                R.undecided("wrapper-" + nm, path, "overridden comparison helper is not analysed")
    # wrapping and unwrapping
    fr = method(ctx, "std::convert::From", "from", W)
    tk = W + "::<I>::take"
    i = mk("in0", ctx.arg(fr, 0))
    for o in ctx.sym(fr):
        R.need(o.lab == "ret" and not imprecise(o.val), "wrap-unwrap", fr, "wrapping does not simply wrap", ())
        if o.lab != "ret":
            continue
        for p in ctx.observe(o.st, tk, o.val, owned=True):
            R.need(p.lab == "ret" and same(p.F, p.val, i), "wrap-unwrap", tk, "unwrapping gives %s" % (show(p.val) if is_t(p.val) else p.val), ())
        for p in ctx.observe(o.st, dr, o.val):
            R.need(p.lab == "ret" and same(p.F, p.val, i), "wrap-deref", dr, "dereferencing gives %s" % (show(p.val) if is_t(p.val) else p.val), ())
    dm = method(ctx, "std::ops::DerefMut", "deref_mut", W)
    if dm:
        x = skolem("w")
        vs = [ctx.observe1(engine.new_state(), d, x) for d in (dr, dm)]
        R.need(vs[0] is not None and vs[0] is vs[1], "wrap-deref", dm, "mutable and shared dereferencing differ: %s" % (vs,), ())


def truth(F, v, want):
    if v is want:
        return True
    f = F.copy()
    f.add(want)
    g = F.copy()
    g.add(bnot(want))
    return (f.bad or f.entails(v)) and (g.bad or g.entails(bnot(v)))


def method(ctx, tr, name, adt):
    for f in ctx.p.methods.get((tr, name), []):
        if adt_name(f.d["impl_self"]) == adt:
            return f.path
    return None


def ordering(R, path, outs, fa, fb, partial):
    kinds = set()
    a, c, e = fcmp("flt", fa, fb), fcmp("flt", fb, fa), fcmp("feq", fa, fb)
    for lab, F, v in outs:
        if lab != "ret":
            R.need(F.bad, "ordering-total", path, "panics: %s" % (v[0],), (F,))
            continue
        for f, (x,) in splits(F, v):
            none = False
            if partial:
                if x.op == "agg" and x.a[0] == OPT and x.a[1] == 0:
                    none = True
                elif x.op == "agg" and x.a[0] == OPT:
                    x = x.a[2]
            if none:
                R.need(all(f.entails(bnot(l)) for l in (a, c, e)), "ordering", path, "comparable fitness values compare as nothing", (f,))
                kinds.add(None)
                continue
            if x.op != "agg" or x.a[0] != ORD:
                R.need(False, "ordering", path, "not a definite ordering: %s" % show(x)[:200], (x,))
                continue
            k = ordk(x)
            kinds.add(k)
            if k < 0:
                good = f.entails(a)
            elif k > 0:
                good = f.entails(c)
            elif partial:
                good = f.entails(e)
            else:
                good = f.entails(bnot(a)) and f.entails(bnot(c))
            R.need(good, "ordering", path, "compares as %s under %s" % (x, [show(l) for l in f.order][:6]), (x, f), key="ordering|%s|%s" % (path, k))
    R.need({-1, 0, 1} <= kinds, "ordering", path, "never yields some of less, equal, greater: %s" % (kinds,))


RULES = {"P06": p06, "P07": p07, "P08": p08, "P31": p31}
