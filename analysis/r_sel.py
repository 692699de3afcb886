"""P09 valid index, P10 tournament, P11 roulette/Boltzmann, P12 rank based, P13 select_distinct,
selector parts of P15 and P26"""
from base import *
from base import F as FL
from r_pop import DEREF

SEL = "operators::selection::"
DISTINCT = SM + "::select_distinct"
LEMMA_FLOOR = "floor(len * ratio) < len for 0 <= ratio < 1 in IEEE double arithmetic (len < 2^53)"


def impls(ctx):
    r = {}
    for i in ctx.p.impls:
        if i["trait"] == SM:
            r[(i["self"] or {}).get("p") or i["self_s"]] = {x.rsplit("::", 1)[1]: x for x in i["items"]}
    return r


def impl_of(ctx, name):
    m = impls(ctx)
    if SEL + name not in m:
        raise Missing("implementation of %s for %s" % (SM, name))
    return m[SEL + name]


def names(ctx):
    m = impls(ctx)
    for n in ("TournamentSelection", "RouletteWheelSelection", "BoltzmannSelection", "RankSelection", "ElitistSelection", "LinearSelection"):
        if SEL + n not in m:
            raise Missing("implementation of %s for %s" % (SM, n))
    return m


SELF, POPN, RNG = mk("in0", "self"), mk("in0", "population"), mk("in0", "rng")


class Run:
    """prepare on a non-empty population followed by select on the same population"""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        it = impl_of(ctx, name)
        self.prep, self.sel = it["prepare"], it["select"]
        self.e = e = ctx.engine()
        st = engine.new_state()
        self.S0 = mk("deref", SELF)
        self.V = ctx.observe1(st, DEREF, mk("deref", POPN))
        if self.V is None:
            raise engine.Limit("individuals of a population")
        self.n = slen(self.V)
        st.assume(le(ONE, self.n))
        self.config(st)
        self.pre, self.post = [], []
        for o in ctx.sym(self.prep, args=[SELF, POPN], st=st, eng=e):
            if o.lab != "ret":
                self.pre.append(o)
                continue
            self.pre.append(o)
            s = o.st.fork()
            s.ev = ()
            S1 = e.read(o.st, ("D", SELF))
            for q in ctx.sym(self.sel, args=[SELF, POPN, RNG], st=s, eng=e):
                self.post.append((o, S1, q))

    def config(self, st):
        """settings only accepted values can have (P15)"""
        if self.name == "TournamentSelection":
            st.assume(le(ONE, self.acc("size", self.S0)))
        elif self.name == "ElitistSelection":
            r = self.acc("ratio", self.S0)
            st.assume(fcmp("fle", FL(0.0), r))
            st.assume(fcmp("flt", r, FL(1.0)))
        elif self.name == "BoltzmannSelection":
            st.assume(bnot(fcmp("feq", FL(0.0), self.acc("cooling_rate", self.S0))))

    def acc(self, name, val):
        v = self.ctx.observe1(engine.new_state(), SEL + self.name + "::" + name, val)
        if v is None:
            raise engine.Limit("accessor " + name)
        return v


_runs = {}


def run_of(ctx, name):
    k = (id(ctx), name)
    if k not in _runs:
        _runs[k] = Run(ctx, name)
    return _runs[k]


# ------------------------------------------------------------------ reasoning helpers
def at_index(F, j, extra=()):
    """facts with every universally quantified fact instantiated at index j where it applies"""
    f = F.copy()
    for l in F.order:
        if l.op == "forall" and f.entails(lt(j, l.a[0])):
            f.add(inst(l, j)[0])
    for l in extra:
        f.add(l)
    return f


def folds_in(t):
    return [x for x in subterms(t) if x.op == "fold"]


def fold_inv(F, X, prop):
    """induction: does prop hold of the fold X? prop(t) -> literal"""
    n, b, body, init = X.a
    if not F.entails(prop(init)):
        return False
    k, a = skolem(), skolem("a")
    (bd, ini) = inst(X, k)
    bd = subst(bd, {acc(k): a})
    f = at_index(F, k, [lt(k, n)]) if not has_bv(n) else None
    if f is None:
        return False
    f.add(lt(k, n))
    f = at_index(f, k)
    f.add(prop(a))
    return all(g.entails(prop(v)) for g, (v,) in splits(f, bd))


def fold_ge(F, X, t_of):
    """is the fold X at least t_of(k) for every k < n, and at least its initial value?"""
    n, b, body, init = X.a
    k, a = skolem(), skolem("a")
    (bd, ini) = inst(X, k)
    bd = subst(bd, {acc(k): a})
    f = F.copy()
    f.add(lt(k, n))
    f = at_index(f, k)
    for g, (v,) in splits(f, bd):
        if not g.entails(le(a, v)):
            return False
        if t_of is not None and not g.entails(le(t_of(k), v)):
            return False
    return True


def lemmas(F, goal_terms=()):
    """extend the facts by bounds of folds and of truncated products (see DESIGN.md)"""
    f = F.copy()
    ts = set()
    for l in list(F.order) + list(goal_terms):
        if l.op != "forall":
            for x in subterms(l):
                ts.add(x)
    # what holds of every earlier step holds of the last one
    for l in F.order:
        if l.op == "forall" and not has_bv(l.a[0]):
            for y in [l.a[0]] + [x for x in ts if x.op == "len" and not has_bv(x)]:
                j = sub(y, ONE)
                if f.entails(le(ONE, y)) and f.entails(lt(j, l.a[0])):
                    f.add(inst(l, j)[0])
    for x in ts:
        if has_bv(x):
            continue
        if x.op == "fold" and F:
            # upper bounds by any length mentioned
            for y in ts:
                if y.op == "len" and fold_inv(F, x, lambda t, y=y: lt(t, y)):
                    f.add(lt(x, y))
        if x.op == "f2i" and x.a[0].op == "fmul":
            p, q = x.a[0].a
            for m, r in ((p, q), (q, p)):
                if m.op == "i2f" and F.entails(le(ONE, m.a[0])) and F.entails(fcmp("flt", r, FL(1.0))):
                    f.add(lt(x, m.a[0]))
    return f


def impossible(F):
    if F.bad:
        return True
    return lemmas(F).bad


def pick(o):
    """(index, value referred to) of a selection outcome"""
    v = o.val
    if v.op != "agg" or len(v.a) != 4:
        return None
    i, r = v.a[2], v.a[3]
    return i, (o.eng.load(o.st, r) if is_t(r) and r.op == "ref" else None)


def p09(ctx, R):
    for full in sorted(names(ctx)):
        name = full.rsplit("::", 1)[1]
        if not full.startswith(SEL):
            continue
        r = run_of(ctx, name)
        for o in r.pre:
            if o.lab != "ret":
                R.need(impossible(o.F), "no-panic", r.prep, "preparing panics: %s" % (o.val,), (o.F,))
            else:
                R.ok("no-panic", r.prep)
        nret = 0
        for _, S1, o in r.post:
            if o.lab != "ret":
                R.need(impossible(o.F), "no-panic", r.sel, "selecting panics: %s" % (o.val,), (o.F,))
                continue
            R.ok("no-panic", r.sel)
            if o.F.bad:
                continue
            nret += 1
            x = pick(o)
            if x is None or x[1] is None:
                R.need(False, "index-matches", r.sel, "result is not an index with a reference to an individual: %s" % show(o.val)[:200], (o.val,))
                continue
            i, v = x
            f = lemmas(o.F, (i,))
            R.need(f.entails(lt(i, r.n)), "index-in-range", r.sel, "index %s is not always below the population size" % show(i)[:200], (i,))
            v = simp(f, v)
            R.need(v.op == "at" and same(f, v.a[0], r.V) and f.entails(eqi(v.a[1], i)) or same(f, v, at(r.V, i)) and v.op == "at" and v.a[1] is i, "index-matches", r.sel,
                   "the individual returned is %s, the index is %s" % (show(v)[:150], show(i)[:150]), (i, v))
        R.need(nret > 0, "returns", r.sel, "selection never returns")
    R.assumptions.append(LEMMA_FLOOR)


# ------------------------------------------------------------------ draws on a path
def draws(o):
    """[(kind, params, symbol, how often, index variable)] of a path; None when not countable"""
    out = []
    for e in o.st.ev:
        if e[0] == "draw":
            out.append((e[2], e[3], e[4], e[5], ONE, None))
        elif e[0] == "loop":
            backs = e[6]
            n = e[4]
            per = [[x for x in b[1] if x[0] == "draw"] for b in backs]
            if any(x[0] == "loop" and draws_inside(x) for b in backs for x in b[1]):
                return None
            per = [[(x[2], x[3], x[4], x[5]) for x in p] for p in per]
            if not any(per):
                continue
            if any(p != per[0] for p in per[1:]):
                return None
            for x in per[0]:
                out.append((x[0], x[1], x[2], x[3], n, e[3]))
    return out


def draws_inside(ev):
    return any(x[0] == "draw" or x[0] == "loop" and draws_inside(x) for b in ev[6] for x in b[1])


def total(ds):
    t = ZERO
    for d in ds:
        t = add(t, d[4])
    return t


def p10(ctx, R):
    r = run_of(ctx, "TournamentSelection")
    size = r.acc("size", r.S0)
    nret = 0
    for o, S1, q in r.post:
        if q.lab != "ret" or q.F.bad:
            continue
        nret += 1
        R.need(same(q.F, r.acc("size", S1), size), "prepare-keeps-size", r.prep, "preparing changes the tournament size to %s" % show(r.acc("size", S1)), (S1,))
        ds = draws(q)
        if ds is None:
            R.undecided("exactly-size-draws", r.sel, "draws on the path cannot be counted")
            continue
        f = lemmas(q.F)
        tot = total(ds)
        R.need(f.entails(eqi(tot, size)), "exactly-size-draws", r.sel, "%s candidates are drawn, the tournament size is %s" % (show(tot), show(size)), (tot,))
        for d in ds:
            R.need(d[0] == "int" and same(f, d[2], (ZERO, r.n)), "uniform-candidates", r.sel, "a candidate is drawn as %s %s, not uniformly from the population" % (d[0], show(d[2])), (d[2],))
            R.need(same(f, d[1], mk("deref", RNG)), "uniform-candidates", r.sel, "a candidate is not drawn from the given generator: %s" % show(d[1]), (d[1],))
        x = pick(q)
        i = x[0] if x else None
        if i is None:
            R.undecided("greatest-candidate", r.sel, show(q.val)[:200])
            continue
        R.need(best_of(f, i, ds), "greatest-candidate", r.sel, "the chosen index %s is not the greatest candidate" % show(i)[:300], (i,))
        R.need(not depends(q, i, r), "ignores-individuals", r.sel, "the choice depends on the individuals: %s" % depends(q, i, r), ())
    R.need(nret > 0, "greatest-candidate", r.sel, "selection never returns")


def best_of(f, i, ds):
    """is i the greatest of the draws?"""
    for f, (i,) in splits(f, i):
        singles = [d[3] for d in ds if d[5] is None]
        loops = [d for d in ds if d[5] is not None]

        def top(t, fuel=6):
            """all candidates t stands for are draws; returns facts extended with t >= them"""
            if t.op == "fold" and fuel:
                n, b, body, init = t.a
                ini = top(init, fuel - 1)
                if ini is None:
                    return None
                k, a = skolem(), skolem("a")
                bd = subst(inst(t, k)[0], {acc(k): a})
                g0 = f.copy()
                g0.add(lt(k, n))
                g0 = at_index(g0, k)
                here = [subst(d[3], {d[5]: k}) for d in loops if f.entails(eqi(d[4], n))]
                if not here:
                    return None
                for g, (v,) in splits(g0, bd):
                    if not all(g.entails(le(x, v)) for x in here + [a]):
                        return None
                    if not any(g.entails(eqi(x, v)) for x in here + [a]):
                        return None
                return ini + [d for d in loops if f.entails(eqi(d[4], n))]
            if any(t is s for s in singles):
                return [t]
            if t.op == "int" and t is ZERO and f.entails(le(ONE, total(ds))):
                return []       # no candidate is below 0, and there is at least one candidate
            if t.op == "max":
                r = []
                for x in t.a:
                    y = top(x, fuel - 1)
                    if y is None:
                        return None
                    r += y
                return r
            return None
        got = top(i)
        if got is None:
            # chosen among the single draws by comparisons
            if loops or not any(f.entails(eqi(i, s)) for s in singles):
                return False
            if not all(f.entails(le(s, i)) for s in singles):
                return False
            continue
        for s in singles:
            if not any(s is g for g in got) and not f.entails(le(s, i)):
                return False
        for d in loops:
            if not any(d is g for g in got):
                return False
    return True


def depends(o, i, r):
    """fitness or individuals the index or the path condition depends on (None if nothing)"""
    P = mk("deref", POPN)
    size = slen(r.V)
    counts = [size]
    st = r.ctx.observe1(engine.new_state(), "population::Population::<I>::stats", P)
    if st is not None and st.op == "ref":
        st = None
    if st is not None:
        c = r.ctx.observe1(engine.new_state(), "stats::PopulatedStats::count", st)
        if c is not None:
            counts.append(c)
    for t in [i] + list(o.F.order):
        for x in walk(t, stop=counts):
            if x.op == "fitness" or x.op == "at" and x.a[0] is r.V or x is P:
                return show(t)[:120]
    return None


def walk(t, seen=None, stop=()):
    seen = set() if seen is None else seen
    if t in seen or any(t is s for s in stop):
        return
    seen.add(t)
    yield t
    todo = list(t.a)
    while todo:
        x = todo.pop()
        if is_t(x):
            yield from walk(x, seen, stop)
        elif isinstance(x, tuple):
            todo += x


# ------------------------------------------------------------------ cumulative selection
def psum(F, t, w):
    """count k such that t is the running sum of w(0..k) from zero (any addition order of two)"""
    if t.op == "fl":
        return ZERO if t.a[0] == 0.0 else None
    if t.op == "fold":
        n, b, body, init = t.a
        c = psum(F, init, w)        # an initial value may already be the sum over the first ones
        if c is None or has_bv(init):
            return None
        k = skolem()
        bd = inst(t, k)[0]
        if bd.op != "fadd":
            return None
        for x, y in (bd.a, bd.a[::-1]):
            if x is acc(k):
                f = F.copy()
                f.add(lt(k, n))
                return add(n, c) if same(f, y, w(add(k, c))) else None
        return None
    if t.op == "fadd":
        for x, y in (t.a, t.a[::-1]):
            k = psum(F, x, w)
            if k is not None and same(F, y, w(k)):
                return addc(k, 1)
        return None
    k = ZERO
    if same(F, t, w(ZERO)):
        return ONE
    return None


def reached_lit(F, l, T, w):
    """(positive?, k): the literal says T <= (or not) the running sum over the first k; strict counts as not exact"""
    neg = l.op == "not"
    c = l.a[0] if neg else l
    if c.op == "fle":
        a, b = c.a
        if T(a):
            k = psum(F, b, w)
            if k is not None:
                return (not neg, k)
    if c.op == "flt":
        a, b = c.a
        if T(b):
            k = psum(F, a, w)
            if k is not None:
                return (neg, k)
    return None


def plain_sums(F):
    """are all comparisons on the path between sums of the expected shape (added up, not subtracted)?"""
    return not any(occurs(l, lambda x: x.op == "fold" and occurs(x.a[2], lambda y: y.op == "fsub")) for l in F.order)


def cumulative(ctx, R, name, weight):
    r = run_of(ctx, name)
    nret = 0
    for o, S1, q in r.post:
        if q.lab != "ret" or q.F.bad:
            continue
        nret += 1
        w = weight(r, R, q, S1)
        ds = draws(q)
        if ds is None or len(ds) != 1 or ds[0][5] is not None:
            R.need(False, "one-unit-draw", r.sel, "a selection does not make exactly one draw: %s" % (ds and [d[0] for d in ds]), (q.val,))
            continue
        R.need(ds[0][0] == "unit" and same(q.F, ds[0][1], mk("deref", RNG)), "one-unit-draw", r.sel, "the draw is %s" % ds[0][0])
        u = ds[0][3]
        bad = []

        def T(t):
            if t.op != "fmul" or len(t.a) != 2:
                return False
            for x, y in (t.a, t.a[::-1]):
                if x is u:
                    k = psum(q.F, y, w)
                    if k is not None and q.F.entails(eqi(k, r.n)):
                        return True
                    bad.append(y)
            return False
        x = pick(q)
        if x is None:
            R.undecided("first-reaching", r.sel, show(q.val)[:200])
            continue
        i = x[0]
        F0 = q.F
        pos = any((rl := reached_lit(F0, l, T, w)) and rl[0] and F0.entails(eqi(rl[1], addc(i, 1))) for l in F0.order)

        def none_before(n):
            k = skolem()
            f = F0.copy()
            f.add(lt(k, n))
            if f.bad:
                return True
            f = at_index(f, k)
            for l in f.order:
                rl = reached_lit(f, l, T, w)
                if rl and not rl[0] and f.entails(eqi(rl[1], addc(k, 1))):
                    return True
            return False
        if pos:
            R.need(none_before(i), "first-reaching", r.sel, "an individual is returned although an earlier one may have reached the target", (F0,))
        else:
            why = "index %s is returned although the running sum need not have reached the target there" % show(i)[:100]
            if bad:
                why += " (the target is not the draw times the sum of all weights: %s)" % show(bad[0])[:200]
            last = F0.entails(eqi(i, sub(r.n, ONE)))
            none = none_before(sub(r.n, ONE) if last else r.n)
            R.need(none, "first-reaching", r.sel, why, (F0,) if plain_sums(F0) else (mk("unk"),))
            if none:
                R.need(F0.entails(eqi(i, sub(r.n, ONE))), "last-as-fallback", r.sel, "when no running sum reaches the target, %s is returned and not the last individual" % show(i)[:100], (i,))
    R.need(nret > 0, "first-reaching", r.sel, "selection never returns")


def p11(ctx, R):
    def w1(r, R, q, S1):
        return lambda k: mk("fitness", at(r.V, k))

    def w2(r, R, q, S1):
        t0, c0 = r.acc("temperature", r.S0), r.acc("cooling_rate", r.S0)
        t1, c1 = r.acc("temperature", S1), r.acc("cooling_rate", S1)
        t = fbin("fmul", t0, c0)
        R.need(same(q.F, t1, t), "cooled-once", r.prep, "the temperature after preparing is %s" % show(t1)[:100], (t1,))
        R.need(same(q.F, c1, c0), "cooled-once", r.prep, "preparing changes the cooling rate to %s" % show(c1)[:100], (c1,))
        return lambda k: mk("fexp", fbin("fdiv", mk("fitness", at(r.V, k)), t))
    cumulative(ctx, R, "RouletteWheelSelection", w1)
    cumulative(ctx, R, "BoltzmannSelection", w2)


def p12(ctx, R):
    for name in ("RankSelection", "LinearSelection", "ElitistSelection"):
        r = run_of(ctx, name)
        nret = 0
        for o, S1, q in r.post:
            if q.lab != "ret" or q.F.bad or impossible(q.F):
                continue
            nret += 1
            x = pick(q)
            if x is None:
                R.undecided("position-only", r.sel, show(q.val)[:200])
                continue
            i = x[0]
            R.need(depends(q, i, r) is None, "position-only", r.sel, "the index depends on the individuals: %s" % depends(q, i, r), (i,))
            if name == "LinearSelection":
                R.need(same(q.F, r.acc("bias", S1), r.acc("bias", r.S0)), "keeps-parameter", r.prep, "preparing changes the bias", (S1,))
                continue
            ds = draws(q)
            if ds is None or len(ds) != 1 or ds[0][0] != "int" or ds[0][5] is not None:
                R.need(False, "one-draw", r.sel, "a selection does not make exactly one integer draw: %s" % (ds and [d[0] for d in ds]), (i,))
                continue
            lo, hi = ds[0][2]
            d = ds[0][3]
            R.need(same(q.F, ds[0][1], mk("deref", RNG)), "one-draw", r.sel, "not drawn from the given generator", (ds[0][1],))
            f = lemmas(q.F, (i,))
            if name == "ElitistSelection":
                ratio = r.acc("ratio", r.S0)
                R.need(same(f, r.acc("ratio", S1), ratio), "keeps-parameter", r.prep, "preparing changes the ratio", (S1,))
                c = sub(i, d)
                bound = f2i(mk("ffloor", fbin("fmul", i2f(r.n), ratio)))
                R.need(same(f, add(lo, c), bound), "elitist-range", r.sel, "the lowest index drawn is %s, not floor(n*ratio)" % show(add(lo, c))[:200], (lo, i))
                R.need(same(f, add(hi, c), r.n), "elitist-range", r.sel, "the index range ends at %s, not at the last individual" % show(add(hi, c))[:200], (hi, i))
                continue
            n2 = tri(addc(r.n, 1))
            R.need(f.entails(eqi(sub(hi, lo), n2)), "rank-draw", r.sel, "the draw ranges over %s values, not n(n+1)/2" % show(sub(hi, lo))[:150], (lo, hi))
            t = add(sub(d, lo), ONE)    # the draw counted from 1
            if f.entails(le(t, tri(addc(i, 2)))):
                k = skolem()
                g = f.copy()
                g.add(lt(k, i))
                g = at_index(g, k)
                R.need(g.bad or g.entails(lt(tri(addc(k, 2)), t)), "first-reaching", r.sel, "an index is returned although an earlier rank sum may have reached the draw", (f,))
            else:
                # fallback: must be unreachable because the rank sums reach every draw
                g = at_index(f, sub(r.n, ONE))
                R.need(g.bad, "first-reaching", r.sel, "index %s is returned although the rank sum need not have reached the draw there" % show(i)[:100], (f, i))
        R.need(nret > 0, "returns", r.sel, "selection never returns")


def p13(ctx, R):
    todo = [(DISTINCT, None)]
    for full, it in impls(ctx).items():
        if "select_distinct" in it:
            todo.append((it["select_distinct"], full))
    for path, own in todo:
        f0 = ctx.fn(path)
        a = ["self", "population", "rng", "max_tries", "excluded"]
        args = [mk("in0", x) for x in a]
        e = ctx.engine(hooks=[(SM, "select")])
        mt, ex = args[3], mk("deref", args[4])
        nsome = nnone = unclear = 0
        for o in ctx.sym(path, args=args, st=engine.new_state(), eng=e):
            if o.lab != "ret":
                R.need(o.F.bad, "no-panic", path, "panics: %s" % (o.val,), (o.F,))
                continue
            calls, cnt = [], ZERO
            for ev in o.st.ev:
                if ev[0] == "hook" and ev[2].endswith("::select"):
                    calls.append((ev[3], ev[5], None, ONE))
                    cnt = addc(cnt, 1)
                elif ev[0] == "loop":
                    per = [[x for x in b[1] if x[0] == "hook" and x[2].endswith("::select")] for b in ev[6]]
                    m = max([len(p) for p in per] or [0])
                    cnt = add(cnt, scale(ev[4], m))
                    for p in per:
                        for x in p:
                            calls.append((x[3], x[5], ev[3], ev[4]))
            R.need(o.F.entails(le(cnt, mt)), "at-most-max-tries", path, "%s attempts are made, %s are allowed" % (show(cnt), show(mt)), (cnt,))
            for c in calls:
                R.need(same(o.F, c[0], tuple(args[:3])), "attempts", path, "an attempt selects with other arguments: %s" % show(c[0])[:150], (c[0],))
            for f, (v,) in splits(o.F, o.val):
                if v.op != "agg":
                    unclear += 1
                    R.need(False, "result", path, show(v)[:200], (v,))
                    continue
                if len(v.a) == 2:   # None: every attempt equal to the excluded one, all attempts made
                    nnone += 1
                    R.need(f.entails(eqi(cnt, mt)), "all-tries-before-none", path, "nothing is returned after %s of %s attempts" % (show(cnt), show(mt)), (cnt,))
                    R.need(all_equal(f, calls, ex, None), "none-means-equal", path, "nothing is returned although an attempt need not have been equal to the excluded individual", (f,))
                    continue
                nsome += 1
                t = v.a[2]
                src = [c for c in calls if c[2] is None and comes_from(f, t, c[1])]
                if not src and f.entails(lt(ZERO, cnt)):
                    # handed on by the last round
                    for c in calls:
                        if c[2] is not None:
                            m = {c[2]: addc(c[3], -1)}
                            if comes_from(f, t, subst(c[1], m)):
                                src = [(c[0], subst(c[1], m), None, ONE)]
                                calls = [(y[0], y[1], y[2], addc(y[3], -1)) if y[2] is c[2] else y for y in calls]
                                break
                R.need(len(src) == 1, "candidate-with-its-index", path, "the result %s is not one selected candidate with its index" % show(t)[:200], (t,))
                if len(src) != 1:
                    continue
                cand = mk("deref", fld(src[0][1], 1, "()", 0, 2))
                R.need(f.entails(bnot(peq(cand_of(e, o, t), ex))) or f.entails(bnot(peq(cand, ex))), "differs", path, "the individual returned may equal the excluded one", (f,))
                R.need(all_equal(f, calls, ex, src[0]), "first-different", path, "an earlier attempt may have produced a different individual", (f,))
        if not unclear:
            R.need(nsome > 0, "result", path, "never returns a candidate")
            R.need(nnone > 0, "result", path, "never returns nothing")


def cand_of(e, o, t):
    r = fld(t, 1, "()", 0, 2)
    try:
        return e.load(o.st, r) if r.op == "ref" else mk("deref", r)
    except Exception:
        return mk("deref", r)


def comes_from(f, t, r):
    if same(f, t, r):
        return True
    return same(f, fld(t, 0, "()", 0, 2), fld(r, 0, "()", 0, 2)) and same(f, fld(t, 1, "()", 0, 2), fld(r, 1, "()", 0, 2))


def all_equal(f, calls, ex, but):
    for c in calls:
        if c is but:
            continue
        if c[2] is None:
            v = mk("deref", fld(c[1], 1, "()", 0, 2))
            if f.entails(peq(v, ex)):
                continue
            # what let the first round of a loop take place, or left it out
            for n in {x[3] for x in calls if x[2] is not None}:
                g = f.copy()
                g.add(eq0(n))
                h = f.copy()
                h.add(lt(ZERO, n))
                if (g.bad or decided(at_index(g, ZERO)).entails(peq(v, ex))) and (h.bad or decided(at_index(h, ZERO)).entails(peq(v, ex))):
                    break
            else:
                return False
            continue
        k = skolem()
        g = f.copy()
        g.add(lt(k, c[3]))
        if g.bad:
            continue
        v = mk("deref", fld(subst(c[1], {c[2]: k}), 1, "()", 0, 2))
        if decided(at_index(g, k)).entails(peq(v, ex)) or decided(at_index(g, addc(k, 1))).entails(peq(v, ex)):
            continue
        # or it is what let the round after it take place, if there was one
        last = addc(c[3], -1)
        h = g.copy()
        h.add(lt(k, last))
        if not (h.bad or decided(at_index(h, addc(k, 1))).entails(peq(v, ex))):
            return False
        v = mk("deref", fld(subst(c[1], {c[2]: last}), 1, "()", 0, 2))
        h = f.copy()
        h.add(le(ZERO, last))
        if not (h.bad or decided(h).entails(peq(v, ex))):
            return False
    return True


# ------------------------------------------------------------------ parameters
FLT01 = ("ratio",)


def settings(ctx, R):
    """constructors and setters reject exactly the invalid values and store the valid ones"""
    zero_f, one_f = FL(0.0), FL(1.0)
    spec = {
        "TournamentSelection": {"size": lambda x: bnot(eqi(x, ZERO))},
        "ElitistSelection": {"ratio": lambda x: band(fcmp("fle", zero_f, x), fcmp("flt", x, one_f))},
        "BoltzmannSelection": {"temperature": lambda x: TRUE, "cooling_rate": lambda x: bnot(fcmp("feq", x, zero_f))},
        "LinearSelection": {"bias": lambda x: TRUE},
    }
    for name, ps in spec.items():
        new = SEL + name + "::new"
        args = [mk("in0", "$p_" + p) for p in ps]
        valid = band(*[ps[p](a) for p, a in zip(ps, args)])
        accept_exactly(ctx, R, new, args, engine.new_state(), valid,
                       lambda o, name=name, ps=ps, args=args: [(p, ctx.observe1(o.st, SEL + name + "::" + p, o.val), a) for p, a in zip(ps, args)])
        for p in ps:
            setter = SEL + name + "::set_" + p
            if ctx.p.get(setter) is None:
                continue
            x = mk("in0", "$x")
            S = mk("in0", "$self")

            def after(o, p=p, ps=ps, name=name, S=S, x=x):
                v = o.eng.read(o.st, ("O", "self"))
                r = []
                for q in ps:
                    old = ctx.observe1(engine.new_state(), SEL + name + "::" + q, S)
                    r.append((q, ctx.observe1(o.st, SEL + name + "::" + q, v), x if q == p else old))
                return r
            st = engine.new_state()
            ref = engine.ref(("O", "self"), (), True)
            st.mem[ref.a[0]] = S
            accept_exactly(ctx, R, setter, [ref, x], st, ps[p](x), after)
            # rejected settings never take effect: the value is unchanged when the setter panics
            for o in ctx.sym(setter, args=[ref, x], st=fresh_self(S), eng=ctx.engine()):
                if o.lab != "ret":
                    v = o.eng.read(o.st, ("O", "self"))
                    for q in ps:
                        old = ctx.observe1(engine.new_state(), SEL + name + "::" + q, S)
                        now = ctx.observe1(o.st, SEL + name + "::" + q, v)
                        R.need(now is not None and same(o.F, now, old), "rejected-has-no-effect", setter, "%s is changed to %s although the value is rejected" % (q, now and show(now)), (now,))


def fresh_self(S):
    st = engine.new_state()
    st.mem[("O", "self")] = S
    return st


def accept_exactly(ctx, R, path, args, st, valid, fields):
    for o in ctx.sym(path, args=args, st=st, eng=ctx.engine()):
        if o.lab != "ret":
            f = o.F.copy()
            f.add(valid)
            R.need(f.bad, "accepts-valid", path, "panics (%s) although the value may be valid" % (o.val,), (o.F,))
            continue
        f = o.F.copy()
        f.add(bnot(valid))
        R.need(f.bad or o.F.entails(valid), "rejects-invalid", path, "returns although the value may be invalid", (o.F,))
        for p, got, want in fields(o):
            R.need(got is not None and same(o.F, got, want), "takes-effect", path, "%s is %s afterwards" % (p, got and show(got)), (got,))


def p15_selectors(ctx, R):
    settings(ctx, R)


def variants(ctx, adt):
    a = ctx.p.adts.get(adt)
    if a is None:
        raise Missing(adt)
    return [(i, v["name"], len(v["fields"])) for i, v in enumerate(a["variants"])]


STRATEGY = SEL + "SelectionStrategy"
KINDS = {"Tournament": ("TournamentSelection", ("size",)), "RouletteWheel": ("RouletteWheelSelection", ()), "Boltzmann": ("BoltzmannSelection", ("temperature", "cooling_rate")),
         "Rank": ("RankSelection", ()), "Linear": ("LinearSelection", ("bias",)), "Elitist": ("ElitistSelection", ("ratio",))}


def p26_selection(ctx, R):
    path = STRATEGY + "::create_selector"
    vs = variants(ctx, STRATEGY)
    for want in KINDS:
        R.need(any(v[1] == want for v in vs), "anchor", STRATEGY, "no strategy %s" % want, strict=True)
    for i, vname, nf in vs:
        if vname not in KINDS:
            continue
        tname, ps = KINDS[vname]
        fs = [mk("in0", "$f%d" % k) for k in range(nf)]
        st = engine.new_state()
        ref = engine.ref(("O", "self"), (), False)
        st.mem[ref.a[0]] = mk("agg", STRATEGY, i, *fs)
        nret = 0
        for o in ctx.sym(path, args=[ref], st=st, eng=ctx.engine()):
            if o.lab != "ret":
                continue
            nret += 1
            v = o.val
            while v.op == "agg" and v.a[0].endswith("Box") and len(v.a) == 3:
                v = v.a[2]
            if v.op == "ref":
                v = o.eng.load(o.st, v)
            R.need(v.op == "agg" and v.a[0] == SEL + tname, "selector-of-strategy", path, "%s creates %s" % (vname, show(v)[:100]), (v,), key="selector-of-strategy|" + vname)
            if v.op != "agg" or v.a[0] != SEL + tname:
                continue
            for p, f in zip(ps, fs):
                got = ctx.observe1(o.st, SEL + tname + "::" + p, v)
                R.need(got is not None and same(o.F, got, f), "selector-parameters", path, "%s: %s is %s" % (vname, p, got and show(got)), (got,), key="selector-parameters|%s|%s" % (vname, p))
        R.need(nret > 0, "selector-of-strategy", path, "%s never creates a selector" % vname, key="selector-of-strategy|" + vname)


RULES = {"P09": p09, "P10": p10, "P11": p11, "P12": p12, "P13": p13, "P15": p15_selectors, "P26": p26_selection}
