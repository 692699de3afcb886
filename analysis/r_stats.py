"""P27 statistics recording and collecting, P28 presence of statistics"""
from base import *

ST = "stats::Stats::"
PS = "stats::PopulatedStats::"
F0 = F(0.0)
F1 = F(1.0)
OBS = ("count", "min", "arg_min", "max", "arg_max", "avg", "var", "std")
FROM = "<stats::Stats as std::iter::FromIterator<f64>>::from_iter"


def cases(ctx, st, path, val):
    """outcomes of an accessor: [(facts, value)]"""
    r = []
    for o in ctx.observe(st, path, val):
        if o.lab == "ret" and not o.F.bad:
            r.append((o.F, o.val))
    return r


def opt(v):
    """'some', payload | 'none', None | None, None"""
    if v.op == "agg" and v.a[0] == OPT:
        return ("some", v.a[2]) if v.a[1] == 1 else ("none", None)
    return None, None


def state_of(F):
    s = engine.new_state()
    for l in F.order if F else ():
        s.facts.add(l)
    return s


def obs(ctx, F, val, acc, populated=False):
    """observed value with one decision tree per accessor"""
    return cases(ctx, state_of(F), (PS if populated else ST) + acc, val)


def count_of(ctx, F, val, populated=False):
    c = obs(ctx, F, val, "count", populated)
    return c[0][1] if len(c) == 1 else None


def ss_cases(ctx, F, val):
    """sum of squared deviations behind the variance, for count > 1"""
    r = []
    for f, v in obs(ctx, F, val, "var"):
        k, x = opt(v)
        c = count_of(ctx, f, val)
        if k == "some" and c is not None and f.entails(le(I(2), c)):
            if x.op == "fdiv":
                r.append((f, x.a[0], x.a[1]))
            elif f.entails(eqi(c, I(2))):
                r.append((f, x, F1))
    return r


def compare(ctx, R, F, a, b, rule, where, accs=OBS, pa=False, pb=False):
    """the two statistics values answer every query alike"""
    n = 0
    for acc in accs:
        xs, ys = obs(ctx, F, a, acc, pa), obs(ctx, F, b, acc, pb)
        good, why = True, ""
        for f1, x in xs:
            for f2, y in ys:
                f = f1.copy()
                for l in f2.order:
                    f.add(l)
                if f.bad:
                    continue
                n += 1
                if pa != pb:
                    if not pa:
                        k, x1 = opt(x) if acc != "count" else ("some", x)
                        if k == "none":
                            good, why = False, "%s: absent on one side" % acc
                            continue
                        x, y1 = x1, y
                    else:
                        y1 = y
                    if not same(f, x, y1):
                        good, why = False, "%s differs: %s and %s" % (acc, show(x)[:150], show(y1)[:150])
                elif not same(f, x, y):
                    good, why = False, "%s differs: %s and %s" % (acc, show(x)[:150], show(y)[:150])
        R.need(good and xs and ys, rule, where, why, (a, b), key="%s|%s|%s" % (rule, where, acc))
    return n


def peel_first(F, t, fuel=40):
    """do the first step of every fold that treats it specially (and that has one) apart"""
    if isinstance(t, tuple):
        return tuple(peel_first(F, x, fuel) for x in t)
    if not is_t(t) or fuel == 0 or not occurs(t, lambda x: x.op == "fold"):
        return t
    if t.op == "fold":
        n, b, body, init = t.a
        z = eqi(b, ZERO)
        if not F.entails(le(ONE, n)) or not occurs(body, lambda x: x.op == "ite" and occurs(x.a[0], lambda y: y is z or y is bnot(z))):
            return t
        k, a = skolem(), skolem("a")
        g = F.copy()
        g.add(lt(k, addc(n, -1)))
        g.add(le(ZERO, k))
        bd = subst(subst(body, {acc(b): a}), {b: addc(k, 1)})
        bd = peel_first(g, simp(g, bd), fuel - 1)
        i0 = peel_first(F, simp(F, subst(subst(body, {acc(b): init}), {b: ZERO})), fuel - 1)
        v = fresh_bv()
        return norm_fold(addc(n, -1), v, subst(bd, {a: acc(v), k: v}), i0)
    if t.op in BINDERS:
        return t
    na = tuple(peel_first(F, y, fuel - 1) if (is_t(y) or isinstance(y, tuple)) else y for y in t.a)
    return t if na == t.a else rb(t.op, na)


def peel(F, t, memo=None):
    """unroll the last step of every fold whose length is known to be positive of the form m+1"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(peel(F, x, memo) for x in t)
    if not is_t(t):
        return t
    if t in memo:
        return memo[t]
    if t.op in BINDERS:
        r = t
        if t.op == "fold" and not has_bv(t) and F.entails(eqi(t.a[0], ZERO)):
            r = t.a[3]
        elif t.op == "fold" and not has_bv(t) and F.entails(le(ONE, t.a[0])):
            m = addc(t.a[0], -1)
            body, init = inst(t, m)
            prev = rebuild_binder("fold", m, t.a[1], t.a[2:])
            r = subst(subst(t.a[2], {acc(t.a[1]): prev}), {t.a[1]: m})
            r = peel_body(F, r, m)
    else:
        na = tuple(peel(F, y, memo) if (is_t(y) or isinstance(y, tuple)) else y for y in t.a)
        r = t if na == t.a else rb(t.op, na)
    memo[t] = r
    return r


def peel_body(F, r, m):
    return r


def p27(ctx, R):
    rec = ST + "record"
    sname, xname = ctx.arg(rec, 0), ctx.arg(rec, 1)
    x = mk("in0", xname)
    S = mk("deref", mk("in0", sname))
    outs = ctx.sym(rec)
    # ---- one recording step against the specification
    c = count_of(ctx, Facts(), S)
    nz = 0
    for o in outs:
        if o.lab != "ret":
            R.need(o.F.bad, "record-total", rec, "recording a sample panics: %s" % (o.val[0],), (o.F,))
            continue
        new = o.deref(sname)
        R.need(o.F.entails(eqi(count_of(ctx, o.F, new), addc(c, 1))), "record-count", rec, "count after recording is %s" % show(count_of(ctx, o.F, new)), (new,))
        first = o.F.entails(eqi(c, ZERO))
        if not first and not o.F.entails(bnot(eqi(c, ZERO))):
            # a path that treats the first sample like the others: check both readings
            pass
        for empty in (True, False):
            f = o.F.copy()
            f.add(eqi(c, ZERO) if empty else bnot(eqi(c, ZERO)))
            if f.bad:
                continue
            nz += not empty
            spec = {}
            if empty:
                spec = dict(min=x, max=x, arg_min=ZERO, arg_max=ZERO, avg=x)
            else:
                old = {}
                for a in ("min", "max", "arg_min", "arg_max", "avg"):
                    cs = [opt(v)[1] for g, v in obs(ctx, f, S, a) if opt(v)[0] == "some"]
                    old[a] = cs[0] if len(cs) == 1 else mk("unk", "old", 0, ())
                lo, hi = fcmp("flt", x, old["min"]), fcmp("flt", old["max"], x)
                f.add(bnot(band(lo, hi)))       # the least sample is not above the greatest
                delta = fbin("fsub", x, old["avg"])
                avg = fbin("fadd", old["avg"], fbin("fdiv", delta, i2f(addc(c, 1))))
                spec = dict(min=ite(lo, x, old["min"]), arg_min=ite(lo, c, old["arg_min"]),
                            max=ite(hi, x, old["max"]), arg_max=ite(hi, c, old["arg_max"]), avg=avg)
            for a, want in spec.items():
                for g, v in obs(ctx, f, new, a):
                    k, got = opt(v)
                    R.need(k == "some" and same(g, got, want), "record-" + a, rec,
                           "%s after recording %s is %s, expected %s" % (a, "the first sample" if empty else "a further sample", show(v)[:200], show(want)[:200]), (v, want))
            if empty:
                for g, v in obs(ctx, f, new, "var"):
                    k, got = opt(v)
                    R.need(k == "some" and same(g, got, F0), "variance-of-one", ST + "var", "variance of one sample is %s" % show(v)[:100], (v,))
            else:
                for g, ss, dv in ss_cases(ctx, f, new):
                    R.need(same(g, dv, i2f(c)), "variance-divisor", ST + "var", "variance divides by %s, expected count - 1" % show(dv), (dv,))
                    # the previous sum of squared deviations
                    g2 = g.copy()
                    g2.add(le(I(2), c))
                    if not g2.bad:
                        for h, ss0, _ in ss_cases(ctx, g2, S):
                            want = fbin("fadd", ss0, fbin("fmul", delta, fbin("fsub", x, avg)))
                            R.need(same(h, ss, want), "record-squared-deviation", rec, "sum of squared deviations becomes %s, expected %s" % (show(ss)[:250], show(want)[:250]), (ss,))
                R.need(any(True for _ in ss_cases(ctx, f, new)), "variance-divisor", ST + "var", "variance of several samples is not a quotient", (new,))
        # after the first sample the sum of squared deviations starts from zero
        if first:
            f2 = engine.new_state()
            st2 = [e for e in step_ss(ctx, o, new)]
            for h, ss in st2:
                R.need(ss, "record-first-deviation", rec, "sum of squared deviations does not start at zero: %s" % h, (new,))
            R.need(bool(st2), "record-first-deviation", rec, "cannot observe the sum of squared deviations", (new,))
    R.need(nz > 0, "record-further", rec, "no path records a further sample")
    # var and std read-outs
    for f, v in obs(ctx, Facts(), S, "std"):
        k, got = opt(v)
        if k == "some":
            for g, w in obs(ctx, f, S, "var"):
                R.need(same(g, got, mk("fsqrt", opt(w)[1])), "std-is-root-of-variance", ST + "std", "std is %s" % show(got)[:150], (got,))
    # ---- collecting
    collect(ctx, R)





def step_ss(ctx, o, new):
    """ss after a second record on top of a first one: must be exactly delta*(x-avg)"""
    rec = ST + "record"
    st = engine.new_state()
    for l in o.F.order:
        st.facts.add(l)
    r = engine.ref(("O", "first"), (), True)
    st.mem[r.a[0]] = new
    y = mk("in0", "y2")
    x = mk("in0", ctx.arg(rec, 1))
    res = []
    for p in ctx.sym(rec, st=st, args=[r, y]):
        if p.lab != "ret":
            continue
        v = p.eng.read(p.st, ("O", "first"))
        for h, ss, dv in ss_cases(ctx, p.F, v):
            d = fbin("fsub", y, x)
            avg = fbin("fadd", x, fbin("fdiv", d, i2f(I(2))))
            w = fbin("fmul", d, fbin("fsub", y, avg))
            res.append((show(ss)[:200], same(h, ss, w) or same(h, ss, fbin("fadd", F0, w))))
    return res


def collect(ctx, R):
    rec = ST + "record"
    outs = ctx.sym(FROM)
    items = None
    rets = [o for o in outs if o.lab == "ret"]
    for o in outs:
        if o.lab != "ret":
            R.need(o.F.bad, "collect-total", FROM, "collecting panics: %s" % (o.val[0],), (o.F,))
    it = mk("items", mk("in0", ctx.arg(FROM, 0)))
    L = slen(it)
    n = mk("in0", "$n")
    pos = []
    for o in rets:
        f = o.F.copy()
        f.add(eqi(L, ZERO))
        if not f.bad:
            d = ctx.sym("<stats::Stats as std::default::Default>::default") if ctx.p.get("<stats::Stats as std::default::Default>::default") else []
            if len(d) == 1:
                compare(ctx, R, f, subst(o.val, {L: ZERO}), d[0].val, "collect-empty", FROM)
            else:
                cnt0 = count_of(ctx, f, o.val)
                R.need(cnt0 is not None and f.entails(eqi(cnt0, ZERO)), "collect-empty", FROM, "count of no samples", (o.val,))
        f = o.F.copy()
        f.add(le(ONE, L))
        if not f.bad:
            pos.append((o, f))
    if not pos:
        R.need(False, "collect-step", FROM, "no path collects samples")
    if any(imprecise(o.val) for o, _ in pos):
        # the loop has no closed form for every part: compare its own step with a recording step
        for o, f in pos:
            collect_bisim(ctx, R, o, f)
        return
    if len(pos) > 1:
        R = Soft(R)     # several ways to collect: which of them apply to n and to n+1 samples is only known roughly
    d0 = ctx.sym("<stats::Stats as std::default::Default>::default")[0].val

    def at_len(o, m):
        """facts and value of a path for m samples"""
        g = Facts()
        for l in o.F.order:
            g.add(subst(l, {L: m}))
        return g, subst(o.val, {L: m})
    k = 0
    for o, f in pos:
        # one sample
        g, T = at_len(o, ONE)
        if not g.bad:
            st = engine.new_state()
            for l in g.order:
                st.facts.add(l)
            r = engine.ref(("O", "d"), (), True)
            st.mem[r.a[0]] = d0
            for p in ctx.sym(rec, st=st, args=[r, at(it, ZERO)]):
                if p.lab == "ret" and not p.F.bad:
                    compare(ctx, R, p.F, T, p.eng.read(p.st, ("O", "d")), "collect-first", FROM)
        # n -> n+1
        g, T1 = at_len(o, n)
        g.add(le(ONE, n))
        if g.bad:
            continue
        st = engine.new_state()
        for l in g.order:
            st.facts.add(l)
        r = engine.ref(("O", "t"), (), True)
        st.mem[r.a[0]] = T1
        ends = []
        for a in ("min", "max"):
            cs = [opt(v)[1] for _, v in obs(ctx, g, T1, a) if opt(v)[0] == "some"]
            ends += cs if len(cs) == 1 else []
        if len(ends) == 2:      # the least sample is not above the greatest
            st.facts.add(bnot(band(fcmp("flt", at(it, n), ends[0]), fcmp("flt", ends[1], at(it, n)))))
        got = ctx.sym(rec, st=st, args=[r, at(it, n)])
        for p in got:
            if p.lab != "ret":
                R.need(p.F.bad, "collect-step", FROM, "recording on top of collected statistics panics", (T1,))
                continue
            w = p.eng.read(p.st, ("O", "t"))
            for o2, _ in pos:
                g2, T2 = at_len(o2, addc(n, 1))
                h = p.F.copy()
                for l in g2.order:
                    h.add(l)
                if h.bad:
                    continue
                k += 1
                compare(ctx, R, h, resolve(h, peel(h, T2), None), peel(h, w) if len(pos) > 1 else w, "collect-step", FROM)
    R.need(k > 0, "collect-step", FROM, "no recording step to compare with")


def collect_bisim(ctx, R, o, f):
    rec = ST + "record"
    loops = o.evs("loop")
    if len(loops) != 1:
        R.undecided("collect-step", FROM, "%d loops without closed form" % len(loops))
        return
    ev = loops[0]
    kvar, K, phs, backs = ev[3], ev[4], ev[5], ev[6]
    # T as a function of the loop-carried values at iteration k
    m = {K: kvar}
    T = None
    val = o.val
    cur = {}
    for ph, init, cl in phs:
        cur[subst(ph, {kvar: K})] = ph
    T = subst(val, cur)
    T = subst(T, {K: kvar})
    L = slen(mk("items", mk("in0", ctx.arg(FROM, 0))))
    init = {ph: i for ph, i, cl in phs}
    init[kvar] = ZERO
    T0 = subst(T, init)
    d = ctx.sym("<stats::Stats as std::default::Default>::default")[0].val
    it = mk("items", mk("in0", ctx.arg(FROM, 0)))
    c0 = count_of(ctx, f, T0)
    if c0 is ZERO:
        compare(ctx, R, f, T0, d, "collect-first", FROM)
    else:
        st = engine.new_state()
        r = engine.ref(("O", "d"), (), True)
        st.mem[r.a[0]] = d
        for p in ctx.sym(rec, st=st, args=[r, at(it, ZERO)]):
            if p.lab == "ret":
                compare(ctx, R, p.F, T0, p.eng.read(p.st, ("O", "d")), "collect-first", FROM)
    for lits, evs, ups in backs:
        st = engine.new_state()
        for l in lits:
            st.assume(l)
        up = {ph: u for (ph, i, cl), u in zip(phs, ups)}
        up[kvar] = addc(kvar, 1)
        Tn = subst(T, up)
        cT = count_of(ctx, st.facts, T)
        r = engine.ref(("O", "t"), (), True)
        st.mem[r.a[0]] = T
        for p in ctx.sym(rec, st=st, args=[r, at(it, cT)]):
            if p.lab == "ret" and not p.F.bad:
                w = p.eng.read(p.st, ("O", "t"))
                compare(ctx, R, p.F, resolve(p.F, Tn, None), w, "collect-step", FROM)


# ------------------------------------------------------------------------- P28
def p28(ctx, R):
    S = mk("in0", "$stats")
    c = count_of(ctx, Facts(), S)
    R.need(c is not None, "count-observable", ST + "count", "count has several outcomes")
    for a in OBS[1:]:
        for o in ctx.observe(engine.new_state(), ST + a, S):
            w = ST + a
            if o.lab != "ret":
                R.need(o.F.bad, "accessor-total", w, "panics: %s" % (o.val[0],), (o.F,))
                continue
            k, _ = opt(o.val)
            if k is None:
                for f, (v,) in splits(o.F, o.val):
                    presence(R, f, opt(v)[0], c, w, v)
            else:
                presence(R, o.F, k, c, w, o.val)
    # default value has no samples
    d = ctx.sym("<stats::Stats as std::default::Default>::default")
    for o in d:
        cc = count_of(ctx, o.F, o.val)
        R.need(cc is not None and o.F.entails(eqi(cc, ZERO)), "default-empty", "<stats::Stats as std::default::Default>::default", "count of the default value is %s" % (cc and show(cc)), (o.val,))
    # conversion to populated statistics
    snap = ST + "snapshot"
    for o in ctx.observe(engine.new_state(), snap, S):
        if o.lab != "ret":
            R.need(o.F.bad, "snapshot-total", snap, "panics", (o.F,))
            continue
        for f, (v,) in splits(o.F, o.val):
            k, p = opt(v)
            presence(R, f, k, c, snap, v)
            if k == "some":
                compare(ctx, R, f, S, p, "snapshot-same-values", snap, pa=False, pb=True)
    tf = next((f.path for f in ctx.p.methods.get(("std::convert::TryFrom", "try_from"), []) if "PopulatedStats" in f.path), None)
    if tf is None:
        raise Missing("TryFrom<Stats> for PopulatedStats")
    a0 = mk("in0", ctx.arg(tf, 0))
    for o in ctx.sym(tf):
        if o.lab != "ret":
            R.need(o.F.bad, "try-from-total", tf, "panics", (o.F,))
            continue
        c0 = count_of(ctx, o.F, a0)
        for f, (v,) in splits(o.F, o.val):
            if v.op == "agg" and v.a[0] == RES:
                k = "some" if v.a[1] == 0 else "none"
                presence(R, f, k, c0, tf, v)
                if k == "some":
                    compare(ctx, R, f, a0, v.a[2], "try-from-same-values", tf, pa=False, pb=True)
            else:
                R.need(False, "presence", tf, "not a plain result: %s" % show(v)[:100], (v,))
    # moving an index
    for a in ("arg_min", "arg_max"):
        path = PS + "set_" + a
        P = mk("deref", mk("in0", ctx.arg(path, 0)))
        x = mk("in0", ctx.arg(path, 1))
        cp = count_of(ctx, Facts(), P, True)
        seen = 0
        for o in ctx.sym(path):
            if o.lab != "ret":
                R.need(o.F.entails(le(cp, x)), "setter-accepts-valid", path, "rejects an index below the count", (o.F,))
                continue
            seen += 1
            R.need(o.F.entails(lt(x, cp)), "setter-rejects-invalid", path, "accepts an index that is not below the count", (o.F,))
            new = o.deref(ctx.arg(path, 0))
            compare(ctx, R, o.F, P, new, "setter-changes-nothing-else", path, [b for b in OBS if b != a], True, True)
            for f, v in obs(ctx, o.F, new, a, True):
                R.need(same(f, v, x), "setter-sets", path, "%s is %s afterwards" % (a, show(v)[:100]), (v,))
        R.need(seen > 0, "setter-accepts-valid", path, "never accepts")
    # nothing else makes populated statistics, and no field is open to outside code
    adt = ctx.p.adts.get("stats::PopulatedStats")
    if adt is None:
        raise Missing("stats::PopulatedStats")
    for v in adt["variants"]:
        for fl in v["fields"]:
            R.need(not fl["vis"] == "pub", "fields-private", "stats::PopulatedStats", "field %s is public" % fl["name"])
    for im in ctx.p.impls:
        if adt_name(im["self"]) == "stats::PopulatedStats":
            R.need(im["trait"] not in ("std::default::Default", "std::ops::DerefMut", "std::convert::AsMut", "std::borrow::BorrowMut", "std::iter::FromIterator"), "no-other-constructor", "stats::PopulatedStats", "implements %s" % im["trait"])
    makers(ctx, R)


def adt_name(t):
    return t.get("p") if isinstance(t, dict) and t.get("k") == "adt" else None


def mentions(t, name):
    if isinstance(t, dict):
        return t.get("p") == name or any(mentions(v, name) for v in t.values())
    if isinstance(t, list):
        return any(mentions(x, name) for x in t)
    return False


def by_value(t, name):
    if not isinstance(t, dict) or t.get("k") in ("ref", "ptr"):
        return False
    return t.get("p") == name or any(by_value(x, name) for x in t.get("a") or [])


def makers(ctx, R):
    """whatever outside code can call to obtain populated statistics by value yields a non-zero count"""
    n = 0
    for f in ctx.p.fns.values():
        d = f.d
        if f.is_closure or not by_value(d.get("output"), "stats::PopulatedStats") or not (d.get("reach") or d.get("impl_trait")):
            continue
        n += 1
        for o in ctx.sym(f.path):
            if o.lab != "ret":
                continue
            v = o.val
            if v.op == "agg" and v.a[0] in (OPT, RES):
                if (v.a[0] == OPT and v.a[1] == 0) or (v.a[0] == RES and v.a[1] == 1):
                    continue
                v = v.a[2]
            elif v.op == "deref" or (v.op == "in0"):
                R.ok("made-non-empty", f.path, "copy of an existing value")
                continue
            c = count_of(ctx, o.F, v, True)
            R.need(c is not None and o.F.entails(bnot(eqi(c, ZERO))), "made-non-empty", f.path, "yields populated statistics with count %s" % (c and show(c)), (v,))
    R.need(n > 0, "constructed-somewhere", "stats::PopulatedStats", "no construction of populated statistics found")


def presence(R, f, k, c, where, v):
    if k == "some":
        R.need(f.entails(bnot(eqi(c, ZERO))), "present-only-with-samples", where, "present although there may be no sample: %s" % show(v)[:150], (v,))
    elif k == "none":
        R.need(f.entails(eqi(c, ZERO)), "absent-only-without-samples", where, "absent although there may be samples", (v,))
    else:
        R.need(False, "presence", where, "neither present nor absent: %s" % show(v)[:150], (v,))


RULES = {"P27": p27, "P28": p28}
