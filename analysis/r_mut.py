"""P19 permutation mutations, P23 duplicate mutation, P24 random helpers"""
from base import *

MUT = "operators::mutation::"
OPS = "operators::"


def _mut_outcomes(ctx, R, name):
    path = MUT + name
    outs = ctx.sym(path)
    g = ctx.arg(path, 0)
    s = mk("deref", mk("in0", g))
    n = slen(s)
    for o in outs:
        if o.lab != "ret":
            R.need(o.F.bad, "no-panic", path, "panics: %s" % (o.val,), (o.F,))
            continue
        R.ok("no-panic", path)
        V = o.deref(g)
        for f, (v,) in splits(o.F, V):
            v = simp(f, v)
            yield path, o, f, v, s, n


def short_unchanged(R, path, f, v, s, n):
    if f.entails(lt(n, I(2))):
        R.need(same(f, v, s), "short-genome-unchanged", path, "genome shorter than two genes becomes %s" % show(v)[:200], (v,))
        return True
    return False


def p19(ctx, R):
    for name, form in (("swap_mutation", f_swap), ("scramble_mutation", f_scramble),
                       ("inversion_mutation", f_inversion), ("insertion_mutation", f_insertion)):
        long_ = 0
        for path, o, f, v, s, n in _mut_outcomes(ctx, R, name):
            how = by_steps(o, f, v, s)
            if how == "lost":
                R.violation("rearrangement", path, "a loop overwrites genes with copies of others and nothing brings them back: %s" % show(v)[:300])
                continue
            R.need(how == "ok" or rearranged(f, v, s), "rearrangement", path, "result is not a rearrangement of the input: %s" % show(v)[:300], (v,))
            if short_unchanged(R, path, f, v, s, n):
                continue
            if not f.entails(le(I(2), n)):
                R.need(False, "applies-from-two-genes", path, "path decides nothing about the genome having two genes: result %s" % show(v)[:200], (v,))
                continue
            long_ += 1
            ok, why = form(f, v, s, n, o)
            R.need(ok, "documented-form:" + name, path, why + ": " + show(v)[:300], (v,))
        R.need(long_ > 0, "applies-from-two-genes", MUT + name, "no path mutates a genome of two or more genes")


def by_steps(o, f, v, s):
    """a genome changed by a loop: 'ok' when every step rearranges it, 'lost' when steps only copy genes
    within it and so lose those overwritten (the copies all stem from the genome itself)"""
    if v.op != "phi":
        return None
    for ev in o.evs("loop"):
        kvar, K, phs, backs = ev[3], ev[4], ev[5], ev[6]
        for j, (ph, init, cl) in enumerate(phs):
            if subst(ph, {kvar: K}) is not v or not same(f, init, s):
                continue
            kinds = set()
            for lits, evs, ups in backs:
                g = Facts()
                for l in lits:
                    g.add(l)
                u = ups[j]
                if rearranged(g, u, ph):
                    kinds.add("ok")
                elif u.op == "store" and u.a[0] is ph and u.a[2].op == "at" and u.a[2].a[0] is ph and not imprecise(u.a[1], u.a[2].a[1]) and not any(e[0] == "loop" for e in evs):
                    kinds.add("same" if g.entails(eqi(u.a[1], u.a[2].a[1])) else "copy")
                else:
                    kinds.add("?")
            if kinds == {"ok"}:
                return "ok"
            if "copy" in kinds and "?" not in kinds:
                return "lost"
    return None


def draws_in(o):
    return [e[-1] for e in o.evs("draw")]


def f_swap(f, v, s, n, o):
    for i, j in pairs_of(f, v, s):
        if f.entails(bnot(eqi(i, j))) and f.entails(lt(i, n)) and f.entails(lt(j, n)) and same_seq(f, v, mk("swapd", s, i, j)):
            return True, ""
    return False, "not the exchange of two distinct positions"


def pairs_of(f, v, s):
    """candidate position pairs mentioned in the value"""
    c = []
    for x in subterms(v):
        if x.op in ("store", "swapd"):
            for y in x.a[1:]:
                if y.op in ("int", "lin", "draw", "in0") or True:
                    if x.op == "store" and y is x.a[2]:
                        continue
                    if y not in c:
                        c.append(y)
        elif x.op == "slice" and x.a[0] is s:
            c += [y for y in x.a[1:] if y not in c]
    return [(i, j) for i in c for j in c if i is not j]


def parts(v):
    return v.a if v.op == "cat" else (v,)


def one_range(f, v, s, n, op):
    """s with exactly one contiguous range of length >= 2 put through op"""
    ps = [p for p in parts(v) if p.op == op]
    if len(ps) != 1:
        return False
    p = ps[0]
    iv = intervals(f, p.a[0], s)
    if iv is None or len(iv) != 1 or not same(f, p.a[0], slice_(s, *iv[0])):
        return False
    a, b = iv[0]
    if not f.entails(le(add(a, I(2)), b)):
        return False
    return same_seq(f, v, cat(slice_(s, ZERO, a), p, slice_(s, b, n)))


def f_inversion(f, v, s, n, o):
    if one_range(f, v, s, n, "rev"):
        return True, ""
    # element-wise: exchanged ends of short ranges may have been written out
    c = cuts_of(v, s)
    for a in c:
        for b in c:
            if f.entails(le(add(a, I(2)), b)) and f.entails(le(b, n)) and same_seq(f, v, cat(slice_(s, ZERO, a), rev(slice_(s, a, b)), slice_(s, b, n))):
                return True, ""
    return False, "not one reversed range of at least two genes"


def cuts_of(v, s):
    c = []
    for x in subterms(v):
        if x.op == "slice":
            for y in x.a[1:]:
                if y not in c:
                    c.append(y)
    return c[:12]


def f_scramble(f, v, s, n, o):
    return one_range(f, v, s, n, "perm"), "not one shuffled range of at least two genes"


def f_insertion(f, v, s, n, o):
    c = []
    for x in cuts_of(v, s) + draws_in(o):
        for y in (x, addc(x, 1), addc(x, -1)):
            if y not in c:
                c.append(y)
    for a in c:
        for b in c:
            # move position b to a (b > a) or a to b
            if not f.entails(lt(a, b)) or not f.entails(lt(b, n)):
                continue
            down = cat(slice_(s, ZERO, a), lit(at(s, b)), slice_(s, a, b), slice_(s, addc(b, 1), n))
            up = cat(slice_(s, ZERO, a), slice_(s, addc(a, 1), addc(b, 1)), lit(at(s, a)), slice_(s, addc(b, 1), n))
            if same_seq(f, v, down) or same_seq(f, v, up):
                return True, ""
    return False, "not one gene moved to another position"


def p23(ctx, R):
    hit = 0
    for path, o, f, v, s, n in _mut_outcomes(ctx, R, "duplicate_mutation"):
        if short_unchanged(R, path, f, v, s, n):
            continue
        if not f.entails(le(I(2), n)):
            R.need(False, "applies-from-two-genes", path, "path decides nothing about the genome having two genes", (v,))
            continue
        hit += 1
        ok = False
        if v.op == "store" and v.a[0] is s:
            x = simp(f, v.a[2])
            if x.op == "at" and x.a[0] is s:
                i, j = v.a[1], x.a[1]
                ok = f.entails(bnot(eqi(i, j))) and f.entails(lt(i, n)) and f.entails(lt(j, n))
        R.need(ok, "one-position-overwritten", path, "result is not the genome with one position overwritten by the gene of a different position: " + show(v)[:300], (v,))
    R.need(hit > 0, "applies-from-two-genes", MUT + "duplicate_mutation", "no path overwrites a position")


# ------------------------------------------------------------------------- random helpers
def int_draws(o):
    return [e for e in o.evs("draw") if e[2] == "int"]


def only_int_draws(R, o, path, k):
    ds = o.evs("draw")
    good = len(ds) == k and all(e[2] == "int" for e in ds)
    R.need(good, "draw-count", path, "expected %d uniform integer draws, found %s" % (k, [(e[2], show(e[4])) for e in ds]), (o.F,))
    return good


def rename_draws(o, extra=()):
    m = {}
    for e in o.evs("draw"):
        d = e[5]
        m[d] = mk("draw", d.a[0], -d.a[1], d.a[2])
    return m


def p24(ctx, R):
    pair(ctx, R)
    bounded(ctx, R)
    unbounded(ctx, R)


def pair(ctx, R):
    path = OPS + "random_pair"
    n = mk("in0", ctx.arg(path, 0))
    outs = ctx.sym(path)
    rets = []
    for o in outs:
        if o.lab != "ret":
            R.need(o.F.entails(lt(n, I(2))), "panics-only-below-two", path, "panics (%s) for n >= 2" % (o.val[0],), (o.F,))
            continue
        R.need(o.F.entails(le(I(2), n)), "rejects-below-two", path, "returns a pair for n < 2", (o.F,))
        if not only_int_draws(R, o, path, 2):
            continue
        v = o.val
        a, b = fld(v, 0, "()", 0, 2), fld(v, 1, "()", 0, 2)
        for f, (x, y) in splits(o.F, a, b):
            R.need(f.entails(lt(x, n)) and f.entails(lt(y, n)) and f.entails(le(ZERO, x)) and f.entails(le(ZERO, y)), "pair-in-bounds", path, "index not below n: (%s, %s)" % (show(x), show(y)), (x, y))
            R.need(f.entails(bnot(eqi(x, y))), "pair-distinct", path, "indices may be equal: (%s, %s)" % (show(x), show(y)), (x, y))
            rets.append((o, f, x, y))
        d1, d2 = o.evs("draw")
        size = lambda e: sub(e[4][1], e[4][0])
        s1, s2 = size(d1), size(d2)
        R.need({s1, s2} == {n, addc(n, -1)} or (same(o.F, mul(s1, s2), mul(n, addc(n, -1)))), "pair-uniform", path,
               "the number of draw outcomes %s x %s is not the number of ordered pairs" % (show(s1), show(s2)), (o.F,))
    # injective: two different draw outcomes never give the same pair
    for i, (o1, f1, x1, y1) in enumerate(rets):
        for o2, f2, x2, y2 in rets:
            m = rename_draws(o2)
            f = f1.copy()
            for l in f2.order:
                f.add(subst(l, m))
            f.add(eqi(x1, subst(x2, m)))
            f.add(eqi(y1, subst(y2, m)))
            good = f.bad
            if not good:
                e1, e2 = o1.evs("draw"), o2.evs("draw")
                good = all(f.entails(eqi(p[5], subst(q[5], m))) for p, q in zip(e1, e2))
            R.need(good, "pair-uniform", path, "two different draws can give the same pair", (f1, f2))
    R.need(bool(rets), "pair-present", path, "no returning path")


def range_spec(ctx, R, path, n, lo, hi, outs, tag):
    """every return: start..end with end-start uniform in [lo,hi] and start uniform in [0, n-len]"""
    rets = 0
    for o in outs:
        if o.lab != "ret":
            continue
        if not only_int_draws(R, o, path, 2):
            continue
        rets += 1
        a, b = fld(o.val, 0, "std::ops::Range", 0, 2), fld(o.val, 1, "std::ops::Range", 0, 2)
        d1, d2 = o.evs("draw")
        for f, (x, y) in splits(o.F, a, b):
            L = sub(y, x)
            R.need(f.entails(le(y, n)) and f.entails(le(ZERO, x)), "range-inside", path, "range %s..%s may leave 0..n" % (show(x), show(y)), (x, y))
            R.need(f.entails(le(lo, L)) and f.entails(le(L, hi)), "range-length-bounds", path, "length %s not within the requested bounds" % show(L), (x, y))
            v1, v2 = d1[5], d2[5]
            # length determined by the first draw alone, one-to-one, over exactly the allowed lengths
            dep = dict(lin_parts(L)[1])
            R.need(set(dep) - {v1} <= set(dict(lin_parts(add(lo, hi))[1])) | set(dict(lin_parts(n)[1])) and abs(dep.get(v1, 0)) == 1
                   and f.entails(eqi(sub(d1[4][1], d1[4][0]), addc(sub(hi, lo), 1))), "length-uniform", path,
                   "length %s is not one-to-one with a uniform draw over the allowed lengths" % show(L), (x, y))
            dep = dict(lin_parts(x)[1])
            R.need(abs(dep.get(v2, 0)) == 1 and f.entails(eqi(sub(d2[4][1], d2[4][0]), addc(sub(n, L), 1))), "start-uniform", path,
                   "start %s is not one-to-one with a uniform draw over the %s possible starts" % (show(x), show(addc(sub(n, L), 1))), (x, y))
    R.need(rets > 0, "range-present", path, "no returning path")


def bounded(ctx, R):
    path = OPS + "bounded_random_range"
    n, lo, hi = [mk("in0", ctx.arg(path, i)) for i in range(3)]
    outs = ctx.sym(path)
    for o in outs:
        if o.lab != "ret":
            R.need(o.F.entails(lt(hi, lo)) or o.F.entails(bor(lt(n, hi), lt(hi, lo))), "range-panics-only-when-documented", path,
                   "panics (%s) although min_len <= max_len <= n" % (o.val[0],), (o.F,))
    range_spec(ctx, R, path, n, lo, hi, outs, "bounded")


def unbounded(ctx, R):
    path = OPS + "random_range"
    n = mk("in0", ctx.arg(path, 0))
    outs = ctx.sym(path)
    for o in outs:
        if o.lab != "ret":
            R.need(o.F.entails(eqi(n, ZERO)), "range-panics-only-when-documented", path, "panics (%s) for n != 0" % (o.val[0],), (o.F,))
        else:
            R.need(o.F.entails(le(ONE, n)), "zero-rejected", path, "returns a range for n = 0", (o.F,))
    range_spec(ctx, R, path, n, ONE, n, outs, "unbounded")


RULES = {"P19": p19, "P23": p23, "P24": p24}
