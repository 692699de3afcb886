"""Which gene or partition the constructive crossovers take next: P42 (SCX, ERX), P43 (GPX2)"""
from base import *
from r_alg import flat
from r_misc import OPERATORS, CX, genome
from r_cross import constructive, parents, result, loops_of, mk_first, odd_terms, at_exit, rearranged, Tagged, CP, EMPTY
from cross_util import *

SCX, ERX = CX + "sequential_constructive_crossover", CX + "edge_recombination_crossover"


class Quiet:
    """a report for obligations that belong to another property; remembers whether all were met"""
    def __init__(self):
        self.good = True

    def need(self, good, *a, **k):
        self.good &= bool(good)
        return good

    def violation(self, *a, **k):
        self.good = False

    undecided = violation

    def ok(self, *a, **k):
        pass


def last_terms(o, L, oi, start, new, Fs):
    """terms for the gene written last when an iteration starts"""
    O, kvar = L.phis[oi], L.kvar
    ws = [written(b.up[oi], O, kvar) for b in L.backs]
    out = []
    if all(w and w[0] == "store" for w in ws):
        out.append(at(O, addc(kvar, ws[0][1] - 1)))
    elif start:
        out.append(at(O, addc(slen(O), -1)))
    for j, p in enumerate(L.phis):
        if j == oi or not start or not same(o.F, L.inits[j], start[-1]):
            continue
        if all(same(f, b.up[j], xs[-1]) if xs else b.up[j] is p for b, f, xs in zip(L.backs, Fs, new)):
            out.insert(0, p)
    return out


def located(F, P, y):
    """facts with y placed in P, a sequence of distinct genes that contains it"""
    n = slen(P)
    q = mk_first(n, P, ZERO, y)
    f = F.copy()
    f.add(lt(q, n))
    own = []
    for l in list(f.order):
        if l.op == "not" and l.a[0].op == "inseq" and l.a[0].a[1] is P and same(f, l.a[0].a[0], y):
            f.add(l.a[0])       # not a path over such parents
        if l.op == "peq":
            for a, b in (l.a, l.a[::-1]):
                if a.op == "at" and a.a[0] is P and same(f, b, y):
                    f.add(eqi(a.a[1], q))
                    own.append(a.a[1])
    if len(own) > 1 and q in own:
        own = []
    f.add(peq(at(P, q), y))
    # the term by which the code itself knows the position
    return f, own[-1] if own else q


def succ(F, P, y):
    """facts, the gene that follows y in P, the first one after the last"""
    f, q = located(F, P, y)
    n = slen(P)
    return f, at(P, ite(eqi(addc(q, 1), n), ZERO, addc(q, 1)))


def first_gene(R, path, o, L, oi, start, new, Fs, pivot):
    if start:
        R.need(same(o.F, start[0], pivot), "starts-with-pivot", path, "%s: the offspring starts with %s" % (L.site, show(start[0])[:100]), (start[0],))
        return
    for b, f, xs in zip(L.backs, Fs, new):
        g = Facts()
        for l in f.order:
            g.add(subst(subst(l, {p: i for p, i in zip(L.phis, L.inits)}), {L.kvar: ZERO}))
        if g.bad or not xs:
            continue
        x = subst(subst(xs[0], {p: i for p, i in zip(L.phis, L.inits)}), {L.kvar: ZERO})
        if same(g, x, pivot):
            R.ok("starts-with-pivot", path, L.site)
        else:
            R.undecided("starts-with-pivot", path, "%s: the first gene is %s" % (L.site, show(x)[:100]))


def mapped(l):
    return occurs(l, lambda t: t.op in ("mget", "haskey", "card", "argmin", "argmax"))


def scx(ctx, R):
    path = SCX
    p1, p2 = parents(ctx, path)
    n = slen(p1)
    pivot = mk("in0", ctx.arg(path, 2))
    seen = []

    def then(o, L, oi, G, used, start, new, Fs):
        seen.append(o)
        first_gene(R, path, o, L, oi, start, new, Fs, pivot)
        allowed = tuple(L.phis) + (L.kvar,)
        for b, f, xs in zip(L.backs, Fs, new):
            if not xs:
                continue
            curs = last_terms(o, L, oi, start, new, Fs) if len(xs) == 1 else []
            if not curs:
                R.undecided("next-gene", path, "%s: the gene written before %s is not recognised" % (L.site, show(xs[0])[:80]))
                continue
            x = xs[0]
            best = None
            for cur in curs:
                r = bad_choice(f, x, cur, used)
                if r is None:
                    best = None
                    break
                best = best or r
            if best is None:
                R.ok("next-gene", path, "%s: %s" % (L.site, show(x)[:100]))
                continue
            h, exp, why, other = best
            sure = not odd_terms(x, allowed) and not any(mapped(l) or odd_terms(l, allowed) for l in b.lits if contains(l, x) or l.op in ("le0", "eq0", "not", "peq", "in"))
            sure &= other
            (R.violation if sure else R.undecided)("next-gene", path, "%s: writes %s %s, not %s" % (L.site, show(simp(h, x))[:160], why, show(exp)[:160]))

    def bad_choice(f, x0, cur, used):
        f, s1 = succ(f, p1, cur)
        f, s2 = succ(f, p2, cur)
        for g, (t1, t2) in splits(f, s1, s2):
            g = decided(g)
            x = simp(g, x0)
            for v1 in (True, False):
                for v2 in (True, False):
                    h = g.copy()
                    for v, t in ((v1, t1), (v2, t2)):
                        u = used(h, t)
                        h.add(u if v else bnot(u))
                    if h.bad or v1 and v2:
                        continue
                    if v1 != v2:
                        e = t2 if v1 else t1
                        if not same(h, x, e):
                            return h, e, "although only the %s parent's successor is unused" % ("second" if v1 else "first"), True
                        continue
                    h, a = located(h, p2, t1)
                    h, c = located(h, p1, t2)
                    for l, e, w in ((lt(a, c), t1, "first parent's successor comes first in the other parent"), (le(c, a), t2, "first parent's successor does not come first in the other parent")):
                        k = h.copy()
                        k.add(l)
                        if k.bad:
                            continue
                        if not same(k, x, e):
                            return k, e, "although the " + w, True
        return None

    constructive(ctx, Quiet(), "sequential_constructive_crossover", then)
    if not seen:
        R.undecided("next-gene", path, "the loop that writes the offspring or its record of used genes was not recognised")


def base_map(m):
    """the map an update starts from when it only touches one key, and the value it ends with"""
    if m.op != "mput":
        return None
    k, v, x = m.a[1], m.a[2], m.a[0]
    while x.op == "mput" and x.a[1] is k:
        x = x.a[0]
    return x, k, v


def taken(f, m, cur, loops):
    """m as (map, 'all' | 'some' | None): the map it was before `cur` was taken out of the lists"""
    for L in loops:
        j = L.index(m)
        if j is None:
            continue
        base = L.inits[j]
        n = slen(mk("mkeys", base))
        kinds = set()
        for b in L.backs:
            r = base_map(b.up[j])
            if r is None or r[0] is not L.phis[j]:
                return None
            _, k, v = r
            old = mk("mget", L.phis[j], k)
            if v.op != "srem" or v.a[0] is not old or not (v.a[1] is cur or f.entails(peq(v.a[1], cur))):
                return None
            if k.op == "at" and k.a[1] is L.kvar and k.a[0].op == "mkeys" and k.a[0].a[0] is base and f.entails(le(slen(k.a[0]), m.a[2])):
                kinds.add("all")
            elif k.op == "at" and k.a[1] is L.kvar and k.a[0].op == "elems" and k.a[0].a[0] is mk("mget", base, cur) and f.entails(le(slen(k.a[0]), m.a[2])):
                kinds.add("all")    # being neighbours is mutual
            else:
                return None
        return (base, "all") if kinds else None
    r = base_map(m)
    if r is not None and r[2].op == "srem" and r[2].a[0] is mk("mget", r[0], r[1]) and f.entails(peq(r[2].a[1], cur)):
        return (r[0], "some")
    return (m, None)


def lists(o, R, path, m, p1, p2, loops):
    """does the map hold, for every gene, its cyclic neighbours in both parents? True, False (reported) or None"""
    n = slen(p1)
    todo = {p1, p2}
    while m.op != "mempty":
        hit = [(L, L.index(m)) for L in loops if L.index(m) is not None]
        if not hit:
            return None
        L, j = hit[0]
        if len(L.backs) != 1:
            return None
        b = L.backs[0]
        r = base_map(b.up[j])
        if r is None or r[0] is not L.phis[j]:
            return None
        _, k, v = r
        rounds = [t for t in (1, 2) if o.F.entails(eqi(m.a[2], scale(n, t)))]
        if not rounds:
            return None
        for t in range(rounds[0]):
            i = skolem("i")
            f = b.facts(o.F)
            g = Facts()
            turn = add(i, scale(n, t))
            for l in f.order:
                g.add(subst(l, {L.kvar: turn}))
            g.add(lt(i, n))
            seen = set()
            for g, (kk, vv) in splits(g, simp(g, subst(k, {L.kvar: turn})), simp(g, subst(v, {L.kvar: turn}))):
                kk, vv = simp(g, kk), simp(g, vv)
                P = [p for p in (p1, p2) if same(g, kk, at(p, i))]
                if not P:
                    return None
                P = P[0]
                seen.add(P)
                kept = g.entails(bnot(subst(mk("haskey", k, L.phis[j]), {L.kvar: turn}))) or g.entails(bnot(mk("haskey", kk, subst(L.phis[j], {L.kvar: turn}))))
                new = []
                while vv.op in ("sins", "sext"):
                    if vv.op == "sext" and simp(g, vv.a[1]).op == "lit":
                        new += simp(g, vv.a[1]).a
                    else:
                        new.append(vv.a[1])
                    vv = vv.a[0]
                if vv.op == "ite":
                    vs = (vv.a[1], vv.a[2])
                    kept = kept or any(x.op == "mget" for x in vs)
                    if not all(x.op in ("mget", "sempty") for x in vs):
                        return None
                elif vv.op == "mget":
                    kept = True
                elif vv.op != "sempty":
                    return None
                want = (at(P, ite(eq0(i), addc(n, -1), addc(i, -1))), at(P, ite(eqi(addc(i, 1), n), ZERO, addc(i, 1))))
                for h, ws in splits(g, *want):
                    xs = []
                    for x in new:
                        x = simp(h, x)
                        xs += list(x.a) if x.op == "lit" else [x]
                    bad = [w for w in ws if not one_same(h, w, xs)] + [x for x in xs if not one_same(h, x, ws)]
                    if bad:
                        if any(x.op not in ("at",) or odd_terms(x, (L.kvar,)) for x in xs):
                            return None
                        R.violation("neighbour-lists", path, "%s: the gene %s gets the neighbours %s instead of %s" % (L.site, show(kk)[:60], ", ".join(show(x)[:80] for x in xs), ", ".join(show(x)[:80] for x in ws)))
                        return False
                if not kept and (P not in todo or len(todo) < 2 or rounds[0] == 2):
                    R.violation("neighbour-lists", path, "%s: the neighbours found before are replaced" % L.site)
                    return False
            todo -= seen
        m = L.inits[j]
    if todo:
        R.violation("neighbour-lists", path, "only one parent's neighbours are listed")
        return False
    R.ok("neighbour-lists", path, "every gene has its cyclic neighbours in both parents")
    return True


def one_same(f, x, ys):
    return any(same(f, x, y) for y in ys)


def exhausted(f, S, used):
    """do the facts say that every element of the set is used?"""
    E = mk("elems", S)
    w = skolem("w")
    y = at(E, w)
    for l in f.order:
        for t in subterms(l):
            if t.op == "cnt" and t.a[0] is slen(E) and f.entails(eq0(t)):
                (body,) = inst(t, w)[:1]
                g = f.copy()
                g.add(lt(w, slen(E)))
                g.add(bnot(used(g, y)))
                if g.bad or g.entails(body):
                    return True
    g = f.copy()
    g.add(lt(w, slen(E)))
    for l in f.order:
        if l.op == "forall" and g.entails(lt(w, l.a[0])):
            g.add(inst(l, w)[0])
    return g.bad or g.entails(used(g, y))


def erx(ctx, R):
    path = ERX
    p1, p2 = parents(ctx, path)
    pivot = mk("in0", ctx.arg(path, 2))
    seen = []

    def then(o, L, oi, G, used, start, new, Fs):
        seen.append(o)
        first_gene(R, path, o, L, oi, start, new, Fs, pivot)
        for b, f, xs in zip(L.backs, Fs, new):
            if not xs or any(ev[0] == "key" and any(l is bnot(mk("haskey", ev[2], ev[3])) for l in b.lits) for ev in b.ev):
                # the lookup of a missing entry does not return
                continue
            curs = last_terms(o, L, oi, start, new, Fs) if len(xs) == 1 else []
            maps = {}
            for l in tuple(b.lits) + tuple(xs):
                for t in subterms(l):
                    if t.op == "mget" and any(t.a[1] is c for c in curs):
                        maps[t.a[0]] = t
            step = [(m, t, taken(f, m, t.a[1], b.loops())) for m, t in maps.items()]
            step = [x for x in step if x[2] is not None]
            if not step:
                # nothing of what decides refers to the lists of the gene written before
                x = xs[0]
                k = x.a[0].a[0].a[1] if x.op == "at" and x.a[0].op == "elems" and x.a[0].a[0].op == "mget" else None
                if curs and k is not None and (k.op == "in0" or k.op == "at" and k.a[0] in (p1, p2) and not odd_terms(k, (L.kvar,))) and not any(same(f, k, c) for c in curs):
                    R.violation("next-gene", path, "%s: %s is a neighbour of %s, not of the gene written before" % (L.site, show(x)[:100], show(k)[:80]))
                    continue
                R.undecided("next-gene", path, "%s: the neighbours of the gene written before %s are not recognised" % (L.site, show(xs[0])[:80]))
                continue
            step.sort(key=lambda x: x[2][1] is None)
            m, S, (base, how) = step[0]
            mi = L.index(base)
            origin = base
            if mi is not None:
                if m is base and b.up[mi] is not m:
                    # reads of the entry written in this round are already resolved
                    r = taken(f, b.up[mi], S.a[1], b.loops())
                    if r is not None and r[0] is base and r[1] == "some" and base_map(b.up[mi])[1] is S.a[1]:
                        m, how = b.up[mi], "some"
                        T = mk("srem", S, S.a[1])
                        if any(contains(l, mk("elems", T)) for l in tuple(b.lits) + tuple(xs)):
                            S = T
                if base is not L.phis[mi] or any(c.up[mi] is not m for c in (b,)):
                    R.undecided("neighbour-lists", path, "%s: the lists are kept in a way that is not recognised" % L.site)
                    continue
                origin = L.inits[mi]
            if o not in done:
                done.append(o)
                if lists(o, R, path, origin, p1, p2, loops_of(o)) is None:
                    R.undecided("neighbour-lists", path, "the lists of neighbours are made in a way that is not recognised")
            x = xs[0]
            if x.op == "at" and x.a[0].op == "elems" and x.a[0].a[0] is S:
                R.ok("next-gene", path, "%s: %s is a neighbour of the gene before" % (L.site, show(x)[:100]))
                fewest(R, path, L, b, f, x, S, m, how, used)
            elif exhausted(f, S, used):
                R.ok("next-gene", path, "%s: no unused neighbour is left" % L.site)
            else:
                sure = x.op == "at" and x.a[0] in (p1, p2) and not any(l.op == "forall" for l in b.lits if contains(l, S))
                (R.violation if sure else R.undecided)("next-gene", path, "%s: %s is taken although an unused neighbour of the gene before may be left" % (L.site, show(x)[:120]))

    def fewest(R, path, L, b, f, x, S, m, how, used):
        E = mk("elems", S)
        w = skolem("w")
        best = None
        for l in f.order:
            if l.op != "forall":
                continue
            (body,) = inst(l, w)[:1]
            if body.op != "le0":
                continue
            cards = [(t, k) for t, k in lin_parts(body.a[0])[1] if t.op in ("card", "cnt")]
            mine = [(t, k) for t, k in cards if t.op == "card" and t.a[0].op == "mget" and t.a[0].a[1] is x]
            other = [(t, k) for t, k in cards if t.op == "card" and t.a[0].op == "mget" and t.a[0].a[1].op == "at" and t.a[0].a[1].a[0] is E and contains(t, w)]
            if len(mine) != 1 or len(other) != 1 or mine[0][0].a[0].a[0] is not other[0][0].a[0].a[0]:
                continue
            if mine[0][1] < 0:
                best = best or ("most", l, mine[0][0].a[0].a[0])
                continue
            best = ("fewest", l, mine[0][0].a[0].a[0])
            break
        if best is None:
            weighs = lambda t: t.op in ("card", "cnt", "sum", "argmin", "argmax", "fold", "unk", "call") or t.op == "phi" and t not in L.phis
            sk = skolem("S")
            hide = lambda t: subst(t, {S: sk})
            if not any(l.op == "forall" and contains(l, S) and occurs(hide(l), weighs) for l in f.order) and not occurs(hide(x.a[1]), weighs):
                R.violation("fewest-neighbours", path, "%s: %s is taken without regard to its own neighbours" % (L.site, show(x)[:100]))
            else:
                R.undecided("fewest-neighbours", path, "%s: why %s is taken is not recognised" % (L.site, show(x)[:100]))
            return
        kind, l, mm = best
        if kind == "most":
            R.violation("fewest-neighbours", path, "%s: the neighbour with the most neighbours of its own is taken" % L.site)
            return
        # the comparison covers every unused neighbour
        n = l.a[0]
        cover = n is slen(E) or f.entails(le(slen(E), n))
        if not cover and n.op == "cnt" and n.a[0] is slen(E):
            (body,) = inst(n, w)[:1]
            g = f.copy()
            g.add(lt(w, slen(E)))
            g.add(bnot(used(g, at(E, w))))
            cover = g.bad or g.entails(body)
        if not cover:
            R.undecided("fewest-neighbours", path, "%s: the comparison may not cover every unused neighbour" % L.site)
            return
        if mm is m and how == "all":
            R.ok("fewest-neighbours", path, "%s: compared with every unused neighbour, by lists that hold unused genes only" % L.site)
        elif mm is m and how is None and L.index(mm) is None or how == "some":
            R.violation("fewest-neighbours", path, "%s: the lists that are compared still hold used genes" % L.site)
        else:
            R.undecided("fewest-neighbours", path, "%s: the lists that are compared were not recognised" % L.site)

    done = []
    constructive(ctx, Quiet(), "edge_recombination_crossover", then)
    if not seen:
        R.undecided("next-gene", path, "the loop that writes the offspring or its record of used genes was not recognised")


def p42(ctx, R):
    scx(ctx, R)
    erx(ctx, R)


def p43(ctx, R):
    path = CX + OPERATORS["GeneralizedPartition2"]
    p1, p2 = parents(ctx, path)
    n = slen(p1)
    sel = ctx.argnames(path)[2]
    e = ctx.engine(opaque=[CP])
    e.no_fold = True
    for o in ctx.sym(path, assume=[eqi(n, slen(p2))], eng=e):
        if o.F.bad or o.lab != "ret":
            continue
        v = result(o)
        top = [x for x in o.st.ev if x[0] == "callback"]
        if top:
            R.undecided("asked", path, "the selector is also called outside the loop that adds partitions, at %s" % (top[0][1],))
        hit = [(L, L.index(v)) for L in loops_of(o) if L.index(v) is not None]
        if not hit:
            if not same(o.F, v, p1) and not same(o.F, v, p2) and not o.F.entails(eq0(slen(v))):
                R.undecided("rounds", path, "the offspring %s is not assembled by a recognised loop" % show(v)[:120])
            elif not o.F.entails(eq0(n)):
                R.undecided("rounds", path, "the offspring is a parent")
            continue
        L, oi = hit[0]
        O = L.phis[oi]
        pi = [j for j, x in enumerate(L.inits) if x.op == "call" and x.a[0] == CP]
        if len(pi) != 1:
            R.undecided("rounds", path, "%s: the list of remaining partitions was not recognised" % L.site)
            continue
        R.need({genome(L.inits[pi[0]].a[1]), genome(L.inits[pi[0]].a[2])} == {p1, p2}, "partitions-of-parents", path, "%s: starts from the partitions %s" % (L.site, show(L.inits[pi[0]])[:100]), (L.inits[pi[0]],))
        P = L.phis[pi[0]]
        allowed = tuple(L.phis) + (L.kvar,)
        for b in L.backs:
            f = b.facts(o.F)
            if f.bad:
                continue
            calls = [x for x in b.ev if x[0] == "callback"]
            inner = [x for x, inside in flat(b.ev) if x[0] == "callback" and inside]
            if len(calls) != 1 or inner:
                if not calls and not inner:
                    u = b.up[oi]
                    if u is not O:
                        # the last remaining partition needs no choice
                        R.undecided("asked", path, "%s: %s is added without asking the selector" % (L.site, show(u)[:100]))
                    continue
                R.need(False, "asked", path, "%s: the selector is called %s times in a round" % (L.site, len(calls) if not inner else "several"), (), strict=False) if not inner else R.undecided("asked", path, L.site)
                continue
            _, site, name, args, vals, r = calls[0][:6]
            if is_t(vals) and vals.op == "agg":
                vals = vals.a[2:]
            if not isinstance(vals, (tuple, list)) or len(vals) != 2:
                R.undecided("asked", path, "%s: the selector's arguments are not recognised" % (site,))
                continue
            last, parts = vals
            f.add(lt(r, slen(parts)))     # other answers are the selector's mistake
            f0 = f
            # what it is shown
            if same(f, parts, P) or rearranged(f, parts, P):
                R.ok("sees-remaining", path, "%s: all remaining partitions" % (site,))
            else:
                R.need(False, "sees-remaining", path, "%s: the selector is shown %s" % (site, show(parts)[:160]), ()) if not odd_terms(parts, allowed) else R.undecided("sees-remaining", path, "%s: %s" % (site, show(parts)[:100]))
                continue
            f = filled(f, b, P)
            if f.bad:
                continue
            seen = last_seen(f, L, oi, last, followers(L, oi, P, o.F))
            if seen is None:
                R.undecided("sees-last", path, "%s: the gene shown to the selector, %s, is not recognised" % (site, show(last)[:100]))
            else:
                R.need(seen, "sees-last", path, "%s: the selector is shown %s as the gene added last" % (site, show(last)[:120]), ())
            u = b.up[oi]
            want = cat(O, at(parts, r))
            if same(f, u, want):
                R.ok("adds-chosen", path, "%s: the chosen partition is added as it is" % (site,))
            else:
                R.need(False, "adds-chosen", path, "%s: the selector's choice %s is followed by the offspring %s" % (site, show(at(parts, r))[:80], show(u)[:160]), ()) if not odd_terms(u, allowed) else R.undecided("adds-chosen", path, "%s: %s" % (site, show(u)[:100]))
            R.need(f.entails(le(ONE, slen(parts))), "something-left", path, "%s: the selector may be called with no partitions" % (site,), ())


def last_seen(f, L, oi, last, ends):
    """is `last` the gene added last, if any? None: not recognised"""
    O = L.phis[oi]
    if last.op == "agg" and last.a[0] == OPT:
        if last.a[1] == 0:
            return f.entails(eq0(slen(O))) or any(f.entails(bnot(eqi(mk("discr", p), ONE))) for p in ends)
        x = last.a[2]
        if x.op == "fld" and x.a[0] in ends:
            return True
        if f.entails(le(ONE, slen(O))) and same(f, x, at(O, addc(slen(O), -1))):
            return True
        other = [p for p in L.phis if p is not O]
        return None if odd_terms(x, (O, L.kvar)) or any(contains(x, p) for p in other) else False
    return True if last in ends else None


def filled(f, b, P):
    """facts plus: the partitions named in this round are not empty (P33)"""
    g = f.copy()
    for u in b.up:
        for t in subterms(u):
            if t.op == "at" and t.a[0] is P:
                g.add(le(ONE, slen(t)))
    return g


def followers(L, oi, P, F):
    """loop variables that hold the last gene of the offspring, if any"""
    out = []
    for j, p in enumerate(L.phis):
        i = L.inits[j]
        if not (i.op == "agg" and i.a[0] == OPT and i.a[1] == 0 and same(F, L.inits[oi], EMPTY)):
            continue
        good = True
        for b in L.backs:
            g = filled(b.facts(F), b, P)
            if g.bad:
                continue
            u, U = b.up[j], b.up[oi]
            good = good and u.op == "agg" and u.a[1] == 1 and same(g, u.a[2], at(U, addc(slen(U), -1)))
        if good:
            out.append(p)
    return out


RULES = {"P42": p42, "P43": p43}
