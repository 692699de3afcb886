"""Crossover operators: lengths and panics (P21), positions (P22), permutations (P20), partitions (P33)"""
from base import *
from r_alg import flat, field, field_index
from r_misc import CSTRAT, OPERATORS, CX, RANGE, variants, with_self, genome
import r_mut
from cross_util import *

REJECTING = ["SequentialConstructive", "EdgeRecombination", "PartiallyMapped", "Order", "Cycle", "SinglePoint"]


def parents(ctx, path, k=0):
    a = ctx.argnames(path)
    return [mk("deref", mk("in0", x)) for x in a[k:k + 2]]


def result(o):
    """the genome a path returns"""
    v = o.val
    if is_t(v) and v.op == "ref":
        v = o.eng.load(o.st, v)
    return v


def p21(ctx, R):
    rejecting = set()
    for name in REJECTING:
        path = CX + OPERATORS[name]
        p1, p2 = parents(ctx, path)
        n = slen(p1)
        good = True
        for o in ctx.sym(path):
            if o.lab != "ret" or o.F.bad:
                continue
            good &= bool(R.need(o.F.entails(eqi(n, slen(p2))), "rejects-different-lengths", path, "returns although the parents' lengths may differ", (o.F,)))
            v = result(o)
            R.need(o.F.entails(eqi(slen(v), n)), "keeps-length", path, "the offspring has %s genes" % show(slen(v))[:200], (v,))
        if good:
            rejecting.add(path)
    path = CSTRAT + "::crossover"
    p1, p2 = parents(ctx, path, 1)
    n = slen(p1)
    opaque = [CX + v for v in OPERATORS.values()]
    names = ctx.argnames(path)
    vs = {v: (i, nf) for i, v, nf in variants(ctx, CSTRAT)}
    for name in OPERATORS:
        K = lambda r: "%s|%s" % (r, name)
        if name not in vs:
            raise Missing(CSTRAT + "::" + name)
        st, args = with_self(ctx, path, CSTRAT, *vs[name])
        for o in ctx.sym(path, args=args, st=st, eng=ctx.engine(opaque=opaque)):
            if o.lab != "ret" or o.F.bad:
                continue
            v = result(o)
            eqlen = o.F.entails(eqi(n, slen(p2)))
            if v.op == "call" and v.a[0] in opaque:
                q1, q2 = genome(v.a[1]), genome(v.a[2])
                same_parents = {q1, q2} == {p1, p2}
                R.need(eqlen or v.a[0] in rejecting and same_parents, "rejects-different-lengths", path, "%s: parents of different lengths reach %s" % (name, v.a[0]), (o.F,), key=K("rejects-different-lengths"))
                R.need(o.F.entails(eqi(slen(q1), n)) or o.F.entails(eqi(slen(q1), slen(p2))), "keeps-length", path, "%s: the operator is given %s" % (name, show(q1)[:100]), (q1,), key=K("keeps-length"))
            else:
                R.need(eqlen, "rejects-different-lengths", path, "%s: returns although the parents' lengths may differ" % name, (o.F,), key=K("rejects-different-lengths"))
                R.need(o.F.entails(eqi(slen(v), n)), "keeps-length", path, "%s: the offspring has %s genes" % (name, show(slen(v))[:200]), (v,), key=K("keeps-length"))
        # no panic on nothing and on a single gene
        for k in (0, 1):
            st, args = with_self(ctx, path, CSTRAT, *vs[name])
            for i in (1, 2):
                root = ("O", "parent%d" % i)
                st.mem[root] = lit(*[mk("in0", "$gene%d" % i)] * k)
                args[i] = engine.ref(root, (), False)
            e = ctx.engine()
            e.unroll_lits = True
            for o in ctx.sym(path, args=args, st=st, eng=e):
                if o.F.bad:
                    continue
                if o.lab != "ret":
                    R.need(False, "short-genomes", path, "%s of two genomes of %d genes panics: %s" % (name, k, o.val), (o.F,), key=K("short-genomes-%d" % k))
                    continue
                v = simp(o.F, result(o))
                R.need(o.F.entails(eqi(slen(v), I(k))), "short-genomes", path, "%s of two genomes of %d genes gives %s" % (name, k, show(v)[:200]), (v,), key=K("short-genomes-%d" % k))


# ------------------------------------------------------------ P20: genomes built gene by gene
def fresh_loop(ctx, R, path, o, L, oi, G, then=None):
    """the genes written by a loop are different from each other: proves, over the iterations, that a set
    (and possibly one more variable) holds exactly the genes written so far and that each new gene is outside"""
    O, kvar = L.phis[oi], L.kvar
    site = L.site
    ws = [written(b.up[oi], O, kvar) for b in L.backs]
    Fs = [b.facts(o.F) for b in L.backs]
    if any(w is None or w[0] == "store?" for w in ws):
        R.undecided("gene-by-gene", path, "the loop at %s writes the offspring in a way that is not recognised" % site)
        return
    offs = {w[1] for w in ws if w[0] == "store"}
    push = any(w[0] == "push" for w in ws)
    if len(offs) > 1 or offs and (push or any(w[0] == "none" for w in ws)) or not offs and not push:
        R.undecided("gene-by-gene", path, "the loop at %s writes the offspring in a way that is not recognised" % site)
        return
    init = L.inits[oi]
    if push:
        start = list(init.a) if init.op == "lit" else None
        if start is None:
            R.undecided("gene-by-gene", path, "the genome %s is not started empty or with single genes" % show(init)[:80])
            return
    else:
        c = offs.pop()
        start = [simp(o.F, at(init, I(i))) for i in range(c)]
        R.need(len(start) < 2 or all(o.F.entails(bnot(peq(x, y))) for i, x in enumerate(start) for y in start[:i]), "position-skipped", path,
               "the loop at %s leaves the first %d positions at %s" % (site, c, [show(x) for x in start]))
    new = [[] if w[0] == "none" else [w[2]] if w[0] == "store" else list(w[1]) for w in ws]
    for w, f in zip(new, Fs):
        for x in w:
            if not G.gene(x):
                R.undecided("parent-genes", path, "the gene %s written at %s is not seen to come from the parents" % (show(x)[:120], site))
    # candidates for the record of used genes
    sets = [j for j, p in enumerate(L.phis) if j != oi and L.inits[j].op in ("sempty", "sins", "sext") and all(added(b.up[j], p) is not None for b in L.backs)]
    scal = [j for j, p in enumerate(L.phis) if j != oi and L.closed[j] is None and G.gene(p)]
    vague = any(j != oi and j not in scal and L.closed[j] is None and G.gene(L.inits[j]) for j in range(len(L.phis)))
    best = None
    for V in sets + [None]:
        for C in [None] + scal:
            if V is None and C is None:
                continue
            bad = []        # (kind, back, gene)
            v0 = added(L.inits[V], mk("sempty")) if V is not None else []
            rec0 = v0 + ([L.inits[C]] if C is not None else [])
            for x in start:
                if not one_of(o.F, x, rec0):
                    bad.append(("used-gene-not-recorded", None, x))
            for b, f, xs in zip(L.backs, Fs, new):
                rec = (added(b.up[V], L.phis[V]) if V is not None else []) + ([b.up[C]] if C is not None else [])
                need = list(xs) + ([L.phis[C]] if C is not None else [])
                for x in need:
                    if not one_of(f, x, rec) and not (V is not None and f.entails(isin(x, L.phis[V]))):
                        bad.append(("used-gene-not-recorded", b, x))
                for i, x in enumerate(xs):
                    free = (V is None or f.entails(bnot(isin(x, L.phis[V])))) and (C is None or f.entails(bnot(peq(x, L.phis[C])))) and all(f.entails(bnot(peq(x, y))) for y in xs[:i])
                    if not free:
                        bad.append(("gene-used-twice", b, x))
            if not bad:
                R.ok("no-gene-twice", path, "%s: %s records the genes written so far, and every gene written is outside it" % (site, ", ".join(show(L.phis[j]) for j in (V, C) if j is not None)))
                if then:
                    then(o, L, oi, G, lambda f, x: bor(FALSE if V is None else isin(x, L.phis[V]), FALSE if C is None else peq(x, L.phis[C])), start, new, Fs)
                return
            if V is None:
                continue        # a single variable cannot hold all genes
            kinds = {k for k, _, _ in bad}
            rank = (len(kinds), len(bad))
            if best is None or rank < best[0]:
                best = (rank, kinds, bad, V, C)
    # the genome itself as the record
    pre = O if push else None
    okay = True
    for f, xs in zip(Fs, new):
        for i, x in enumerate(xs):
            seen = [inseq(x, O)] + ([inseq(x, slice_(O, ZERO, addc(kvar, c)))] if not push else [])
            if not (any(f.entails(bnot(s)) for s in seen) and all(f.entails(bnot(peq(x, y))) for y in xs[:i])):
                okay = False
    if okay:
        R.ok("no-gene-twice", path, "%s: every gene written is looked up in the genes written before it" % site)
        if then:
            then(o, L, oi, G, lambda f, x: inseq(x, O if push else slice_(O, ZERO, addc(kvar, c))), start, new, Fs)
        return
    if best is None or len(best[1]) > 1 or vague:
        R.undecided("no-gene-twice", path, "no record of the genes used so far was recognised in the loop at %s" % site)
        return
    _, kinds, bad, V, C = best
    allowed = {L.phis[j] for j in (V, C) if j is not None}
    for kind, b, x in bad:
        if kind == "gene-used-twice":
            lits = [l for l in b.lits if contains(l, x)]
            odd = [t for l in lits + [x] for t in subterms(l) if t.op in ("phi", "unk") and t not in allowed and (t.op == "unk" or occurs(t, lambda y: y is kvar)) and t is not O]
            if V is not None and any(l.op == "forall" and contains(l, L.phis[V]) for l in b.lits):
                R.undecided("no-gene-twice", path, "%s: %s is written when every gene of a parent is used, which may not happen" % (site, show(x)[:80]))
                continue
            if any(contains(l, O) and not l.op in ("eq0", "le0") for l in lits) or odd:
                R.undecided("no-gene-twice", path, "%s: %s may be guarded by %s" % (site, show(x)[:80], [show(t)[:60] for t in odd[:2]]))
                continue
            R.violation(kind, path, "%s: the gene %s is written although it may have been used before" % (site, show(x)[:160]))
        else:
            R.violation(kind, path, "%s: the gene %s is written without being recorded as used" % (site, show(x)[:160]))


def all_used(o, P, kv=None):
    """does the path claim that every gene of P is in a set that holds fewer genes than P has? (impossible for distinct genes)"""
    n = slen(P)
    for l in o.F.order:
        if l.op != "forall" or not o.F.entails(le(n, l.a[0])):
            continue
        v = skolem()
        body = subst(l.a[2], {l.a[1]: v})
        parts = body.a if body.op == "or" else (body,)
        size = ZERO
        good = True
        for p in parts:
            if p.op == "peq" and any(same(o.F, x, at(P, v)) for x in p.a) and not all(contains(x, v) for x in p.a):
                size = addc(size, 1)
            elif p.op == "in" and same(o.F, p.a[0], at(P, v)) and not contains(p.a[1], v):
                s = card_bound(o, p.a[1])
                if s is None:
                    good = False
                    break
                size = add(size, s)
            else:
                good = False
                break
        if good and o.F.entails(lt(size, n)):
            return True
    return False


def card_bound(o, s):
    """an upper bound for the number of elements of a set"""
    if s.op == "sempty":
        return ZERO
    if s.op == "sins":
        r = card_bound(o, s.a[0])
        return None if r is None else addc(r, 1)
    if s.op == "phi":
        for L in all_loops(o):
            j = L.index(s)
            if j is None:
                continue
            r = card_bound(o, L.inits[j])
            if r is None:
                return None
            m = [added(b.up[j], L.phis[j]) for b in L.backs]
            if any(x is None for x in m):
                return None
            return add(r, scale(s.a[2], max(len(x) for x in m)))
    return None


def impossible(o, P1, P2, G):
    """panic paths that permutations cannot take: a gene of the parents is missing in a parent, or all are used up"""
    for l in o.F.order:
        if l.op == "not" and l.a[0].op == "inseq" and l.a[0].a[1] in (P1, P2) and G.gene(l.a[0].a[0]):
            return True
    return all_used(o, P1) or all_used(o, P2)


def keeps_keys(o, u, base):
    """is the map u the map `base` with entries added or changed, but none taken away?"""
    if u is base:
        return True
    if u.op == "mput":
        return keeps_keys(o, u.a[0], base)
    if u.op == "ite":
        return keeps_keys(o, u.a[1], base) and keeps_keys(o, u.a[2], base)
    if u.op == "phi":
        for L in all_loops(o):
            j = L.index(u)
            if j is not None:
                return keeps_keys(o, L.inits[j], base) and all(keeps_keys(o, b.up[j], L.phis[j]) for b in L.backs)
    return False


def covers_keys(o, m, P):
    """is every element of P a key of the map?"""
    if m.op in ("mput",):
        return covers_keys(o, m.a[0], P)
    if m.op != "phi":
        return False
    for L in all_loops(o):
        j = L.index(m)
        if j is None:
            continue
        if not all(keeps_keys(o, b.up[j], L.phis[j]) for b in L.backs):
            return False
        if covers_keys(o, L.inits[j], P):
            return True
        n = slen(P)
        i = skolem()
        for turn in (i, add(i, n)):
            f = o.F.copy()
            f.add(lt(i, n))
            if not f.entails(lt(turn, m.a[2])):
                continue
            found = bool(L.backs)
            for b in L.backs:
                u, ks = b.up[j], []
                while u.op == "mput":
                    ks.append(u.a[1])
                    u = u.a[0]
                found &= any(same(f, simp(f, subst(k, {L.kvar: turn})), at(P, i)) for k in ks)
            if found:
                return True
    return False


def constructive(ctx, R, name, then=None):
    path = CX + name
    p1, p2 = parents(ctx, path)
    n = slen(p1)
    pivot = mk("in0", ctx.arg(path, 2))
    e = ctx.engine()
    e.no_fold = True
    assume = [eqi(n, slen(p2)), inseq(pivot, p1), inseq(pivot, p2)]
    for o in ctx.sym(path, eng=e, assume=assume):
        if o.F.bad:
            continue
        G = Genes(o, (p1, p2), (pivot,))
        if o.lab != "ret":
            if not impossible(o, p1, p2, G):
                R.undecided("panic-free", path, "a panic is not seen to be impossible for permutations: %s" % (o.val,))
            else:
                R.ok("panic-free", path, "%s needs a gene that one parent lacks" % (o.val,))
            continue
        for ev, inside in flat(o.st.ev):
            if ev[0] == "key":
                if G.gene(ev[2]) and (covers_keys(o, ev[3], p1) or covers_keys(o, ev[3], p2)):
                    R.ok("panic-free", path, "%s: every gene of the parents has an entry" % (ev[1],))
                else:
                    R.undecided("panic-free", path, "%s: %s may have no entry in the map" % (ev[1], show(ev[2])[:80]))
        v = result(o)
        if same(o.F, v, p1) or same(o.F, v, p2):
            R.ok("no-gene-twice", path, "returns a parent")
            continue
        hit = [(L, L.index(v)) for L in loops_of(o) if L.index(v) is not None]
        if not hit:
            R.undecided("gene-by-gene", path, "the offspring %s is not built by a recognised loop" % show(v)[:120])
            continue
        L, oi = hit[0]
        R.need(o.F.entails(eqi(slen(v), n)), "all-positions", path, "the offspring has %s genes" % show(slen(v))[:100], (v,))
        if all((written(b.up[oi], L.phis[oi], L.kvar) or ("",))[0] == "store" for b in L.backs):
            w = {written(b.up[oi], L.phis[oi], L.kvar)[1] for b in L.backs}
            if len(w) == 1 and isinstance(min(w), int):
                done = addc(v.a[2], min(w))
                R.need(o.F.entails(le(n, done)), "all-positions", path, "only the first %s positions of the offspring are filled" % show(done)[:100], ())
        fresh_loop(ctx, R, path, o, L, oi, G, then)


# ------------------------------------------------------------ operators that keep positions
class Tagged:
    """obligations of one operator, each belonging to some of the properties"""
    def __init__(self, R, pid):
        self.R, self.pid = R, pid

    def need(self, good, props, rule, path, detail="", sure=True):
        if self.pid not in props:
            return good
        if good:
            self.R.ok(rule, path, detail)
        elif sure:
            self.R.violation(rule, path, detail)
        else:
            self.R.undecided(rule, path, detail)
        return good

    def undecided(self, rule, path, detail, props=("P20", "P22")):
        if self.pid in props:
            self.R.undecided(rule, path, detail)


BOTH = ("P20", "P22")


def murky(f):
    """do facts speak of a value which a loop keeps in some rounds and replaces in others?"""
    return any(occurs(l, lambda t: t.op == "fold" and overwriting(t)) for l in f.order)


def ranged(ctx, path):
    """arguments and facts of an operator that takes a gene range within the genome"""
    p1, p2 = parents(ctx, path)
    a = ctx.argnames(path)
    r0, r1 = mk("in0", "$start"), mk("in0", "$end")
    args = [mk("in0", a[0]), mk("in0", a[1]), agg(RANGE, 0, r0, r1)]
    n = slen(p1)
    return p1, p2, n, r0, r1, args, [eqi(n, slen(p2)), le(r0, r1), le(r1, n)]


def panics(ctx, T, path, o, p1, p2):
    G = Genes(o, (p1, p2))
    if impossible(o, p1, p2, G):
        T.need(True, ("P20",), "panic-free", path, "%s needs a gene that one parent lacks" % (o.val,))
    else:
        T.undecided("panic-free", path, "a panic is not seen to be impossible for permutations: %s" % (o.val,), ("P20",))


def partner(F, x, y, P, Q, r0, r1):
    """is x the gene of Q at the position (inside the range) at which P holds y?"""
    n = slen(P)
    for q in (add(r0, mk_first(sub(r1, r0), P, r0, y)), mk_first(n, P, ZERO, y)):
        if same(F, x, at(Q, q)):
            return True
    return False


def mk_first(n, P, off, y):
    b = fresh_bv()
    return close("first", n, b, peq(at(P, add(off, b)), y))


def chain(F, x, i, P, Q, r0, r1):
    """x as the result of following the mapping from the gene of Q at i: 'ok', 'start', 'step' or None"""
    x = simp(F, x)
    if same(F, x, at(Q, i)):
        return "ok"
    if x.op == "fold":
        a = skolem("gene")
        f = F.copy()
        f.add(inseq(a, slice_(P, r0, r1)))
        step = subst(x.a[2], {acc(x.a[1]): a})
        if not same(F, x.a[3], at(Q, i)):
            return "start" if not imprecise(x.a[3]) else None
        if contains(step, x.a[1]) or imprecise(step):
            return None
        return "ok" if partner(f, step, a, P, Q, r0, r1) else "step"
    if x.op == "at" and x.a[0] is Q and partner(F, x, at(Q, i), P, Q, r0, r1):
        return "ok"
    return None


def at_turn(o, f, i):
    """facts at position i, split by what the loops that run over the positions did in turn i"""
    cases = [f]
    for L in loops_of(o):
        if not f.entails(lt(i, L.K)):
            continue
        new = []
        for g in cases:
            for b in L.backs:
                h = g.copy()
                for l in subst(b.lits, {L.kvar: i}):
                    h.add(l)
                if not h.bad:
                    new.append(h)
        if new:
            cases = new
    return cases


def pmx(ctx, R, pid):
    path = CX + OPERATORS["PartiallyMapped"]
    p1, p2, n, r0, r1, args, assume = ranged(ctx, path)
    T = Tagged(R, pid)
    kept = lambda P: slice_(P, r0, r1)
    for o in ctx.sym(path, args=args, assume=assume):
        if o.F.bad:
            continue
        if o.lab != "ret":
            panics(ctx, T, path, o, p1, p2)
            continue
        v = result(o)
        if o.F.entails(lt(n, I(2))) and (same(o.F, v, p1) or same(o.F, v, p2)):
            T.need(True, BOTH, "short-genomes", path, "a single gene")
            continue
        T.need(o.F.entails(eqi(slen(v), n)), ("P20",), "all-positions", path, "the offspring has %s genes" % show(slen(v))[:100], not imprecise(v))
        for A, Bp, props in ((p1, p2, ("P22", "P20")), (p2, p1, ("P20",))):
            log = []
            i = skolem("i")
            f = o.F.copy()
            f.add(lt(i, n))
            f.add(lt(i, slen(v)))
            fin = f.copy()
            for l in (le(r0, i), lt(i, r1)):
                fin.add(l)
            outs = []
            for l in (lt(i, r0), le(r1, i)):
                g = f.copy()
                g.add(l)
                outs += [h for h in at_turn(o, g, i) if not h.bad]
            for f2, x in elem(fin, v, i):
                if f2.bad:
                    continue
                good = same(f2, x, at(A, i))
                log.append((good, BOTH, "kept-range", "position i inside the range holds %s" % show(simp(f2, x))[:200], not imprecise(x)))
            for g in outs:
                for f1, x1 in elem(g, v, i):
                    for f2, (x,) in splits(f1, x1):
                        if f2.bad:
                            continue
                        c = chain(f2, x, i, A, Bp, r0, r1)
                        if c is None:
                            xs = simp(f2, x)
                            foreign = xs.op == "at" and xs.a[0] in (p1, p2) and not imprecise(xs)
                            log.append((False, BOTH, "mapped-gene", "position i outside the range holds %s" % show(simp(f2, x))[:200], foreign))
                            continue
                        log.append((c == "ok", BOTH, "mapped-gene", "position i outside the range holds %s" % show(simp(f2, x))[:200], True))
                        if c == "ok":
                            out = f2.entails(bnot(inseq(x, kept(A)))) or f2.entails(bnot(inseq(simp(f2, x), kept(A)))) or f2.entails(eqi(r0, r1))
                            log.append((out, BOTH, "mapped-out", "%s may be one of the genes kept in the range" % show(simp(f2, x))[:200], not murky(f2)))
            if pid == "P20" and A is p1 and not all(g for g, *_ in log):
                first = log
                continue        # the other way round gives a permutation as well
            if pid == "P20" and A is p2 and not all(g for g, *_ in log):
                log = first
                # other arrangements may still be permutations: sure are only a gene that collides with the range,
                # and a position that breaks the scheme the other positions follow
                kept_ok = all(g for g, _, r, _, _ in log if r == "kept-range")
                some_ok = any(g for g, _, r, _, _ in log if r == "mapped-gene")
                log = [(g, p, r, d, s and (r == "mapped-out" or r == "mapped-gene" and kept_ok and (some_ok or "fold(" in d))) for g, p, r, d, s in log]
            for good, pr, rule, detail, sure in log:
                T.need(good, pr, rule, path, detail, sure)
            break


def is_succ(F, new, old, n):
    """is `new` the position after `old`, the first one after the last?"""
    if new.op == "mod" and F.entails(eqi(new.a[0], addc(old, 1))) and F.entails(eqi(new.a[1], n)):
        return True
    a, b = F.copy(), F.copy()
    a.add(lt(addc(old, 1), n))
    b.add(eqi(addc(old, 1), n))
    return (a.bad or a.entails(eqi(new, addc(old, 1)))) and (b.bad or b.entails(eq0(new)))


def ox(ctx, R, pid):
    path = CX + OPERATORS["Order"]
    p1, p2, n, r0, r1, args, assume = ranged(ctx, path)
    T = Tagged(R, pid)
    e = ctx.engine()
    e.no_fold = True
    for o in ctx.sym(path, args=args, assume=assume, eng=e):
        if o.F.bad:
            continue
        if o.lab != "ret":
            panics(ctx, T, path, o, p1, p2)
            continue
        v = result(o)
        F = o.F
        if F.entails(lt(n, I(2))) and (same(F, v, p1) or same(F, v, p2)):
            T.need(True, BOTH, "short-genomes", path, "a single gene")
            continue
        if F.entails(eqi(r0, r1)):
            T.need(same(F, v, p2), ("P22",), "outside-range", path, "an empty range gives %s" % show(v)[:200], not imprecise(v))
            if same(F, v, p1) or same(F, v, p2):
                T.need(True, ("P20",), "permutation", path, "an empty range gives a parent")
                continue
            if not imprecise(v):
                T.undecided("permutation", path, "an empty range gives %s" % show(v)[:200], ("P20",))
                continue
        if F.entails(eq0(r0)) and F.entails(eqi(r1, n)) and same(F, v, p1):
            T.need(True, BOTH, "kept-range", path, "the whole genome is kept")
            continue
        hit = [(L, L.index(v)) for L in loops_of(o) if L.index(v) is not None]
        if not hit:
            T.undecided("fill-loop", path, "the offspring %s is not filled by a recognised loop" % show(v)[:120])
            continue
        L, oi = hit[0]
        O = L.phis[oi]
        i1 = i2 = None
        for b in L.backs:
            u = b.up[oi]
            if u.op == "store" and u.a[0] is O:
                j = L.index(u.a[1])
                x = u.a[2]
                k = L.index(x.a[1]) if x.op == "at" and x.a[0] is p2 else None
                if j is not None and k is not None:
                    i1, i2 = j, k
        if i1 is None or any(b.up[oi] is not O and b.up[oi].op != "store" for b in L.backs):
            T.undecided("fill-loop", path, "%s: no position and source index were recognised" % L.site)
            continue
        I1, I2 = L.phis[i1], L.phis[i2]
        k = skolem("k")
        f = F.copy()
        for l in (le(r0, k), lt(k, r1)):
            f.add(l)
        T.need(f.bad or same(f, at_f(f, L.inits[oi], k), at(p1, k)), BOTH, "kept-range", path, "inside the range the genome starts with %s" % show(L.inits[oi])[:200], not imprecise(L.inits[oi]))
        for j, nm, props in ((i1, "position filled", BOTH), (i2, "gene taken", ("P22",))):
            a, b = F.copy(), F.copy()
            a.add(eqi(r1, n))
            b.add(lt(r1, n))
            good = (a.bad or a.entails(eq0(L.inits[j])) or a.entails(eqi(L.inits[j], n)) and False) and (b.bad or b.entails(eqi(L.inits[j], r1)))
            T.need(good, props, "start", path, "the first %s is at %s" % (nm, show(L.inits[j])[:100]), not imprecise(L.inits[j]))
        segs = [slice_(O, r0, r1), slice_(p1, r0, r1)]
        for b in L.backs:
            g = b.facts(F)
            if g.bad:
                continue
            x = at(p2, I2)
            T.need(is_succ(g, b.up[i2], I2, n), BOTH, "next-gene", path, "%s: after %s the second parent is read at %s" % (L.site, show(I2), show(b.up[i2])[:100]), not odd_terms(b.up[i2], (I1, I2, L.kvar)))
            u = b.up[oi]
            if u is O:
                T.need(any(g.entails(inseq(x, s)) for s in segs), BOTH, "skipped-gene", path, "%s: a gene is skipped that is not kept in the range" % L.site, plain(b, O, (I1, I2), x))
                T.need(g.entails(eqi(b.up[i1], I1)), BOTH, "next-position", path, "%s: a position is left out" % L.site, not odd_terms(b.up[i1], (I1, I2, L.kvar)))
            else:
                okv = u.a[1] is I1 and u.a[2] is x
                T.need(okv, BOTH, "filled-gene", path, "%s: position %s gets %s" % (L.site, show(u.a[1])[:80], show(u.a[2])[:80]), not odd_terms((u.a[1], u.a[2]), (I1, I2, L.kvar)))
                T.need(any(g.entails(bnot(inseq(x, s))) for s in segs), BOTH, "filled-gene", path, "%s: a gene is taken that may be kept in the range" % L.site, plain(b, O, (I1, I2), x))
                T.need(is_succ(g, b.up[i1], I1, n), BOTH, "next-position", path, "%s: after %s position %s is filled" % (L.site, show(I1), show(b.up[i1])[:100]), not odd_terms(b.up[i1], (I1, I2, L.kvar)))
        end = mk("phi", I1.a[0], I1.a[1], v.a[2])
        fin = F.copy()
        T.need(fin.entails(eqi(end, r0)) or fin.entails(eqi(at_exit(L, i1, v), r0)), BOTH, "all-positions", path, "%s may end before the position at the start of the range is reached" % L.site, False)


def at_exit(L, j, v):
    """the value of loop symbol j when the loop ends (v is another symbol of the loop at that time)"""
    p = L.phis[j]
    c = L.closed[j]
    return subst(c if c is not None else p, {L.kvar: v.a[2]})


def odd_terms(t, allowed):
    """does a value depend on loop symbols other than the given ones?"""
    seen = set()

    def odd(x):
        if isinstance(x, tuple):
            return any(odd(y) for y in x)
        if not is_t(x) or x in allowed or x in seen:
            return False
        seen.add(x)
        return x.op in ("unk", "uninit", "phi", "kap", "kappa") or any(odd(y) for y in x.a)

    return odd(t)


def plain(b, O, allowed, x):
    """no condition on x in this way through the loop involves loop symbols besides the genome and the given ones"""
    return not any(contains(l, x) and l.op not in ("le0", "eq0") and odd_terms(l, tuple(allowed) + (O, b.loop.kvar)) for l in b.lits)


def walk_kind(F, u, idx, P, Q):
    """does u lead from position idx to the position at which Q holds P's gene?"""
    n = slen(P)
    return same(F, u, mk_first(n, Q, ZERO, at(P, idx))) or same(F, u, mk_first(slen(Q), Q, ZERO, at(P, idx)))


def at_start(L, t):
    return subst(t, {p: i for p, i in zip(L.phis, L.inits)})


def cx(ctx, R, pid):
    path = CX + OPERATORS["Cycle"]
    p1, p2 = parents(ctx, path)
    n = slen(p1)
    T = Tagged(R, pid)
    e = ctx.engine()
    e.no_fold = True
    for o in ctx.sym(path, assume=[eqi(n, slen(p2))], eng=e):
        if o.F.bad:
            continue
        if o.lab != "ret":
            panics(ctx, T, path, o, p1, p2)
            continue
        v, F = result(o), o.F
        if F.entails(lt(n, I(2))) and (same(F, v, p1) or same(F, v, p2)):
            T.need(True, BOTH, "short-genomes", path, "a single gene")
            continue
        # the walk along one cycle: the loop that stores genes of the parents
        outer = inner = None
        for L in loops_of(o):
            for M in [M for b in L.backs for M in b.loops()]:
                if any(u.op == "store" and u.a[2].op == "at" and u.a[2].a[0] in (p1, p2) for b in M.backs for u in b.up):
                    outer, inner = L, M
        if outer is None:
            T.undecided("cycle-walk", path, "no loop that walks along a cycle inside a loop over the cycles was recognised")
            continue
        oi = next((j for j in range(len(inner.phis)) if any(b.up[j].op == "store" and b.up[j].a[2].op == "at" and b.up[j].a[2].a[0] in (p1, p2) for b in inner.backs)), None)
        O = inner.phis[oi]
        wi = next((j for j in range(len(inner.phis)) if j != oi and any(b.up[j].op == "store" and b.up[j].a[0] is inner.phis[j] for b in inner.backs)), None)
        pos = {b.up[oi].a[1] for b in inner.backs if b.up[oi].op == "store" and b.up[oi].a[0] is O}
        xi = inner.index(pos.copy().pop()) if len(pos) == 1 else None
        if xi is None or wi is None or outer.index(inner.inits[oi]) is None or outer.index(inner.inits[wi]) is None:
            T.undecided("cycle-walk", path, "%s: position and record of visited positions were not recognised" % inner.site)
            continue
        W, X = inner.phis[wi], inner.phis[xi]
        oO, oW = outer.index(inner.inits[oi]), outer.index(inner.inits[wi])
        known = (O, W, X, inner.kvar) + tuple(outer.phis) + (outer.kvar,)
        # v is the genome after the last walk
        if not (v.op == "phi" and (v.a[0], v.a[1]) in ((inner.uid, O.a[1]), (outer.uid, outer.phis[oO].a[1]))):
            T.undecided("cycle-walk", path, "the offspring is %s" % show(v)[:100])
            continue
        # ---- one step
        kinds = []
        for ob in outer.backs:
            for M in ob.loops():
                if M.uid != inner.uid:
                    continue
                for b in M.backs:
                    f = b.facts(ob.facts(F))
                    if f.bad:
                        continue
                    u, w, x2 = b.up[oi], b.up[wi], b.up[xi]
                    src = None
                    if u.op == "store" and u.a[0] is O and u.a[1] is X:
                        src = 1 if same(f, u.a[2], at(p1, X)) else 2 if same(f, u.a[2], at(p2, X)) else None
                    T.need(src, BOTH, "same-position", path, "%s: position %s gets %s" % (M.site, show(X), show(u)[-100:]), u.op == "store" and not odd_terms(u, known))
                    mark = w.op == "store" and w.a[0] is W and f.entails(eqi(w.a[1], X))
                    T.need(mark and w.a[2] is TRUE, ("P20",), "marked", path, "%s: a walked position is not marked (%s)" % (M.site, show(w)[:80]), w is W or w.op == "store" and not odd_terms(w, known))
                    T.need(f.entails(bnot(at(W, X))), ("P20",), "unvisited", path, "%s: a position is walked that may have been visited" % M.site, False)
                    d = "on" if walk_kind(f, x2, X, p1, p2) else "back" if walk_kind(f, x2, X, p2, p1) else None
                    T.need(d, BOTH, "next-in-cycle", path, "%s: position %s is followed by %s" % (M.site, show(X), show(x2)[:160]), not odd_terms(x2, known))
                    kinds.append((src, d, frozenset(l for l in b.lits if not occurs(l, lambda y: y is inner.kvar))))
        for a in kinds:
            for b in kinds:
                apart = any(bnot(l) in b[2] for l in a[2])
                T.need(apart or a[1] == b[1] or None in (a[1], b[1]), BOTH, "one-direction", path, "%s: the walk along one cycle may turn round" % inner.site)
                T.need(apart or a[0] == b[0] or None in (a[0], b[0]), BOTH, "one-parent", path, "%s: one cycle may take genes from both parents" % inner.site)
        # ---- from cycle to cycle
        T.need(same(F, outer.inits[oW], rep(FALSE, n)), ("P20",), "none-visited", path, "at first visited is %s" % show(outer.inits[oW])[:80], False)
        start = outer.index(inner.inits[xi])
        if start is None:
            start = next((j for j, c in enumerate(outer.closed) if c is not None and c is inner.inits[xi]), None)
        counted = start is None and inner.inits[xi] is outer.kvar or start is not None and outer.closed[start] is outer.kvar
        flags = [j for j, p in enumerate(outer.phis) if outer.inits[j] in (TRUE, FALSE)]
        # which parent a cycle takes its genes from, as a condition on one flag
        flag = first_is = None
        for j in flags:
            by = {}
            for s_, d, ls in kinds:
                if outer.phis[j] in ls:
                    by.setdefault(TRUE, set()).add(s_)
                elif bnot(outer.phis[j]) in ls:
                    by.setdefault(FALSE, set()).add(s_)
                else:
                    by = None
                    break
            if by and all(len(x) == 1 for x in by.values()) and len(by) == 2:
                flag, first_is = j, {k: x.copy().pop() for k, x in by.items()}
        if flag is None:
            T.undecided("alternating", path, "%s: the choice of the parent was not recognised" % outer.site, ("P22",))
        else:
            T.need(first_is[outer.inits[flag]] == 1, ("P22",), "first-cycle", path, "the first cycle takes its genes from parent %s" % first_is[outer.inits[flag]])
            T.need(first_is[TRUE] != first_is[FALSE], ("P22",), "alternating", path, "every cycle takes its genes from the same parent")
        for b in outer.backs:
            f = b.facts(F)
            if f.bad:
                continue
            walked = any(M.uid == inner.uid for M in b.loops())
            if walked:
                wx = b.up[oW]
                okx = wx.op == "phi" and wx.a[0] == inner.uid and b.up[oO].op == "phi" and b.up[oO].a[0] == inner.uid
                if not okx:
                    T.undecided("cycle-walk", path, "%s: %s" % (outer.site, show(b.up[oO])[:80]))
                    continue
                endx = mk("phi", inner.uid, X.a[1], wx.a[2])
                T.need(f.entails(at(wx, endx)), ("P20",), "whole-cycle", path, "%s: a walk may end before its cycle is closed" % inner.site, False)
                if flag is not None:
                    T.need(same(f, b.up[flag], bnot(outer.phis[flag])), ("P22",), "alternating", path, "%s: after a cycle the flag is %s" % (outer.site, show(b.up[flag])[:80]), not odd_terms(b.up[flag], known))
            elif flag is not None:
                T.need(b.up[flag] is outer.phis[flag], ("P22",), "alternating", path, "%s: the flag changes without a cycle" % outer.site, not odd_terms(b.up[flag], known))
            if counted:
                if not walked:
                    T.need(b.up[oW] is outer.phis[oW] and b.up[oO] is outer.phis[oO] and f.entails(at(outer.phis[oW], outer.kvar)), ("P20",), "every-cycle", path, "%s: a position is passed over that may not have been visited" % outer.site, False)
                elif flag is not None:
                    T.need(f.entails(bnot(at(outer.phis[oW], outer.kvar))), ("P22",), "alternating", path, "%s: the parents are exchanged although no new cycle starts at the position" % outer.site, not odd_terms(b.up[oW], known + (b.up[oW],)))
            elif walked:
                # the start of the next walk: a variable, or worked out from the record at the head of the loop
                if start is not None:
                    nx = b.up[start]
                else:
                    nx = subst(inner.inits[xi], {p: u for p, u in zip(outer.phis, b.up)})
                    g = Facts()
                    g.add(lt(ZERO, n))
                    for p, u, c in zip(outer.phis, outer.inits, outer.closed):
                        if p is outer.phis[oW]:
                            g.add(eqi(slen(u), n))
                    T.need(same(g, simp(g, at_start(outer, inner.inits[xi])), ZERO), ("P22",), "first-cycle", path, "the first walk starts at %s" % show(at_start(outer, inner.inits[xi]))[:100], False)
                    e0 = inner.inits[xi]
                    T.need(f.entails(bnot(at(outer.phis[oW], e0))), BOTH, "next-cycle", path, "%s: a walk starts at %s, which may have been visited" % (outer.site, show(e0)[:80]), False)
                    q = skolem("q")
                    g = f.copy()
                    g.add(lt(q, e0))
                    g.add(lt(q, n))
                    T.need(g.bad or g.entails(at(outer.phis[oW], q)), ("P22",), "cycle-order", path, "%s: a walk starts at %s, an earlier position may be in no cycle yet" % (outer.site, show(e0)[:80]), not odd_terms(e0, known))
                    continue
                if f.entails(le(n, nx)) and any(l.op == "forall" and contains(l, b.up[oW]) for l in f.order):
                    T.undecided("next-cycle", path, "%s: a search for the next start may end behind the last position" % outer.site)
                    continue
                free = f.entails(bnot(at(b.up[oW], nx)))
                T.need(free, BOTH, "next-cycle", path, "%s: the next walk starts at %s, which may have been visited: no gene would be taken, but the parents exchanged" % (outer.site, show(nx)[:80]), flag is not None and not odd_terms(nx, known) and pid == "P22")
                q = skolem("q")
                g = f.copy()
                g.add(lt(q, nx))
                g.add(lt(q, n))
                nx0 = subst(nx, {b.up[oW]: mk("in0", "$visited")})
                local = not contains(nx0, outer.phis[start]) and not contains(nx0, outer.kvar)
                if pid == "P22":
                    T.need(g.bad or g.entails(at(b.up[oW], q)), ("P22",), "cycle-order", path, "%s: the next walk starts at %s, an earlier position may be in no cycle yet" % (outer.site, show(nx)[:80]), local and not odd_terms(nx0, known))
        # ---- the end
        if counted:
            T.need(F.entails(le(n, outer.K)), ("P20",), "every-cycle", path, "the loop over the positions ends after %s" % show(outer.K)[:60], False)
        else:
            k = skolem("k")
            f = F.copy()
            f.add(lt(k, n))
            endW = mk("phi", inner.uid, W.a[1], v.a[2]) if v.a[0] == inner.uid else mk("phi", outer.uid, outer.phis[oW].a[1], v.a[2])
            T.need(f.entails(at(endW, k)), ("P20",), "every-cycle", path, "%s: positions may remain unvisited at the end" % outer.site, False)


def spx(ctx, R):
    path = CX + OPERATORS["SinglePoint"]
    p1, p2 = parents(ctx, path)
    n = slen(p1)
    point = mk("in0", ctx.arg(path, 2))
    for o in ctx.sym(path, assume=[eqi(n, slen(p2))]):
        if o.F.bad:
            continue
        if o.lab != "ret":
            R.need(False, "every-point", path, "panics: %s" % (o.val,), (o.F,))
            continue
        v = result(o)
        R.need(o.F.entails(eqi(slen(v), n)), "all-positions", path, "the offspring has %s genes" % show(slen(v))[:100], (v,))
        i = skolem("i")
        for l, P, nm in ((lt(i, point), p1, "before the point"), (le(point, i), p2, "from the point on")):
            f = o.F.copy()
            for x in (lt(i, n), lt(i, slen(v)), l):
                f.add(x)
            if f.bad:
                continue
            for f2, x in elem(f, v, i):
                if not f2.bad:
                    R.need(same(f2, x, at(P, i)), "single-point", path, "a position %s gets %s" % (nm, show(simp(f2, x))[:160]), (x,))


# ------------------------------------------------------------ partitions
CN, CP = CX.replace("crossover::", "") + "common_neighbors", CX.replace("crossover::", "") + "common_partitions"


def without(F, u, P, i, T, path, site):
    """is u the list P without its element i, apart from taking genes of that element out of the others and dropping empty ones?
    None: not recognised"""
    n = slen(P)
    if u.op == "swaprem" and u.a[0] is P and F.entails(eqi(u.a[1], i)) or u.op == "remove" and u.a[0] is P and F.entails(eqi(u.a[1], i)):
        return True
    if same(F, u, cat(slice_(P, ZERO, i), slice_(P, addc(i, 1), n))):
        return True
    part = at(P, i)
    if u.op in ("comp", "fcomp"):
        v = skolem("p")
        bodies = inst(u, v)
        cond = bodies[0] if u.op == "fcomp" else TRUE
        body = bodies[-1]
        # the list the elements come from
        base = None
        for x in subterms(body):
            if x.op == "at" and x.a[1] is v and F.entails(eqi(slen(x.a[0]), u.a[0])):
                base = x.a[0] if base in (None, x.a[0]) else False
        if not base:
            return None
        el = at(base, v)
        if body is not el:
            # a filtered copy of the element: only genes of the chosen partition may go
            if body.op != "fcomp":
                return None
            w = skolem("g")
            c2, b2 = inst(body, w)
            if b2 is not at(el, w) or not F.entails(eqi(body.a[0], slen(el))):
                return None
            g = at(el, w)
            for c in (c2.a if c2.op == "and" else (c2,)):
                away = c.op == "not" and c.a[0].op in ("in", "inseq") and c.a[0].a[0] is g and holds_only(F, c.a[0].a[1], part)
                if not away:
                    pos = c.op in ("in", "inseq") and c.a[0] is g and holds_only(F, c.a[1], part)
                    T.need(False, ("P20",), "remaining-genes", path, "%s: only genes with %s stay in the remaining partitions" % (site, show(c)[:120]), pos)
                    return "reported"
        lens = [slen(body), slen(el)]
        if cond is not TRUE:
            for c in (cond.a if cond.op == "and" else (cond,)):
                ok = any(c is bnot(eq0(x)) or c is lt(ZERO, x) for x in lens)
                if not ok:
                    sure = c.op in ("le0", "eq0", "not") and any(contains(c, x) for x in lens)
                    f = F.copy()
                    f.add(c)
                    T.need(False, ("P20",), "remaining-partitions", path, "%s: only partitions with %s stay" % (site, show(c)[:120]), sure)
                    return "reported"
        return without(F, base, P, i, T, path, site)
    return None


def holds_only(F, s, part):
    """does the set or sequence hold genes of `part` only?"""
    if s is part:
        return True
    if s.op == "sext":
        return holds_only(F, s.a[1], part) and (s.a[0].op == "sempty" or holds_only(F, s.a[0], part))
    if s.op in ("rev", "slice", "perm", "sort"):
        return holds_only(F, s.a[0], part)
    return same(F, s, part)


def gpx(ctx, R, pid):
    path = CX + OPERATORS["GeneralizedPartition2"]
    p1, p2 = parents(ctx, path)
    n = slen(p1)
    T = Tagged(R, pid)
    e = ctx.engine(opaque=[CP])
    e.no_fold = True
    for o in ctx.sym(path, assume=[eqi(n, slen(p2))], eng=e):
        if o.F.bad:
            continue
        F = o.F
        if o.lab != "ret":
            own = any(l.op == "le0" and any(k == -1 and x.op == "res" for x, k in lin_parts(l.a[0])[1]) for l in F.order)
            if own:
                T.need(True, ("P20",), "panic-free", path, "%s: the selector's index does not exist" % (o.val,))
            else:
                T.undecided("panic-free", path, "a panic is not seen to be impossible: %s" % (o.val,), ("P20",))
            continue
        v = result(o)
        if same(F, v, p1) or same(F, v, p2):
            T.need(True, ("P20",), "permutation", path, "returns a parent")
            continue
        if F.entails(eq0(n)) and F.entails(eq0(slen(v))):
            T.need(True, ("P20",), "permutation", path, "no genes")
            continue
        hit = [(L, L.index(v)) for L in loops_of(o) if L.index(v) is not None]
        if not hit:
            T.undecided("rounds", path, "the offspring %s is not assembled by a recognised loop" % show(v)[:120])
            continue
        L, oi = hit[0]
        O = L.phis[oi]
        pi = [j for j, x in enumerate(L.inits) if x.op == "call" and x.a[0] == CP and {genome(x.a[1]), genome(x.a[2])} == {p1, p2}]
        if len(pi) != 1:
            T.undecided("rounds", path, "%s: the list of remaining partitions was not recognised" % L.site)
            continue
        pi = pi[0]
        P = L.phis[pi]
        T.need(L.inits[oi] is EMPTY, ("P20",), "starts-empty", path, "the offspring starts as %s" % show(L.inits[oi])[:80], not imprecise(L.inits[oi]))
        for b in L.backs:
            f = b.facts(F)
            if f.bad:
                continue
            u = b.up[oi]
            tail = cat(*u.a[1:]) if u.op == "cat" and u.a[0] is O else None
            src = None
            if tail is not None:
                for x in subterms(tail):
                    if x.op == "at" and x.a[0] is P:
                        src = x
            if src is None:
                T.need(False, ("P20",), "whole-partition", path, "%s: the offspring becomes %s" % (L.site, show(u)[:120]), u is O)
                continue
            i = src.a[1]
            T.need(rearranged(f, tail, src), ("P20",), "whole-partition", path, "%s: of the chosen partition %s is added" % (L.site, show(tail)[:120]), not odd_terms(tail, tuple(L.phis) + (L.kvar,)))
            w = without(f, b.up[pi], P, i, T, path, L.site)
            if w is None:
                keep = b.up[pi] is P
                T.need(False, ("P20",), "remaining-partitions", path, "%s: afterwards the partitions are %s" % (L.site, show(b.up[pi])[:120]), keep)
            elif w is True:
                T.need(True, ("P20",), "remaining-partitions", path, "%s: the chosen partition is taken away, the others keep their genes" % L.site)
        left = slen(at_exit(L, pi, v))
        # the loop ends on a test of the number of partitions that lets some remain
        sure = any(l.op == "le0" and any(x is left and k > 0 for x, k in lin_parts(l.a[0])[1]) for l in F.order)
        T.need(F.entails(eq0(left)), ("P20",), "all-partitions", path, "%s may end with partitions left" % L.site, sure)


def p33(ctx, R):
    partitions(ctx, R)
    neighbours(ctx, R)


def pair_at(C, j):
    x = at(C, j)
    return fld(x, 0, "()", 0, 2), fld(x, 1, "()", 0, 2)


def partitions(ctx, R, pid="P33"):
    path = CP
    g1, g2 = parents(ctx, path)
    n = slen(g1)
    e = ctx.engine(opaque=[CN])
    e.no_fold = True
    T = Tagged(R, pid)
    W = (pid,)
    for o in ctx.sym(path, eng=e):
        if o.F.bad:
            continue
        F, v = o.F, None
        if o.lab != "ret":
            T.need(False, W, "panic-free", path, "panics: %s" % (o.val,), False)
            continue
        v = result(o)
        if F.entails(eq0(n)) and F.entails(eq0(slen(v))):
            T.need(True, W, "every-gene", path, "no genes, no partitions")
            continue
        hit = [(L, L.index(v)) for L in loops_of(o) if L.index(v) is not None]
        if not hit:
            T.undecided("every-gene", path, "the partitions %s are not collected by a recognised loop" % show(v)[:100], W)
            continue
        L, oi = hit[0]
        Ps, K = L.phis[oi], L.kvar
        if not same(F, L.K, n) and not F.entails(eqi(at_exit(L, oi, v).a[2] if v.op == "phi" else L.K, n)):
            T.undecided("every-gene", path, "%s: the loop does not run over the genes of the first genome" % L.site, W)
            continue
        gene = at(g1, K)
        T.need(L.inits[oi] is EMPTY, W, "every-gene", path, "the list starts as %s" % show(L.inits[oi])[:80], not imprecise(L.inits[oi]))
        vis = [j for j, x in enumerate(L.inits) if x.op == "sempty"]
        if len(vis) != 1:
            T.undecided("every-gene", path, "%s: no set of used genes was recognised" % L.site, W)
            continue
        vi = vis[0]
        V = L.phis[vi]
        for b in L.backs:
            f = b.facts(F)
            if f.bad:
                continue
            u, w = b.up[oi], b.up[vi]
            if u is Ps:
                T.need(f.entails(isin(gene, V)), W, "every-gene", path, "%s: a gene is passed over that may not be in a partition" % L.site, not any(contains(l, gene) and odd_terms(l, (V, K)) for l in b.lits))
                ws = added(w, V)
                T.need(w is V or ws is not None and all(f.entails(isin(x, V)) for x in ws), W, "every-gene", path, "%s: genes are marked as used without being in a partition: %s" % (L.site, show(w)[:80]), not odd_terms(w, (V, K)))
                continue
            if not (u.op == "cat" and u.a[0] is Ps and len(u.a) == 2 and u.a[1].op == "lit" and len(u.a[1].a) == 1):
                T.undecided("every-gene", path, "%s: the list becomes %s" % (L.site, show(u)[:100]), W)
                continue
            T.need(f.entails(bnot(isin(gene, V))), W, "gene-once", path, "%s: a partition is started at a gene that may be in another one" % L.site, not any(contains(l, gene) and odd_terms(l, (V, K)) for l in b.lits))
            S = u.a[1].a[0]
            if S.op in ("rev", "sort", "sortby") and any(M.index(S.a[0]) is not None for M in b.loops()):
                # the genes after the first were picked later, so turning the sequence round moves another gene to the front
                if not f.entails(le(slen(S.a[0]), ONE)):
                    T.need(False, W, "first-unused", path, "%s: a partition is turned round or sorted before it is added" % L.site, True)
                S = S.a[0]
            inner = next((M for M in b.loops() if M.index(S) is not None), None)
            if inner is None:
                one = S.op == "lit" and len(S.a) == 1
                xs = added(w, V)
                if one and xs is not None:
                    T.need(same(f, S.a[0], gene), W, "first-unused", path, "%s: the partition starts with %s" % (L.site, show(S.a[0])[:80]))
                    T.need(one_of(f, gene, xs), W, "gene-once", path, "%s: the gene is not marked as used" % L.site)
                    if pid == "P33":
                        maximal(T, W, path, f, S, w, L.site, (g1, g2))
                else:
                    T.undecided("every-gene", path, "%s: the partition %s" % (L.site, show(S)[:80]), W)
                continue
            si = inner.index(S)
            wi = inner.index(w)
            s0 = inner.inits[si]
            T.need(s0.op == "lit" and len(s0.a) == 1 and same(f, s0.a[0], gene), W, "first-unused", path, "%s: a partition starts as %s" % (L.site, show(s0)[:80]), not odd_terms(s0, (K,)))
            if wi is None:
                fixed = added(w, V)
                grows = any(c.up[si] is not inner.phis[si] for c in inner.backs)
                T.need(not (fixed is not None and grows), W, "gene-once", path, "%s: the genes added to a partition are not marked as used" % inner.site, True)
                if not (fixed is not None and grows):
                    T.undecided("gene-once", path, "%s: used genes are recorded as %s" % (L.site, show(w)[:80]), W)
                continue
            xs = added(inner.inits[wi], V)
            T.need(xs is not None and one_of(f, gene, xs), W, "gene-once", path, "%s: the first gene of a partition is not marked as used" % L.site, xs is not None)
            T.need(xs is not None and all(same(f, x, gene) for x in xs), W, "every-gene", path, "%s: genes outside the partition are marked as used" % L.site, xs is not None)
            for c in inner.backs:
                g = c.facts(f)
                if g.bad:
                    continue
                us, uv = c.up[si], c.up[wi]
                Si, Vi = inner.phis[si], inner.phis[wi]
                if not (us.op == "cat" and us.a[0] is Si and len(us.a) == 2 and us.a[1].op == "lit" and len(us.a[1].a) == 1):
                    T.undecided("linked", path, "%s: the partition becomes %s" % (inner.site, show(us)[:80]), W)
                    continue
                x = us.a[1].a[0]
                ys = added(uv, Vi)
                fresh = not any(contains(l, x) and odd_terms(l, (Vi, Si, K, inner.kvar)) for l in c.lits)
                T.need(g.entails(bnot(isin(x, Vi))), W, "gene-once", path, "%s: a gene is added that may be used already: %s" % (inner.site, show(x)[:80]), fresh)
                T.need(ys is not None and one_of(g, x, ys), W, "gene-once", path, "%s: the added gene is not marked as used" % inner.site, ys is not None)
                T.need(ys is not None and all(same(g, y, x) for y in ys), W, "every-gene", path, "%s: genes outside the partition are marked as used" % inner.site, ys is not None)
                lasts = tracks_last(inner, si, f)
                linked = None
                isl = lambda z: any(g.entails(peq(z, last)) or same(g, z, last) for last in lasts)
                for t in subterms(x):
                    if t.op == "at" and t.a[0].op == "call" and t.a[0].a[0] == CN and {genome(t.a[0].a[1]), genome(t.a[0].a[2])} == {g1, g2}:
                        a, d = pair_at(t.a[0], t.a[1])
                        linked = same(g, x, a) and isl(d) or same(g, x, d) and isl(a)
                        break
                strange = any(odd_terms(l, (Si, Vi, inner.kvar, K)) for l in c.lits if linked is False and (contains(l, a) or contains(l, d)))
                T.need(linked, W, "linked", path, "%s: the added gene %s is not seen to be a common neighbour of the last one" % (inner.site, show(x)[:80]), linked is False and not strange)
            if pid == "P33":
                maximal(T, W, path, f, S, w, inner.site, (g1, g2), [at_exit(inner, inner.phis.index(q), S) for q in tracks_last(inner, si, f) if q in inner.phis])


def tracks_last(L, si, F):
    """terms for the last gene of the sequence that the loop extends: itself, or a variable that follows it"""
    S = L.phis[si]
    out = [at(S, addc(slen(S), -1))]
    s0 = L.inits[si]
    for j, p in enumerate(L.phis):
        if j == si or s0.op != "lit" or not s0.a or not same(F, L.inits[j], s0.a[-1]):
            continue
        good = True
        for b in L.backs:
            u = b.up[si]
            if u is S and b.up[j] is p:
                continue
            good &= u.op == "cat" and u.a[-1].op == "lit" and same(b.facts(F), u.a[-1].a[-1], b.up[j])
        if good:
            out.append(p)
    return out


def maximal(T, W, path, f, S, V, site, gs, also=()):
    """a partition ends only where the last gene has no unused common neighbour"""
    if any(l.op == "or" for l in f.order) and not leaves(f):
        return
    C = None
    for l in f.order:
        for t in subterms(l):
            if t.op == "call" and t.a[0] == CN and {genome(t.a[1]), genome(t.a[2])} == set(gs):
                C = t
    if C is None:
        T.undecided("maximal", path, "%s: the common neighbours are not looked at" % site, W)
        return
    lasts = [at(S, addc(slen(S), -1))] + list(also)
    is_last = lambda l, x: l.op == "peq" and any(set(l.a) == {x, z} for z in lasts)
    # a pair at hand whose unused end could have been added
    for t in {t for l in f.order for t in subterms(l) if t.op == "first" and t.a[0] is slen(C)}:
        a, d = pair_at(C, t)
        cases = leaves(f)
        if cases and f.entails(lt(t, slen(C))) and all(
                any(any(is_last(l, x) for l in g.order) and bnot(isin(y, V)) in g.lits for x, y in ((a, d), (d, a))) for g in cases):
            T.need(False, W, "maximal", path, "%s: a partition ends although a common neighbour of its last gene is unused" % site, True)
            return
    j = skolem("j")
    a, d = pair_at(C, j)
    base = Facts()
    for l in f.order:
        if l.op == "forall" and l.a[0] is slen(C):
            base.add(inst(l, j)[0])
    good, sure = True, False
    for x, y in ((a, d), (d, a)):
        for g in leaves(base):
            # where the last gene is this side of the pair, the other side is used
            if any(l.op == "not" and is_last(l.a[0], x) for l in g.order):
                continue
            eq = {y}
            if any(is_last(l, y) for l in g.order):
                eq |= {x} | set(lasts)
            if not any(l.op == "in" and l.a[0] in eq and l.a[1] is V for l in g.order):
                good = False
                ends = {a, d} | set(lasts)
                plain = (lambda l: l.op == "peq" and set(l.a) <= ends or l.op == "in" and l.a[0] in ends and l.a[1] is V)
                sure |= bool(base.order) and all(plain(l.a[0] if l.op == "not" else l) for l in g.order)
    T.need(good, W, "maximal", path, "%s: a partition may end at a gene that still has an unused common neighbour" % site, sure)


def leaves(f, fuel=6):
    """the cases of the disjunctions among the facts"""
    if f.bad:
        return []
    d = next((l for l in f.order if l.op == "or"), None)
    if d is None or not fuel:
        return [f]
    out = []
    for i, x in enumerate(d.a):
        g = f.copy()
        g.lits.discard(d)
        g.order.remove(d)
        for y in d.a[:i]:
            g.add(bnot(y))
        out += leaves(g.add(x), fuel - 1)
    return out


def neighbours(ctx, R):
    path = CN
    g1, g2 = parents(ctx, path)
    n1, n2 = slen(g1), slen(g2)
    for o in ctx.sym(path, assume=[le(I(3), n1), le(I(3), n2)]):
        if o.F.bad:
            continue
        if o.lab != "ret":
            R.need(False, "panic-free", path, "panics: %s" % (o.val,), (o.F,))
            continue
        F, v = o.F, result(o)
        if F.entails(le(n1, n2)):
            s, l = g1, g2
        elif F.entails(le(n2, n1)):
            s, l = g2, g1
        else:
            R.undecided("shared-pairs", path, "which genome is the shorter one is not decided")
            continue
        if F.entails(eqi(n1, n2)) and v.op == "fcomp" and not any(x is s for x in subterms(v.a[3])):
            s, l = l, s
        if v.op != "fcomp":
            R.need(False, "shared-pairs", path, "the result is %s" % show(v)[:160], (v,)) if v is EMPTY else R.undecided("shared-pairs", path, "the result is %s" % show(v)[:160])
            continue
        n, m = slen(s), slen(l)
        R.need(F.entails(eqi(v.a[0], n)), "every-pair", path, "of the %s cyclically adjacent pairs of the shorter genome %s are looked at" % (show(n), show(v.a[0])[:60]), (v.a[0],))
        k = skolem("k")
        A, B_ = mk("in0", "$A"), mk("in0", "$B")
        norms = []
        for last in (False, True):
            f = F.copy()
            f.add(eqi(k, addc(n, -1)) if last else lt(addc(k, 1), n))
            cond, body = inst(v, k)
            x, y = at(s, k), (at(s, ZERO) if last else at(s, addc(k, 1)))
            if last:
                x = at(s, addc(n, -1))
                cond, body = subst(cond, {k: addc(n, -1)}), subst(body, {k: addc(n, -1)})
            cond, body = simp(f, cond), simp(f, body)
            e = subst(body, {x: A, y: B_})
            norms.append(("the shorter genome", e))
            if occurs(e, lambda t: t in (s, l)):
                R.need(False, "every-pair", path, "the pair of gene k and the next one is %s" % show(body)[:160], (body,))
                continue
            # the condition: some pair of the other genome is the same
            parts = cond.a if cond.op == "or" else (cond,)
            total, items, odd = ZERO, [], None
            for c in parts:
                if c.op == "inseq" and same(f, c.a[0], body):
                    items.append(c.a[1])
                elif c.op == "in" and same(f, c.a[0], body) and seq_of_set(c.a[1]) is not None:
                    items.append(seq_of_set(c.a[1]))
                elif c.op == "peq" and any(same(f, z, body) for z in c.a):
                    items.append(lit(c.a[1] if same(f, c.a[0], body) else c.a[0]))
                else:
                    odd = c
            if odd is not None:
                negs = odd.a if odd.op == "and" else (odd,)
                if all(c.op == "not" and (c.a[0].op in ("in", "inseq") and same(f, c.a[0].a[0], body) or c.a[0].op == "peq" and any(same(f, z, body) for z in c.a[0].a)) for c in negs):
                    R.violation("shared", path, "a pair is kept when it is not a pair of the other genome: %s" % show(odd)[:160])
                    continue
                R.undecided("shared", path, "a pair is kept when %s" % show(odd)[:160])
                continue
            seen = []
            for it in items:
                if it.op == "cat":
                    seen += list(it.a)
                else:
                    seen.append(it)
            covered = []
            for it in seen:
                if it.op == "lit":
                    for z in it.a:
                        if unclear_pair(z):
                            R.undecided("shared", path, "a pair is compared with %s" % show(z)[:120])
                            return
                        e2 = subst(simp(f, z), {at(l, addc(m, -1)): A, at(l, ZERO): B_})
                        covered.append((addc(m, -1), m))
                        norms.append(("the longer genome", e2))
                        if occurs(e2, lambda t: t in (s, l)):
                            R.need(False, "shared", path, "a pair is compared with %s" % show(z)[:120], (z,))
                else:
                    q = skolem("q")
                    f3 = f.copy()
                    f3.add(lt(q, slen(it)))
                    z = simp(f3, at(it, q))
                    if unclear_pair(z):
                        R.undecided("shared", path, "a pair is compared with %s" % show(z)[:120])
                        return
                    e2 = subst(z, {at(l, q): A, at(l, addc(q, 1)): B_})
                    covered.append((ZERO, slen(it)))
                    norms.append(("the longer genome", e2))
                    if occurs(e2, lambda t: t in (s, l)):
                        R.need(False, "shared", path, "a pair is compared with %s" % show(z)[:120], (z,))
            R.need(tiles(f, covered, ZERO, m), "shared", path, "pairs are compared with %s of the other genome" % [(show(a), show(b)) for a, b in covered], tuple(x for c in covered for x in c))
        for who, e in norms:
            good = True
            for c, d in ((A, B_), (B_, A)):
                f = Facts()
                f.add(mk("plt", c, d))
                f.add(bnot(mk("plt", d, c)))
                f.add(bnot(peq(c, d)))
                r1 = [x for _, (x,) in splits(f, e)]
                r2 = [x for _, (x,) in splits(f, subst(e, {A: B_, B_: A}))]
                r0 = [x for _, (x,) in splits(f, norms[0][1])]
                good &= len(r1) == 1 and len(r2) == 1 and len(r0) == 1 and r1[0] is r2[0] and r1[0] is r0[0] and r1[0] in (tup(A, B_), tup(B_, A))
            R.need(good, "unordered", path, "a pair of genes A, B of %s is represented by %s" % (who, show(e)[:120]), (e,))


def unclear_pair(z):
    """a gene of the pair depends on a position, or comes out of joined sequences"""
    return occurs(z, lambda t: t.op == "ite" and t.a[0].op in ("le0", "eq0", "not") and (t.a[0].op != "not" or t.a[0].a[0].op in ("le0", "eq0")) or t.op == "at" and t.a[0].op in ("cat", "rot"))


def seq_of_set(s):
    if s.op == "sext" and s.a[0].op == "sempty":
        return s.a[1]
    return None


def p22(ctx, R):
    spx(ctx, R)
    pmx(ctx, R, "P22")
    ox(ctx, R, "P22")
    cx(ctx, R, "P22")


def p20(ctx, R):
    constructive(ctx, R, "sequential_constructive_crossover")
    constructive(ctx, R, "edge_recombination_crossover")
    pmx(ctx, R, "P20")
    ox(ctx, R, "P20")
    cx(ctx, R, "P20")
    gpx(ctx, R, "P20")
    partitions(ctx, R, "P20")


RULES = {"P21": p21, "P20": p20, "P22": p22, "P33": p33}
