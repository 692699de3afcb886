"""P39: every loop ends after a number of rounds bounded by the lengths and numbers it is given"""
from base import *
import base
import r_cross
import r_alg
from cross_util import *

# the loop over the generations ends when the user's callback says so (P01)
DRIVEN = ("run", "evolve_individual", "evolve_population")


def tells(l, b, F):
    """the largest number of rounds as this way through the body limits it; None when it does not"""
    g = b.facts(F)
    if g.bad:
        return ZERO
    for x in g.order:
        if x.op == "le0":
            c, it = lin_parts(x.a[0])
            if (dict(it).get(l.kvar) or 0) >= 1:
                N = sub(mul(I(dict(it)[l.kvar]), l.kvar), x.a[0])
                if not contains(N, l.kvar) and not occurs(N, lambda t: t.op == "phi" and t.a[0] == l.uid):
                    return N
    return None


def uses(t, l):
    return occurs(t, lambda x: x is l.kvar or x.op == "phi" and x.a[0] == l.uid)


def shrinks(l, F):
    """a sequence of the loop that gets shorter in every round"""
    for p, ps in ((p, j) for j, p in enumerate(l.phis)):
        good = True
        for b in l.backs:
            g = b.facts(F)
            u = b.up[ps]
            if g.bad:
                continue
            if u.op == "fcomp" and g.entails(lt(u.a[0], slen(p))):
                continue
            if not g.entails(lt(slen(u), slen(p))):
                good = False
                break
        if good:
            return p
    return None


def marks(l, F):
    """a record of fixed length in which every round sets a flag that was not set"""
    for j, p in enumerate(l.phis):
        good = bool(l.backs)
        for b in l.backs:
            g, u = b.facts(F), b.up[j]
            if g.bad:
                continue
            c = u.a[2] if u.op == "store" and u.a[0] is p else None
            if c is TRUE:
                good = g.entails(bnot(at(p, u.a[1])))
            elif c is FALSE:
                good = g.entails(at(p, u.a[1]))
            else:
                good = False
            if not good:
                break
        if good:
            return p
    return None


def collects(l, F, o, seqs):
    """a set of the loop that gains an element of a fixed collection in every round: of the given genomes or the result of a call"""
    seqs = list(seqs) + [t for t in subterms(tuple(u for b in l.backs for u in b.up)) if t.op == "call" and not uses(t, l)]
    G = Genes(o, seqs)
    for j, p in enumerate(l.phis):
        good = bool(l.backs)
        for b in l.backs:
            g = b.facts(F)
            if g.bad:
                continue
            xs = added(b.up[j], p)
            if not xs or not any(g.entails(bnot(isin(x, p))) and G.gene(x) for x in xs):
                good = False
                break
        if good:
            return p
    return None


NEWS = ("draw", "res", "post")


def again(l, b, F):
    """can this way through the body be taken again and again? true when its own conditions hold in the next round as
    well (those that depend on values drawn, or made by the user's code, in the round: for some such values)"""
    g = b.facts(F)
    if g.bad:
        return False
    hold = [mk("in0", "$next%d" % j) for j in range(len(l.phis))]
    m, up = {}, {}
    for p, c, u, h in zip(l.phis, l.closed, b.up, hold):
        m[p] = h
        if c is not None:
            m[c] = h
        # a variable whose new value equals its old one has not changed
        up[h] = p if c is None and g.entails(peq(u, p)) else u
    open_ = []
    for x in b.lits:
        old = {t for t in subterms(x) if t.op in NEWS}
        keep = {t: mk("in0", "$same%d" % t.id) for t in old}
        y = subst(x, keep)
        y = subst(y, m)
        y = subst(y, {l.kvar: addc(l.kvar, 1)})
        y = subst(y, {v: t for t, v in keep.items()})
        y = subst(y, up)
        if not g.entails(y):
            if any(t.op in NEWS and uses(t, l) for t in subterms(y)):
                open_.append(y)
            else:
                return False
    h = g.copy()
    for y in open_:
        h.add(y)
    return not h.bad


def steady(l, b):
    """are the conditions of this way through the body, and what it computes, understood?"""
    return not any(occurs(x, lambda t: t.op in ("unk", "uninit", "narrow32")) for x in b.lits if is_t(x))


def never_met(l, F, n_of):
    """`position != end` over positions below n where `end` may be n: never met"""
    for b in l.backs:
        g = b.facts(F)
        if g.bad:
            continue
        for x in b.lits:
            if x.op != "not" or x.a[0].op != "eq0":
                continue
            c, it = lin_parts(x.a[0].a[0])
            for j, p in enumerate(l.phis):
                k = dict(it).get(p)
                if k not in (1, -1):
                    continue
                X = sub(p, x.a[0].a[0]) if k == 1 else add(p, x.a[0].a[0])
                if uses(X, l):
                    continue
                ups = [(c.facts(F), c.up[j]) for c in l.backs]
                if not all(f.bad or f.entails(eqi(u, p)) or f.entails(eqi(u, addc(p, 1))) or f.entails(eq0(u)) for f, u in ups):
                    continue
                for n in n_of:
                    if g.entails(lt(p, n)) and all(f.bad or f.entails(lt(u, n)) for f, u in ups):
                        h = F.copy()
                        h.add(eqi(X, n))
                        h2 = g.copy()
                        h2.add(eqi(X, n))
                        if not h.bad and not h2.bad and not imprecise(X):
                            return p, X, n
    return None


def lemma(ctx, rule):
    """does the operator satisfy the obligations from which the length of its loops follows? and where does it not mark the
    positions it walks"""
    S = Report("P20", "", 0)
    try:
        rule(ctx, S, "P20")
    except (base.engine.Limit, base.Missing):
        return False, ()
    unmarked = {x[3].split(": ")[0] for x in S.obl if x[0] == "violation" and x[1] == "marked" and "(phi" in x[3]}
    wrong = {x[1] for x in S.obl if x[0] != "ok"}
    return bool(S.obl) and not wrong, unmarked if "next-in-cycle" not in wrong else ()


def owner(site):
    return site.split("@")[0].rsplit("::", 1)[-1]


def endless(l, F, path, bad):
    for b in l.backs:
        if tells(l, b, F) is None and steady(l, b) and again(l, b, F):
            how = sorted({str(x[2]) for x in b.ev if x[0] in ("draw", "hook", "callback")})
            bad[l.site] = (path, "a way through the loop repeats its own conditions%s" % (" (%s)" % ", ".join(how) if how else ""))
            return True
    return False


def forgets(l, b, F):
    """a way that appends an element not in some record of the elements used, and does not enter it there"""
    g = b.facts(F)
    if g.bad:
        return None
    for P, u in zip(l.phis, b.up):
        if not (u.op == "cat" and u.a[0] is P and len(u.a) == 2 and u.a[1].op == "lit" and len(u.a[1].a) == 1):
            continue
        x = u.a[1].a[0]
        if g.entails(bnot(inseq(x, P))) or not contains(x, P):
            continue
        sets = [t.a[1] for t in subterms(tuple(b.lits)) if t.op == "in" and not has_bv(t.a[1])]
        out = [S for S in sets if g.entails(bnot(isin(x, S)))]
        after = [b.up[l.index(S)] if l.index(S) is not None else S for S in out]
        if out and not any(g.entails(isin(x, S)) for S in after) and not any(v.op in ("sins", "sext", "ite", "store") for v in b.up):
            return x
    return None


def p39(ctx, R):
    fns = [f for f in ctx.p.fns.values() if not f.is_closure]
    # operators with loops of their own: each is judged by itself, not again in its callers
    apart = [x for x in [r_cross.CX + v for v in r_cross.OPERATORS.values()] + [r_cross.CP, r_cross.CN] if x in ctx.p.fns]
    names = {f.path.split("::")[-1] for f in fns}
    status, bad, lem = {}, {}, {}     # (site, function) -> bounded?

    def each(f, fold):
        own = f.path.split("::")[-1]
        e = ctx.engine(hooks=[h for h in r_alg.HOOKS if h[1] != own] + [(r_alg.EA, "model")], opaque=[x for x in apart if x != f.path])
        e.no_fold = fold
        outs = ctx.sym(f.path, eng=e)
        for site in e.stuck:
            bad.setdefault(site, (f.path, "the loop has no way out"))
        seen = set()
        for o in outs:
            for l in all_loops(o):
                if own in DRIVEN and l.backs and all(any(e[0] == "callback" for e in b.ev) for b in l.backs):
                    continue
                if (l.uid, o.lab) not in seen:
                    seen.add((l.uid, o.lab))
                    yield o, l

    def bounded(f, o, l):
        F, name = o.F, f.path.split("::")[-1]
        seqs = [mk("deref", mk("in0", f.locals[i + 1].get("n") or "a%d" % i)) for i in range(f.argc)]
        if all(tells(l, b, F) is not None for b in l.backs) or shrinks(l, F) is not None or marks(l, F) is not None or walks_marked(l, F) or collects(l, F, o, seqs) is not None:
            return True
        if endless(l, F, f.path, bad):
            return False
        nm = never_met(l, F, [slen(s) for s in seqs])
        if nm:
            bad[l.site] = (f.path, "%s stays below %s and is compared with %s, which may be as large" % (show(nm[0]), show(nm[2]), show(nm[1])))
            return False
        for op, rule in (("Order", r_cross.ox), ("PartiallyMapped", r_cross.pmx), ("Cycle", r_cross.cx)):
            if r_cross.OPERATORS[op] == name:
                if op not in lem:
                    lem[op] = lemma(ctx, rule)
                if l.site in lem[op][1]:
                    bad[l.site] = (f.path, "a position is walked without being marked, so a walk along a cycle never ends")
                return lem[op][0]
        return False

    for f in sorted(fns, key=lambda f: f.path):
        try:
            for o, l in each(f, True):
                k = (l.site, f.path)
                status[k] = status.get(k, True) and bounded(f, o, l)
        except base.engine.Limit as x:
            R.undecided("understood", f.path, str(x)[:200])
    # a loop bounded in the function it is written in needs no bound in the callers
    home = {s for (s, p), v in status.items() if v and s.split("@")[0] == p}
    und = {k for k, v in status.items() if not v and k[0] not in home}
    # once more with the values of the loops' variables left as they are
    for p in sorted({p for s, p in und if s not in bad}):
        try:
            for o, l in each(ctx.p.fns[p], 2):
                if (l.site, p) in und and l.site not in bad and not endless(l, o.F, p, bad):
                    for b in l.backs:
                        if tells(l, b, o.F) is None and steady(l, b) and forgets(l, b, o.F) is not None:
                            bad[l.site] = (p, "%s is taken although unused and not recorded as used, so it can be taken again" % show(forgets(l, b, o.F))[:100])
        except base.engine.Limit:
            continue
    ox = r_cross.CX + r_cross.OPERATORS["Order"]
    if ox in ctx.p.fns:
        # an empty range at the end of the genome: is there a way out of the loops?
        p1, p2, n, r0, r1, args, assume = r_cross.ranged(ctx, ox)
        e = ctx.engine()
        e.no_fold = 2
        try:
            ctx.sym(ox, args=args, assume=assume + [eqi(r0, n)], eng=e)
        except base.engine.Limit:
            pass
        for site in e.stuck:
            bad.setdefault(site, (ox, "for an empty range at the end of the genome the loop has no way out"))
    for s, (p, d) in sorted(bad.items()):
        R.violation("bounded", p, "%s: %s" % (s, d), key="bounded|%s|%s" % (p, owner(s)))
    for (s, p), v in sorted(status.items()):
        if s in bad:
            continue
        if v:
            R.ok("bounded", p, s)
        elif (s, p) in und:
            R.undecided("bounded", p, "no bound on the rounds of the loop at %s was found" % s)


def walks_marked(l, F):
    """a loop whose every round runs an inner loop that sets at least one flag that was not set"""
    for b in l.backs:
        g = b.facts(F)
        if g.bad:
            continue
        good = False
        for m in b.loops():
            w = marks(m, g)
            if w is None:
                continue
            j = m.index(w)
            i = l.index(m.inits[j])
            end = mk("phi", w.a[0], w.a[1], m.K)
            if i is None or b.up[i] is not end:
                continue
            # no round of the inner loop at all: its condition fails at once although the flag is not set
            h = g.copy()
            h.add(eq0(m.K))
            s = {mk("phi", p.a[0], p.a[1], m.K): x for p, x in zip(m.phis, m.inits)}
            for y in b.lits:
                z = subst(y, s)
                z = subst(z, {m.K: ZERO})
                h.add(z)
            if h.bad:
                good = True
        if not good:
            return False
    return bool(l.backs)


RULES = {"P39": p39}
