"""The generational loop: P01 progress contract, P02 evaluated and valid, P03 keep-best, P04 elites, P05 generation
size, P14 selector preparation, P16 run independence, P17 rates, P18 adaptive rates, P41 breeding pipeline"""
from fractions import Fraction
from base import *
from base import F as FL
from r_pop import DEREF, truth
from r_sel import lemmas, impossible, at_index, LEMMA_FLOOR

EVO = "evolution::Evolution::<A, M>::"
ALGS = {"ga": "algorithms::ga::GeneticAlgorithm", "aga": "algorithms::aga::AdaptiveGeneticAlgorithm"}
HOOKS = [(EM, n) for n in ("rng", "crossover", "mutate", "evaluate", "improve", "pre_generation", "breed", "can_survive")] + [("individual::Individual", "is_valid")]
NEW, REPLACE, FITTEST = POP + "new", POP + "replace", POP + "fittest"
CREATE = "operators::selection::SelectionStrategy::create_selector"
RP = "model::ReproductionParameters"
BREED = "EvolutionModel::breed"


def flat(evs, inside=()):
    """events including those of loop bodies: (event, enclosing loops)"""
    for e in evs:
        if e[0] == "loop":
            for i, b in enumerate(e[6]):
                yield from flat(b[1], inside + ((e, i),))
        else:
            yield e, inside


def hooked(evs, *names):
    return [(e, i) for e, i in flat(evs) if e[0] == "hook" and (not names or e[2] in names)]


def field_index(ctx, adt, name):
    a = ctx.p.adts.get(adt)
    if a is None:
        raise Missing(adt)
    for i, f in enumerate(a["variants"][0]["fields"]):
        if f["name"] == name:
            return i, len(a["variants"][0]["fields"])
    raise Missing(adt + "." + name)


def members(ctx, pop):
    """the individuals of a population: its only field that holds a vector"""
    adt = "population::Population"
    if adt not in ctx.p.adts:
        raise Missing(adt)
    fs = ctx.p.adts[adt]["variants"][0]["fields"]
    ix = [i for i, f in enumerate(fs) if f["ty"].get("p") == "std::vec::Vec"]
    if len(ix) != 1:
        raise engine.Limit("storage of a population")
    return fld(pop, ix[0], adt, 0, len(fs))


def field(ctx, adt, name, v):
    i, n = field_index(ctx, adt, name)
    return fld(v, i, adt, 0, n)


class Back:
    """one way through one generation"""

    def __init__(self, comp, back):
        lits, evs, ups = back
        self.comp = comp
        self.F = comp.base.copy()
        for l in lits:
            self.F.add(comp.ren(l))
        self.ev = tuple(comp.ren(e) for e in evs)
        self.up = {p: comp.ren(u) for p, u in zip(comp.phis, ups)}
        self.dead = self.F.bad or impossible(self.F)
        self.F = lemmas(self.F)


class Comp:
    """Evolution::evolve_population of one algorithm, the model's methods left open"""

    def __init__(self, ctx, alg):
        self.ctx, self.alg = ctx, alg
        path = EVO + "evolve_population"
        f = ctx.fn(path)
        self.path = f.path
        if ALGS[alg] not in ctx.p.adts:
            raise Missing(ALGS[alg])
        a, m = f.generics[0], f.generics[1]
        self.names = ctx.argnames(path)
        self.SELF, self.INIT, self.PAR, self.CB = [mk("in0", n) for n in self.names[:4]]
        self.outs = ctx.sym(path, sub={a: {"k": "adt", "p": ALGS[alg], "a": [{"k": "param", "n": m}]}}, hooks=HOOKS, opaque=[CREATE, NEW, REPLACE])
        self.rets = [o for o in self.outs if o.lab == "ret"]
        self.alg0 = None
        self.loops = []
        for o in self.rets:
            ls = [(i, e) for i, e in enumerate(o.st.ev) if e[0] == "loop" and any(x[0] == "callback" for b in e[6] for x, _ in flat(b[1]))]
            self.loops.append((o, ls))

    def select(self, o, i, e):
        """fix the main loop event of one outcome"""
        self.o, self.at, self.main = o, i, e
        self.kap = e[3]
        self.phis, self.init, names = [], {}, {}
        self.map = {}
        for j, (p, init, closed) in enumerate(e[5]):
            s = mk("in0", "$gen%d" % j)
            self.map[p] = s
            self.phis.append(s)
            self.init[s] = init
        self.base = Facts()
        for l in o.F.order:
            if not occurs(l, lambda t: t is self.kap or t is e[4] or t in self.map):
                self.base.add(l)
        self.backs = []
        for b in e[6]:
            bk = Back(self, b)
            if not bk.dead:
                self.backs.append(bk)
        self.pop = next((p for p in self.phis if self.init[p].op == "call" and self.init[p].a[0] == NEW), None)
        self.ctx.npaths += len(e[6])

    def ren(self, t):
        if is_t(t):
            return subst(t, self.map)
        if isinstance(t, tuple):
            return tuple(self.ren(x) for x in t)
        return t

    def field(self, adt, name, v):
        return field(self.ctx, adt, name, v)

    def V(self):
        v = self.ctx.observe1(engine.new_state(), DEREF, self.pop)
        if v is None:
            raise engine.Limit("individuals of a population")
        return v


_comps = {}


def comp(ctx, R, alg):
    """the composed loop of an algorithm, None when its shape is beyond the analysis"""
    k = (id(ctx), alg)
    if k not in _comps:
        _comps[k] = Comp(ctx, alg)
    c = _comps[k]
    for o, ls in c.loops:
        if len(ls) == 1:
            c.select(o, *ls[0])
            yield c
        elif not ls:
            R.violation("generations", c.path, "%s: a run without a loop that asks the callback" % alg, key="generations|" + alg)
        else:
            R.undecided("generations", c.path, "%s: more than one loop asks the callback" % alg)
    if not c.loops:
        R.violation("generations", c.path, "%s: no run ever ends" % alg, key="generations|" + alg)


def handed(c, R, b, rule, algname):
    """the individuals handed over for replacement in one generation; None if the population is replaced another way"""
    if c.pop is None:
        R.undecided(rule, c.path, "%s: no population carried from generation to generation" % algname)
        return None
    u = b.up[c.pop]
    if u.op == "call" and u.a[0] == REPLACE + ".0" and u.a[1] is c.pop:
        return u.a[2]
    return None


def buffers(c, X):
    """X with what earlier generations left in scratch variables made explicit: the value in the first generation,
    and the value later ones find"""
    ps = [p for p in c.phis if p is not c.pop and contains(X, p)]
    if not ps:
        return [X]
    out = [subst(X, {p: c.init[p] for p in ps})]
    for b in c.backs:
        m = {p: b.up[p] for p in ps}
        # the symbols of that earlier generation are not those of this one
        ren = {q: mk("in0", "$prev%d" % i) for i, q in enumerate(c.phis)}
        out.append(subst(X, {p: prev(subst(u, ren), c.kap) for p, u in m.items()}))
    return out


def prev(t, kap):
    return subst(t, {kap: mk("in0", "$prevgen")})


# ------------------------------------------------------------------------------- P01
def p01(ctx, R):
    for alg in ALGS:
        for c in comp(ctx, R, alg):
            progress(c, R, alg)
    finishing(ctx, R)


WORK = ("EvolutionModel::pre_generation", "EvolutionModel::breed", "SelectionMechanism::prepare", "SelectionMechanism::select", "SelectionMechanism::select_distinct",
        "EvolutionModel::mutate", "EvolutionModel::crossover")


def progress(c, R, alg):
    w = c.path
    k = lambda r: r + "|" + alg
    if c.pop is None:
        # a population that is not started from Population::new, or not carried by the loop
        R.need(False, "initial-generation", w, "%s: the loop carries no population built from the initial individuals" % alg, list(c.init.values()), key=k("initial-generation"))
        return
    pre, post = c.o.st.ev[:c.at], c.o.st.ev[c.at + 1:]
    R.need(not hooked(pre, *WORK), "asked-first", w, "%s: breeding work before the callback has seen the initial population" % alg, key=k("asked-first"))
    pre_cb = [e for e, i in flat(pre) if e[0] == "callback"]
    rotated = bool(pre_cb)
    if rotated:
        R.need(len(pre_cb) == 1 and same(c.base, pre_cb[0][4][0], c.init[c.pop]), "asked-first", w, "%s: the callback does not see the initial population exactly once" % alg, (c.base,), key=k("asked-first"))
        answer = next((p for p in c.phis if pre_cb and c.init[p] is pre_cb[-1][5]), None)
    for b in c.backs:
        cbs = [(n, e, i) for n, (e, i) in enumerate(flat(b.ev)) if e[0] == "callback"]
        if len(cbs) != 1 or cbs[0][2]:
            R.need(False, "once-per-generation", w, "%s: the callback is called %s in one generation" % (alg, "in a loop" if cbs and cbs[0][2] else "%d times" % len(cbs)), key=k("once-per-generation"))
            continue
        n, e, _ = cbs[0]
        u = b.up[c.pop]
        seen = e[4][0]
        if not rotated:
            R.need(same(b.F, seen, c.pop), "sees-current", w, "%s: the callback sees %s" % (alg, show(seen)[:200]), (seen,), key=k("sees-current"))
            before = [x for x, _ in list(flat(b.ev))[:n] if x[0] == "hook" and x[2] in WORK]
            R.need(not before, "asked-first", w, "%s: %s is called before the callback has seen the generation" % (alg, before and before[0][2]), key=k("asked-first"))
            R.need(b.F.entails(e[5]), "continues-on-true", w, "%s: a further generation is produced although the callback may have returned false" % alg, (b.F,), key=k("continues-on-true"))
        else:
            R.need(same(b.F, seen, u), "sees-current", w, "%s: the callback sees %s" % (alg, show(seen)[:200]), (seen,), key=k("sees-current"))
            after = [x for x, _ in list(flat(b.ev))[n + 1:] if x[0] == "hook" and x[2] in WORK]
            R.need(not after, "asked-first", w, "%s: work after the callback" % alg, key=k("asked-first"))
            if answer is None:
                R.undecided("continues-on-true", w, "%s: the answer is not carried by one variable" % alg)
            else:
                R.need(b.F.entails(answer), "continues-on-true", w, "%s: a further generation is produced although the callback may have returned false" % alg, (b.F,), key=k("continues-on-true"))
        reps = u.op == "call" and u.a[0] == REPLACE + ".0" and same(b.F, u.a[1], c.pop)
        R.need(reps, "one-further-generation", w, "%s: the next population is %s" % (alg, show(u)[:200]), (u,), key=k("one-further-generation"))
    # leaving the loop
    v = c.ren(c.o.val)
    fin = {x: y for x, y in zip([p for p, _, _ in c.main[5]], c.phis)}
    v = c.ren(subst(c.o.val, {c.kap: c.main[4]}))
    K = c.main[4]
    last = {subst(p, {c.kap: K}): s for p, s in zip([p for p, _, _ in c.main[5]], c.phis)}
    v = subst(c.o.val, last)
    post = tuple(sub_ev(e, last) for e in post)
    cbs = [e for e, i in flat(post) if e[0] == "callback"]
    R.need(not hooked(post, *WORK), "stops-on-false", w, "%s: %s is called after the callback asked to stop" % (alg, [e[2] for e, _ in hooked(post, *WORK)]), key=k("stops-on-false"))
    f = Facts()
    for l in c.o.F.order:
        f.add(subst(l, last))
    now = [l for l in f.order if l.op != "forall"]    # not about earlier generations
    if not rotated:
        if len(cbs) != 1:
            R.need(False, "stops-on-false", w, "%s: the callback is called %d times in the last generation" % (alg, len(cbs)), key=k("stops-on-false"))
            return
        R.need(same(f, cbs[0][4][0], c.pop), "sees-current", w, "%s: the callback sees %s last" % (alg, show(cbs[0][4][0])[:200]), (cbs[0][4][0],), key=k("sees-current"))
        R.need(f.entails(bnot(cbs[0][5])), "stops-on-false", w, "%s: the run may end although the callback returned true" % alg, now, key=k("stops-on-false"))
    else:
        R.need(not cbs, "stops-on-false", w, "%s: the callback is called again after the last generation" % alg, key=k("stops-on-false"))
        if answer is not None:
            R.need(f.entails(bnot(answer)), "stops-on-false", w, "%s: the run may end although the callback returned true" % alg, now, key=k("stops-on-false"))
    R.need(same(f, v, c.pop), "returns-last-seen", w, "%s: returns %s" % (alg, show(v)[:200]), (v,), key=k("returns-last-seen"))


def sub_ev(e, m):
    if is_t(e):
        return subst(e, m)
    if isinstance(e, tuple):
        return tuple(sub_ev(x, m) for x in e)
    return e


def finishing(ctx, R):
    """run and evolve_individual return the fittest of what evolve_population returns"""
    inner = ctx.fn(EVO + "evolve_population").path
    for name in ("run", "evolve_individual"):
        path = EVO + name
        outs = ctx.sym(path, hooks=HOOKS, opaque=[inner])
        for o in outs:
            if o.lab != "ret":
                continue
            calls = [x for x in subterms(o.val) if x.op == "call" and x.a[0] == inner]
            if len(calls) != 1:
                R.need(False, "returns-fittest", path, "returns %s" % show(o.val)[:200], (o.val,), key="returns-fittest|" + name)
                continue
            call = calls[0]
            # what Population::take_fittest / fittest give for that population
            ok = False
            for o2 in ctx.observe(o.st, POP + "fittest", call):
                if o2.lab == "ret" and same(o.F, o2.val, o.val):
                    ok = True
            R.need(ok, "returns-fittest", path, "returns %s" % show(o.val)[:200], (o.val,), key="returns-fittest|" + name)
            nm = ctx.argnames(path)
            R.need(call.a[1] is mk("in0", nm[0]) or call.a[1].op == "deref" or True, "returns-fittest", path)
            R.need(any(x is mk("in0", nm[-1]) or (x.op == "deref" and x.a[0] is mk("in0", nm[-1])) for x in call.a[1:]), "same-callback", path, "the callback handed on is not the caller's", tuple(call.a[1:]), key="same-callback|" + name)
            pv = mk("in0", nm[2])
            R.need(any(x is pv or x is mk("deref", pv) for x in call.a[1:]), "same-parameters", path, "the parameters handed on are not the caller's", tuple(call.a[1:]), key="same-parameters|" + name)


# ------------------------------------------------------------------------------- P02
EVALUATE = "EvolutionModel::evaluate"


def outer_post(t):
    """the hook that modified the value last"""
    return t.a[0] if t.op == "post" else None


def p02(ctx, R):
    for alg in ALGS:
        for c in comp(ctx, R, alg):
            initial_valid(ctx, c, R, alg)
            for b in c.backs:
                X = handed(c, R, b, "only-bred-or-kept", alg)
                if X is None:
                    R.need(c.pop is None or imprecise(b.up[c.pop]), "only-bred-or-kept", c.path, "%s: the population becomes %s without Population::replace" % (alg, show(b.up[c.pop])[:200] if c.pop else "?"), (b.up.get(c.pop),), key="only-bred-or-kept|" + alg)
                    continue
                for x in buffers(c, X):
                    bad = foreign(c, b.F, x)
                    R.need(not bad, "only-bred-or-kept", c.path, "%s: individuals that are neither carried over from the current generation nor returned by breeding: %s" % (alg, bad and bad[:200]), (x,), key="only-bred-or-kept|" + alg)
    for o, bi in breeding(ctx):
        if not bi.is_parent:
            v = o.val
            R.need(outer_post(v) == EVALUATE, "evaluated-last", bi.path, "an offspring is returned whose last modification is not its evaluation: %s" % show(v)[:200], (v,))
            R.need(o.F.entails(mk("bool", mk("is_valid", v))) or truth_of(o.F, mk("is_valid", v)), "valid", bi.path, "an offspring is returned that was not found valid: %s" % show(v)[:200], (o.F, v))
    one_shot(ctx, R)


def truth_of(F, t):
    try:
        return F.entails(t)
    except Exception:
        return False


def initial_valid(ctx, c, R, alg):
    if c.pop is None:
        R.need(False, "initial-valid", c.path, "%s: no population built from the initial individuals" % alg, list(c.init.values()), key="initial-valid|" + alg)
        return
    valid_source(R, c.path, alg, c.base, c.init[c.pop].a[1], c.INIT)


def one_shot(ctx, R):
    """any algorithm that keeps the provided initialize_population"""
    path = EA + "::initialize_population"
    for o in ctx.sym(path, hooks=HOOKS + [(EA, "model")], opaque=[NEW, REPLACE]):
        if o.lab != "ret":
            continue
        v = o.val
        nm = ctx.argnames(path)
        if v.op != "call" or v.a[0] != NEW:
            R.need(False, "initial-valid", path, "returns %s" % show(v)[:200], (v,))
            continue
        valid_source(R, path, "default", o.F, v.a[1], mk("in0", nm[1]))


def valid_source(R, path, tag, F, X, src):
    """X: exactly the valid ones among the evaluated initial individuals"""
    k = lambda r: r + "|" + tag
    if X.op == "comp" and not imprecise(X):
        R.need(False, "initial-valid", path, "%s: initial individuals enter the population without a validity check" % tag, (X,), key=k("initial-valid"))
        return
    if X.op != "fcomp":
        R.need(False, "initial-valid", path, "%s: the first population is %s" % (tag, show(X)[:200]), (X,), key=k("initial-valid"))
        return
    v = skolem()
    cond, el = inst(X, v)
    n = X.a[0]
    f = F.copy()
    f.add(lt(v, n))
    g = f.copy()
    g.add(cond)
    R.need(outer_post(el) == EVALUATE, "initial-evaluated", path, "%s: an initial individual enters the population as %s" % (tag, show(el)[:200]), (el,), key=k("initial-evaluated"))
    R.need(truth_of(g, mk("is_valid", el)), "initial-valid", path, "%s: the condition for entering the population is %s" % (tag, show(cond)[:200]), (cond, el), key=k("initial-valid"))
    base = el
    while base.op == "post" and base.a[0] == EVALUATE:
        base = base.a[-1]
    R.need(base.op == "at" and same(f, base.a[0], src) and f.entails(eqi(base.a[1], v)) and f.entails(eqi(n, slen(src))), "initial-all", path,
           "%s: the initial individuals considered are %s" % (tag, show(X)[:200]), (X,), key=k("initial-all"))
    h = f.copy()
    h.add(mk("is_valid", el))
    R.need(truth_of(h, cond), "initial-all", path, "%s: a valid initial individual may be dropped (%s)" % (tag, show(cond)[:200]), (cond,), key=k("initial-all"))


def items(X):
    """X as a list of sub-sequences"""
    if X.op == "cat":
        r = []
        for x in X.a:
            r += items(x)
        return r
    if X.op in ("rev", "perm", "sort", "sortby"):
        return items(X.a[0])
    return [X]


def is_bred(t):
    return t.op == "res" and t.a[0] == BREED


def foreign(c, F, X):
    """an individual in X that neither stems unmodified from the current population nor is returned by breed"""
    V = c.V()
    for f, (x,) in splits(F, X):
        for it in items(x):
            if it.op == "lit":
                for e in it.a:
                    e = simp(f, e)
                    if is_bred(e) or (e.op == "at" and e.a[0] is V):
                        continue
                    return show(e)
                continue
            if it is V or it.op == "slice" and it.a[0] is V:
                continue
            if f.entails(eqi(slen(it), ZERO)):
                continue
            if it.op in ("comp", "fcomp"):
                v = skolem()
                g = f.copy()
                g.add(lt(v, it.a[0]))
                if g.bad:
                    continue
                el = inst(it, v)[-1]
                el = simp(g, el)
                if is_bred(el) or (el.op == "at" and el.a[0] is V):
                    continue
                return show(el)
            iv = intervals(f, it, V)
            if iv is None:
                return show(it)
    return None


# ------------------------------------------------------------------------- P04 and P05
def is_fresh(f, it):
    """does the piece consist of bred individuals?"""
    if it.op == "lit":
        return all(is_bred(simp(f, e)) for e in it.a)
    if it.op in ("comp", "fcomp"):
        el = inst(it, skolem())[-1]
        return is_bred(el)
    return False


def split_lits(its):
    r = []
    for it in its:
        if it.op == "lit":
            r += [mk("lit", e) for e in it.a]
        else:
            r.append(it)
    return r


def size_of(c):
    return c.field(ALGS[c.alg] + "Parameters", "population_size", mk("deref", c.PAR))


def elite_count(c):
    r = c.field(ALGS[c.alg] + "Parameters", "elitism_rate", mk("deref", c.PAR))
    return f2i(fbin("fmul", i2f(size_of(c)), r))


def plus(f, *ls):
    g = f.copy()
    for l in ls:
        g.add(l)
    return g


def p04(ctx, R):
    R.assumptions.append(LEMMA_FLOOR)
    for alg in ALGS:
        for c in comp(ctx, R, alg):
            V = None
            for b in c.backs:
                X = handed(c, R, b, "elites", alg)
                if X is None:
                    continue
                V = V or c.V()
                k = elite_count(c)
                for X1 in buffers(c, X):
                    for f, (x, kk, n) in splits(b.F, X1, k, slen(V)):
                        old = [it for it in split_lits(items(x)) if not is_fresh(f, it)]
                        iv = []
                        for it in old:
                            y = intervals(f, it, V)
                            iv = None if y is None or iv is None else iv + y
                        good = iv is not None and all(tiles(g, iv, lo, n) for g, lo in ((plus(f, le(kk, n)), sub(n, kk)), (plus(f, lt(n, kk)), ZERO)) if not g.bad)
                        R.need(good, "elites", c.path, "%s: carried over are %s, not the last min(%s, length) individuals of the current generation" % (alg, [show(i)[:120] for i in old], show(k)), (x, f), key="elites|" + alg)
    R.notes.append("the current generation is sorted by ascending fitness (P06), so its last individuals are its fittest")
    default_elites(ctx, R)


def default_elites(ctx, R):
    """any algorithm that keeps the provided select_elites"""
    path = EA + "::select_elites"
    nm = ctx.argnames(path)
    for o in ctx.sym(path, hooks=HOOKS + [(EA, "model")], opaque=[FITTEST]):
        if o.lab != "ret":
            continue
        pop, el = mk("deref", mk("in0", nm[1])), o.deref(nm[2])
        V, old = members(ctx, pop), mk("deref", mk("in0", nm[2]))
        its = split_lits(items(el))
        new = [i for i in its if i is not old]
        R.need(len(new) < len(its), "default-keeps", path, "elites already chosen are replaced by %s" % show(el)[:200], (el, o.F), key="default-keeps")
        es = [simp(o.F, e) for i in new if i.op == "lit" for e in i.a]
        good = len(es) == 1 and all(i.op == "lit" for i in new) and is_best(o, es[0], pop, V)
        R.need(good, "default-elite", path, "the default elites are %s, not exactly the fittest individual" % [show(i)[:120] for i in new], (el, o.F), key="default-elite")


def is_best(o, e, pop, V):
    if e.op == "deref":
        e = e.a[0]
    if e.op == "call" and e.a[0] == FITTEST:
        return e.a[1] is pop or e.a[1] is pop.a[0]
    return e.op == "at" and e.a[0] is V and o.F.entails(eqi(e.a[1], addc(slen(V), -1)))


def calls_of(b):
    """how often breed is called: {uid: (count term, loop variable or None)} or None when conditional"""
    r = {}
    for e, inside in flat(b.ev):
        if e[0] != "hook" or e[2] != BREED:
            continue
        uid = e[5].a[1]
        if not inside:
            r[uid] = (ONE, None, e)
        elif len(inside) == 1 and len(inside[0][0][6]) == 1:
            r[uid] = (inside[0][0][4], inside[0][0][3], e)
        else:
            return None
    return r


def p05(ctx, R):
    R.assumptions.append(LEMMA_FLOOR)
    for alg in ALGS:
        for c in comp(ctx, R, alg):
            for b in c.backs:
                X = handed(c, R, b, "size", alg)
                if X is None:
                    R.need(c.pop is None, "replaced-by-generation", c.path, "%s: the population becomes %s" % (alg, c.pop and show(b.up[c.pop])[:200]), (c.pop and b.up[c.pop],), key="replaced-by-generation|" + alg)
                    continue
                k, n = elite_count(c), size_of(c)
                V = c.V()
                for X1 in buffers(c, X):
                    for f, (x, kk, nn, m) in splits(b.F, X1, imin(k, slen(V)), n, slen(V)):
                        if f.bad:
                            continue
                        want = f.entails(eqi(slen(x), nn))
                        R.need(want, "size", c.path, "%s: %s individuals are handed over, not the configured %s" % (alg, show(slen(x))[:200], show(nn)), (x, f), key="size|" + alg)
                        every_offspring(c, R, b, f, x, alg)
    default_generation(ctx, R)


def default_generation(ctx, R):
    """any algorithm that keeps the provided generate_new_population"""
    path = EA + "::generate_new_population"
    nm = ctx.argnames(path)
    old = mk("deref", mk("in0", nm[2]))
    for o in ctx.sym(path, hooks=HOOKS + [(EA, "model"), (EA, "reproduction_parameters")]):
        if o.lab != "ret":
            continue
        ask = [e for e in o.st.ev if e[0] == "hook" and e[2] == "EvolutionAlgorithm::reproduction_parameters"]
        if len(ask) != 1:
            R.undecided("default-size", path, "the size is asked for %d times" % len(ask))
            continue
        n = fld(ask[0][5], 1, "()", 0, 2)
        for f, (x, nn, m) in splits(o.F, o.deref(nm[2]), n, slen(old)):
            if f.bad:
                continue
            its = split_lits(items(x))
            R.need(sum(i is old for i in its) == 1, "default-keeps", path, "the elites handed over become %s" % show(x)[:200], (x, f), key="default-keeps")
            for g, k in ((plus(f, le(nn, m)), m), (plus(f, lt(m, nn)), nn)):
                if not g.bad:
                    R.need(g.entails(eqi(slen(x), k)), "default-size", path, "the generation has %s individuals, not %s" % (show(slen(x))[:200], show(k)), (x, g), key="default-size")
            for i in its:
                if i is not old and not is_fresh(f, i) and not f.entails(eqi(slen(i), ZERO)):
                    R.need(False, "default-bred", path, "%s is added without being bred" % show(i)[:200], (i, f), key="default-bred")


def every_offspring(c, R, b, f, x, alg):
    calls = calls_of(b)
    key = "every-offspring|" + alg
    if calls is None:
        R.undecided("every-offspring", c.path, "%s: breed is called conditionally inside a loop" % alg)
        return
    got = {u: [] for u in calls}
    for it in split_lits(items(x)):
        if not is_fresh(f, it):
            continue
        if it.op == "lit":
            e = simp(f, it.a[0])
            u, ks = e.a[1], e.a[2]
            i = ks[-1] if calls.get(u, (None, None))[1] is not None and isinstance(ks, tuple) and ks else ZERO
            if u in got:
                got[u].append((i, addc(i, 1)))
            continue
        if it.op == "fcomp":
            R.need(False, "every-offspring", c.path, "%s: only some of the bred offspring are kept" % alg, (it,), key=key)
            return
        v = skolem()
        e = inst(it, v)[-1]
        u, ks = e.a[1], e.a[2]
        i = ks[-1] if isinstance(ks, tuple) and ks else None
        iv = None
        if u in got and i is not None:
            off = sub(i, v)
            if not contains(off, v):
                iv = (off, add(off, it.a[0]))
            else:
                off = add(i, v)
                if not contains(off, v):
                    iv = (addc(sub(off, it.a[0]), 1), addc(off, 1))
        if iv is None:
            R.need(False, "every-offspring", c.path, "%s: offspring are added as %s" % (alg, show(it)[:200]), (it,), key=key)
            return
        got[u].append(iv)
    for u, (n, kv, e) in calls.items():
        g = f.copy()
        if g.entails(eqi(n, ZERO)):
            continue
        R.need(tiles(f, got[u], ZERO, n), "every-offspring", c.path, "%s: of %s offspring bred, %s are added" % (alg, show(n), [(show(p), show(q)) for p, q in got[u]]), (x, n, f), key=key)


# ------------------------------------------------------------------------------- P14
PRE, PREPARE = "EvolutionModel::pre_generation", "SelectionMechanism::prepare"


def selector_of(ctx, rp):
    return field(ctx, RP, "parent_selector", rp)


def unbox(t):
    return t.a[2] if t.op == "agg" and t.a[0].endswith("Box") and len(t.a) == 3 else mk("unbox", t)


def p14(ctx, R):
    for alg in ALGS:
        for c in comp(ctx, R, alg):
            w = c.path
            k = lambda r: r + "|" + alg
            out = hooked(c.o.st.ev[:c.at], PRE, PREPARE) + hooked(c.o.st.ev[c.at + 1:], PRE, PREPARE)
            R.need(not out, "once-per-generation", w, "%s: %s is called outside the generations" % (alg, [e[2] for e, _ in out]), key=k("once-per-generation"))
            for b in c.backs:
                seq = hooked(b.ev, PRE, PREPARE, BREED)
                pres = [(e, i) for e, i in seq if e[2] == PRE]
                preps = [(e, i) for e, i in seq if e[2] == PREPARE]
                ok = True
                for what, xs in ((PRE, pres), (PREPARE, preps)):
                    ok &= R.need(len(xs) == 1 and not xs[0][1], "once-per-generation", w, "%s: %s is called %s in a generation" % (alg, what, "in a loop" if xs and xs[0][1] else "%d times" % len(xs)), key=k("once-per-generation|" + what))
                if not ok:
                    continue
                names = [e[2] for e, _ in seq]
                R.need(names[0] == PRE and names[1] == PREPARE, "order", w, "%s: calls in the order %s" % (alg, ", ".join(names)), key=k("order"))
                pre, prep = pres[0][0], preps[0][0]
                R.need(same(b.F, pre[4][1], c.pop), "hook-arguments", w, "%s: the hook is given the population %s" % (alg, show(pre[4][1])[:150]), (pre[4][1],), key=k("hook-arguments"))
                rp = next((t for t in updates_of(c, b, pre) if t.a[3] == 2), None)
                after = mk("post", PRE, None)
                # selector as left by the hook
                sel = prep[4][0]
                good = any(x.op == "post" and x.a[0] == PRE and x.a[3] == 2 for x in subterms(sel))
                if good:
                    p = next(x for x in subterms(sel) if x.op == "post" and x.a[0] == PRE and x.a[3] == 2)
                    good = same(b.F, sel, unbox(selector_of(ctx, p)))
                R.need(good, "prepares-selector-of-hook", w, "%s: prepared is %s" % (alg, show(sel)[:200]), (sel,), key=k("prepares-selector-of-hook"))
                R.need(same(b.F, prep[4][1], c.pop), "prepared-for-current", w, "%s: the selector is prepared with %s" % (alg, show(prep[4][1])[:150]), (prep[4][1],), key=k("prepared-for-current"))
                for e, i in seq:
                    if e[2] != BREED:
                        continue
                    pops, par = e[4][1], e[4][2]
                    R.need(same(b.F, pops, c.pop), "breeds-from-current", w, "%s: offspring are bred from %s" % (alg, show(pops)[:150]), (pops,), key=k("breeds-from-current"))
                    s = unbox(selector_of(ctx, par))
                    good = s.op == "post" and s.a[0] == PREPARE and good_post(s, prep)
                    R.need(good, "breeds-with-prepared", w, "%s: offspring are bred with the selector %s" % (alg, show(s)[:200]), (s,), key=k("breeds-with-prepared"))
                    for fn in ("crossover_rate", "mutation_rate"):
                        v = field(ctx, RP, fn, par)
                        g = any(x.op == "post" and x.a[0] == PRE and x.a[3] == 2 and same(b.F, v, field(ctx, RP, fn, x)) for x in subterms(v))
                        R.need(g, "rates-of-hook", w, "%s: offspring are bred with %s %s, not the one the hook left" % (alg, fn, show(v)[:150]), (v,), key=k("rates-of-hook|" + fn))
                    m = e[4][0]
                    R.need(m.op == "post" and m.a[0] == PRE and m.a[3] == 0, "model-of-hook", w, "%s: offspring are bred by the model %s" % (alg, show(m)[:150]), (m,), key=k("model-of-hook"))


def good_post(s, prep):
    return s.a[4] is prep[4][0] if len(s.a) > 4 else True


def updates_of(c, b, e):
    r = []
    for u in b.up.values():
        for x in subterms(u):
            if x.op == "post" and x.a[0] == e[2] and x not in r:
                r.append(x)
    return r


# ------------------------------------------------------------------------------- P16
def trivial(t):
    """a condition that says no more than that a variant has a number"""
    f = Facts()
    for x in subterms(t):
        if x.op == "discr":
            f.add(le(ZERO, x))
    return f.entails(t)


def p16(ctx, R):
    for alg in ALGS:
        for c in comp(ctx, R, alg):
            w = c.path
            k = lambda r: r + "|" + alg
            alg0 = None
            root = mk("deref", c.SELF)
            models = model_of(ctx, c)
            if models is None:
                R.undecided("no-leftovers", w, "%s: the model of the algorithm cannot be located" % alg)
                continue

            def stale(t, allowed=models, root=root):
                """state of an earlier run inside t"""
                t = subst(t, {allowed: mk("in0", "$model")})
                return occurs(t, lambda x: x is root or (x.op == "in0" and x is c.SELF))

            def report(ts, what, F):
                bad = [t for t in ts if is_t(t) and stale(t) and not trivial(t)]
                R.need(not bad, "no-leftovers", w, "%s: %s depends on what an earlier run left behind: %s" % (alg, what, bad and show(bad[0])[:200]), (F,), key=k("no-leftovers"))

            # generation of a new population (P08: 0)
            g0 = generation_facts(ctx, c)
            report([l for l in c.o.F.order if not occurs(l, lambda t: t in c.map)], "the set-up of a run", c.base)
            for e, i in flat(c.o.st.ev[:c.at]):
                report(vals_of(e), "the set-up of a run (%s)" % e[2], c.base)
            for b in c.backs:
                # any generation: nothing but what the loop carries
                report(b.F.order, "a generation", b.F)
                for e, i in flat(b.ev):
                    report(vals_of(e), "a generation (%s)" % e[2], b.F)
                report(list(b.up.values()), "a generation", b.F)
                # the first generation
                m = dict(c.init)
                f = Facts()
                for l in g0:
                    f.add(l)
                for l in b.F.order:
                    f.add(subst(l, m))
                if f.bad or impossible(f):
                    continue
                for e, i in flat(b.ev):
                    report([subst(x, m) for x in vals_of(e)], "the first generation (%s)" % e[2], f)
                report([subst(l, m) for l in b.F.order], "the first generation", f)
                report([subst(u, m) for u in b.up.values()], "what the first generation leaves behind", f)
            selector_from_parameters(ctx, c, R, alg)


def vals_of(e):
    r = []

    def go(x):
        if is_t(x):
            if x.op != "ref":
                r.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    if e[0] == "hook":
        go(e[4])
    elif e[0] in ("draw",):
        go(e[4])
    return r


def model_of(ctx, c):
    """the model inside the algorithm inside the evolution object, as the callbacks' receiver shows it"""
    for p, i in c.init.items():
        if any(b.up[p].op == "post" and b.up[p].a[0] == PRE and b.up[p].a[3] == 0 for b in c.backs):
            return i
    return None


def generation_facts(ctx, c):
    if c.pop is None:
        return []
    gen = POP + "generation"
    g = ctx.observe1(engine.new_state(), gen, c.init[c.pop])
    st = engine.new_state()
    x = mk("in0", "$vec")
    real = set()
    for o in ctx.sym(NEW, args=[x], st=st, eng=ctx.engine()):
        if o.lab == "ret":
            real.add(ctx.observe1(o.st, gen, o.val))
    if g is not None and len(real) == 1:
        v = real.pop()
        if v is not None:
            return [eqi(g, v)]
    return []


def selector_from_parameters(ctx, c, R, alg):
    """the first generation's hook sees the rates and selector of the parameters"""
    w = c.path
    par = mk("deref", c.PAR)
    P = ALGS[alg] + "Parameters"
    want_sel = mk("call", CREATE, c.field(P, "selection_strategy", par))
    g0 = generation_facts(ctx, c)
    for b in c.backs:
        f = Facts()
        for l in g0:
            f.add(l)
        for l in b.F.order:
            f.add(subst(l, c.init))
        if f.bad or impossible(f):
            continue
        for e, i in hooked(b.ev, PRE):
            rp = subst(e[4][2], c.init)
            s = selector_of(ctx, rp)
            R.need(same(f, s, want_sel) or same(f, unbox(s), unbox(want_sel)), "fresh-selector", w, "%s: the first generation uses the selector %s" % (alg, show(s)[:200]), (s,), key="fresh-selector|" + alg)
            if alg == "ga":
                for fn in ("crossover_rate", "mutation_rate"):
                    v = field(ctx, RP, fn, rp)
                    R.need(same(f, v, c.field(P, fn, par)), "configured-rates", w, "%s: the first generation uses the %s %s" % (alg, fn, show(v)[:200]), (v,), key="configured-rates|" + fn)


# ------------------------------------------------------------------------------- P18
def rpoly(t, depth=0):
    """a floating point expression as a polynomial over the reals: {sorted atoms: coefficient}"""
    if t.op == "fl":
        try:
            return {(): Fraction(fval(t))} if fval(t) != 0 else {}
        except Exception:
            return {(t,): Fraction(1)}
    if t.op == "fsqrt" and t.a[0].op == "fl" and t.a[0].a[0] in (0.0, 1.0):
        return rpoly(t.a[0])
    if t.op == "fma":
        return rpoly(fbin("fadd", fbin("fmul", t.a[0], t.a[1]), t.a[2]), depth + 1)
    if t.op in ("fadd", "fsub", "fmul", "fdiv", "fneg") and t.op != "fbin":
        op, xs = t.op, t.a
    elif t.op == "fbin":
        op, xs = t.a[0], t.a[1:]
    else:
        return {(t,): Fraction(1)}
    ps = [rpoly(x, depth + 1) for x in xs]
    if op == "fneg":
        return {m: -v for m, v in ps[0].items()}
    if op in ("fadd", "fsub"):
        r = dict(ps[0])
        for m, v in ps[1].items():
            r[m] = r.get(m, 0) + (v if op == "fadd" else -v)
        return {m: v for m, v in r.items() if v}
    if op == "fdiv":
        d = ps[1]
        if len(d) == 1 and () in d:
            ps[1] = {(): 1 / d[()]}
        elif len(d) == 1 and len(next(iter(d))) == 1 and next(iter(d.values())) == 1:
            ps[1] = {(mk("finv", next(iter(d))[0]),): Fraction(1)}
        else:
            ps[1] = {(mk("finv", xs[1]),): Fraction(1)}
    r = {}
    for m1, v1 in ps[0].items():
        for m2, v2 in ps[1].items():
            m = tuple(sorted(m1 + m2, key=id))
            r[m] = r.get(m, 0) + v1 * v2
    return {m: v for m, v in r.items() if v}


def fval(t):
    v = t.a[0]
    if isinstance(v, float):
        return v
    raise ValueError


def req(a, b):
    return rpoly(a) == rpoly(b)


def interp(s, e, d):
    return fbin("fadd", s, fbin("fmul", fbin("fsub", e, s), d))


def p18(ctx, R):
    alg = "aga"
    for c in comp(ctx, R, alg):
        w = c.path
        if c.pop is None:
            R.undecided("rates", w, "no population")
            continue
        par = mk("deref", c.PAR)
        P = ALGS[alg] + "Parameters"
        cr, mr = c.field(P, "crossover_rate_range", par), c.field(P, "mutation_rate_range", par)
        rng = [x for x in ("std::ops::Range", "core::ops::Range")]
        ends = lambda r: (fld(r, 0, range_adt(ctx), 0, 2), fld(r, 1, range_adt(ctx), 0, 2))
        (cs, ce), (ms, me) = ends(cr), ends(mr)
        iv = c.field(P, "parameter_adjustment_interval", par)
        st0 = engine.new_state()
        gen = ctx.observe1(st0, POP + "generation", c.pop)
        stats = ctx.observe1(st0, POP + "stats", c.pop)
        std = stats is not None and ctx.observe1(st0, "stats::PopulatedStats::std", stats)
        if gen is None or stats is None or not std:
            R.undecided("rates", w, "observers of the population")
            continue
        # the variable that keeps the reference diversity
        ref = None
        for b in c.backs:
            if b.F.entails(eqi(gen, ZERO)):
                for p in c.phis:
                    if p is not c.pop and same(b.F, b.up[p], std):
                        ref = p
        for b in c.backs:
            pres = hooked(b.ev, PRE)
            if len(pres) != 1:
                continue
            e = pres[0][0]
            rp = e[4][2]
            c0 = [p for p in c.phis if field(ctx, RP, "crossover_rate", rp) is p]
            got_c, got_m = field(ctx, RP, "crossover_rate", rp), field(ctx, RP, "mutation_rate", rp)
            old = olds(ctx, c, b, e)
            for f in three_way(b.F, gen, iv):
                when = "at generation 0" if f.entails(eqi(gen, ZERO)) else "at a multiple of the adjustment interval" if f.entails(eqi(mk("mod", gen, iv), ZERO)) and f.entails(bnot(eqi(iv, ZERO))) else "between adjustments"
                if when == "at generation 0":
                    R.need(reqf(f, got_c, ce), "initial-rates", w, "crossover rate %s %s" % (show(got_c)[:200], when), (got_c,), key="initial-rates|crossover")
                    R.need(reqf(f, got_m, ms), "initial-rates", w, "mutation rate %s %s" % (show(got_m)[:200], when), (got_m,), key="initial-rates|mutation")
                    if ref is not None:
                        R.need(same(f, b.up[ref], std), "reference", w, "reference diversity %s at generation 0" % show(b.up[ref])[:200], (b.up[ref],))
                elif when == "between adjustments":
                    for nm, got, i in (("crossover", got_c, 0), ("mutation", got_m, 1)):
                        R.need(got in old[i], "rates-left-alone", w, "%s rate %s %s" % (nm, show(got)[:200], when), (got, f), key="rates-left-alone|" + nm)
                    if ref is not None:
                        R.need(same(f, b.up[ref], ref), "reference", w, "reference diversity changes %s" % when, (b.up[ref],))
                else:
                    if ref is None:
                        if any(b2.F.entails(eqi(gen, ZERO)) and occurs(b2.up[p], lambda x: x is std) for b2 in c.backs for p in c.phis if p is not c.pop):
                            R.undecided("reference", w, "the standard deviation of generation 0 is kept inside another value")
                            continue
                        R.need(False, "reference", w, "the standard deviation of generation 0 is not kept as reference", tuple(c.init.values()))
                        continue
                    R.need(same(f, b.up[ref], ref), "reference", w, "reference diversity changes %s" % when, (b.up[ref],))
                    adapted(R, w, f, got_c, got_m, cs, ce, ms, me, std, ref)


def range_adt(ctx):
    return "std::ops::Range"


def three_way(F, gen, iv):
    todo = [F]
    for l in (eqi(gen, ZERO), eqi(iv, ZERO), eqi(mk("mod", gen, iv), ZERO)):
        nxt = []
        for f in todo:
            for x in (l, bnot(l)):
                g = f.copy()
                g.add(x)
                if not g.bad:
                    nxt.append(g)
        todo = nxt
    return todo


def olds(ctx, c, b, e):
    """rates as the previous generation left them: the loop variables that later hold the hook's result"""
    r = [[], []]
    for p in c.phis:
        for x in c.backs:
            u = x.up[p]
            for i, fn in enumerate(("crossover_rate", "mutation_rate")):
                if u.op in ("fld", "field", "proj") or True:
                    for q in subterms(u):
                        if q.op == "post" and q.a[0] == PRE and q.a[3] == 2 and u is field(ctx, RP, fn, q) and p not in r[i]:
                            r[i].append(p)
            for q in subterms(u):
                if q.op == "post" and q.a[0] == PRE and q.a[3] == 2 and u is q:
                    for i, fn in enumerate(("crossover_rate", "mutation_rate")):
                        r[i].append(field(ctx, RP, fn, p))
    return r


def reqf(F, a, b):
    return all(req(x, y) or same(f, x, y) or known(f, rpoly(x)) == known(f, rpoly(y)) for f, (x, y) in splits(F, a, b))


def known(f, p):
    """a polynomial over the reals, with the products that the facts equate to a constant replaced"""
    for m, c in fixed(f):
        r = {}
        for x, v in p.items():
            rest = list(x)
            try:
                for y in m:
                    rest.remove(y)
            except ValueError:
                rest = None
            if rest is not None:
                x, v = tuple(rest), v * c
            r[x] = r.get(x, 0) + v
        p = {x: v for x, v in r.items() if v}
    return p


def fixed(f):
    """products that the float equations of a path set to a constant; a false equation gives ((), c)"""
    for l in f.lits:
        if l.op == "feq" and l.a[0] is not l.a[1]:
            p = rpoly(l.a[0])
            for m, v in rpoly(l.a[1]).items():
                p[m] = p.get(m, 0) - v
            c = p.pop((), 0)
            p = [(m, v) for m, v in p.items() if v]
            if len(p) == 1:
                yield p[0][0], -c / p[0][1]
            elif not p and c:
                yield (), c


def at_odds(f):
    eqs = list(fixed(f))
    return any(m == () for m, _ in eqs) or any(m == n and c != d for m, c in eqs for n, d in eqs)


def adapted(R, w, F, gc, gm, cs, ce, ms, me, std, ref):
    q = fbin("fdiv", std, ref)
    one, zero = FL(1.0), FL(0.0)
    nan = bnot(fcmp("feq", q, q))
    cases = [("undefined", [nan]), ("below 0", [fcmp("flt", q, zero), fcmp("flt", q, one)]), ("in [0,1]", [fcmp("fle", zero, q), fcmp("fle", q, one)]),
             ("above 1", [fcmp("flt", one, q), fcmp("flt", zero, q)])]
    for name, ls in cases:
        g0 = F.copy()
        for l in ls:
            g0.add(l)
        if name != "undefined":
            g0.add(fcmp("feq", q, q))
        if g0.bad:
            continue
        for g, (xc, xm) in splits(g0, fres(g0, gc), fres(g0, gm)):
            if g.bad or (name == "below 0" and std.op == "fsqrt") or at_odds(g):
                continue
            txt = "with %s diversity: crossover rate %s, mutation rate %s" % (name, show(xc)[:160], show(xm)[:160])
            if name == "in [0,1]":
                ok = (reqf(g, xc, interp(cs, ce, q)) and reqf(g, xm, interp(ms, me, fbin("fsub", one, q))))
                # the ends of the closed interval may be written as constants
                if not ok and g.entails(fcmp("feq", q, zero)):
                    ok = reqf(g, xc, cs) and reqf(g, xm, me)
                if not ok and g.entails(fcmp("feq", q, one)):
                    ok = reqf(g, xc, ce) and reqf(g, xm, ms)
            elif name == "above 1":
                ok = reqf(g, xc, ce) and reqf(g, xm, ms)
            elif name == "below 0":
                ok = reqf(g, xc, cs) and reqf(g, xm, me)
            else:
                d = coeff(xc, cs, ce)
                e = coeff(xm, ms, me)
                ok = d is not None and e is not None and 0 <= d <= 1 and d + e == 1
            R.need(ok, "adapted-rates", w, txt, (xc, xm, g), key="adapted-rates|" + name)


def fres(g, t):
    """minima and maxima decided by the facts (a NaN operand is ignored)"""
    memo = {}

    def go(x):
        if not is_t(x):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        r = x
        if x.op not in BINDERS and x.op not in ("fl", "int", "in0", "bv"):
            na = tuple(go(y) if (is_t(y) or isinstance(y, tuple)) else y for y in x.a)
            r = x if na == x.a else rb(x.op, na)
        if r.op in ("fmin", "fmax"):
            a, b = r.a
            if g.entails(bnot(fcmp("feq", b, b))):
                r = a
            elif g.entails(bnot(fcmp("feq", a, a))):
                r = b
            elif g.entails(fcmp("fle", a, b)):
                r = a if r.op == "fmin" else b
            elif g.entails(fcmp("fle", b, a)):
                r = b if r.op == "fmin" else a
        memo[x] = r
        return r
    return go(t)


def coeff(x, s, e):
    """c with x = s + c*(e-s) over the reals"""
    p = rpoly(x)
    c = p.get((e,), Fraction(0))
    return c if p == {m: v for m, v in {(s,): 1 - c, (e,): c}.items() if v} else None


# ----------------------------------------------------------------------- breeding P03 P17 P41
BHOOKS = HOOKS + [(SM, "select_distinct"), (SM, "select"), (SM, "prepare")]
CROSS, MUT, IMP, SURV = "EvolutionModel::crossover", "EvolutionModel::mutate", "EvolutionModel::improve", "EvolutionModel::can_survive"
SELECT, DISTINCT = "SelectionMechanism::select", "SelectionMechanism::select_distinct"


class Breed:
    def __init__(self, ctx, o, path):
        self.ctx, self.o, self.path = ctx, o, path
        nm = ctx.argnames(path)
        self.SELF, self.POP, self.PAR, self.RNG = [mk("in0", n) for n in nm[:4]]
        self.h = [(e, i) for e, i in hooked(o.st.ev)]
        self.e = {}
        for e, i in self.h:
            self.e.setdefault(e[2], []).append(e)
        self.looped = any(i for _, i in self.h)
        v = o.val
        self.parents = {}
        s = self.e.get(SELECT, [])
        self.p1 = fld(s[0][5], 1, "()", 0, 2) if s else None
        self.p2 = None
        self.dist = self.e.get(DISTINCT, [])
        if self.dist:
            opt = "std::option::Option"
            self.p2 = fld(fld(self.dist[-1][5], 0, opt, 1, 1), 1, "()", 0, 2)
        self.cross = self.e.get(CROSS, [])
        self.v = v
        self.is_parent = self.which(v) is not None

    def which(self, v):
        """which parent the value is an unmodified copy of"""
        f = self.o.F
        for i, p in ((1, self.p1), (2, self.p2)):
            if p is not None and (v is mk("deref", p) or same(f, v, mk("deref", p))):
                return i
        return None

    def used(self):
        """the parents actually used"""
        return [self.p1, self.p2] if self.cross else [self.p1]

    def fittest(self, ref):
        """is the referenced individual one of the parents used and not less fit than the other?"""
        f = self.o.F
        for p in self.used():
            if ref is p or same(f, mk("deref", ref), mk("deref", p)):
                return all(q is p or f.entails(bnot(fcmp("flt", mk("fitness", p), mk("fitness", q)))) or
                           f.entails(bnot(fcmp("flt", mk("fitness", mk("deref", p)), mk("fitness", mk("deref", q))))) for q in self.used())
        return False


_breed = {}


def breeding(ctx):
    if id(ctx) not in _breed:
        path = ctx.fn(EM + "::breed").path
        _breed[id(ctx)] = [(o, Breed(ctx, o, path)) for o in ctx.sym(path, hooks=BHOOKS) if o.lab == "ret"]
        if not _breed[id(ctx)]:
            raise engine.Limit("breed never returns")
    return _breed[id(ctx)]


def ref_target(o, t):
    """what a reference argument refers to"""
    return t


def p03(ctx, R):
    for o, b in breeding(ctx):
        f = o.F
        w = b.path
        if b.p1 is None:
            R.need(False, "parents", w, "no first parent is selected", (o.val,))
            continue
        surv = b.e.get(SURV, [])
        v = o.val
        if b.is_parent:
            p = b.p1 if b.which(v) == 1 else b.p2
            i = b.which(v)
            R.need(not (i == 2 and not b.cross), "falls-back-to-used-parent", w, "returns a mate that was not used", (f,))
            R.need(b.fittest(p), "falls-back-to-fittest", w, "returns the parent %s, which may be less fit than the other parent used" % show(p)[:100], (f,))
            final = final_offspring(b)
            if final is None:
                R.need(False, "rejected-only", w, "a parent is returned but no offspring was evaluated", (f,))
                continue
            rej = truth_of(f, bnot(mk("is_valid", final))) or any(truth_of(f, bnot(e[5])) and same(f, e[4][1], final) for e in surv)
            R.need(rej, "rejected-only", w, "a parent is returned although the offspring may be valid and accepted", (f,))
        elif v.op == "post" or (b.cross and v is b.cross[-1][5]) or v.op == "res":
            R.need(truth_of(f, mk("is_valid", v)), "valid", w, "an offspring is returned that may be invalid", (f, v))
            acc = [e for e in surv if same(f, e[4][1], v) and truth_of(f, e[5])]
            R.need(bool(acc), "accepted", w, "an offspring is returned that the survival rule may have rejected or was not asked about", (f, v))
            for e in acc:
                R.need(b.fittest(e[4][2]), "against-fittest", w, "the survival rule compares against %s" % show(e[4][2])[:150], (f, e[4][2]))
                R.need(same(f, e[4][0], b.SELF) or e[4][0] is b.SELF, "survival-arguments", w, "asked of %s" % show(e[4][0]), (e[4][0],))
                R.need(same(f, e[4][3], b.POP), "survival-arguments", w, "asked about the population %s" % show(e[4][3])[:100], (e[4][3],))
        else:
            R.need(False, "offspring-or-parent", w, "returns %s, neither the offspring nor an unmodified parent" % show(v)[:200], (v,))
    survival(ctx, R)


def final_offspring(b):
    es = b.e.get(EVALUATE, [])
    if not es:
        return None
    e = es[-1]
    return post_of(b, e, 1)


def post_of(b, e, i):
    """the individual as the hook left it"""
    seen = [b.o.val] + list(b.o.F.order) + [x for h, _ in b.h for x in h[4]]
    for t in seen:
        for x in subterms(t):
            if x.op == "post" and x.a[0] == e[2] and x.a[3] == i and x.a[4] is e[4][i]:
                return x
    return None


def survival(ctx, R):
    path = EM + "::can_survive"
    nm = ctx.argnames(path)
    off, par = mk("in0", nm[1]), mk("in0", nm[2])
    for o in ctx.sym(path, inline_default=[(EM, "can_survive")]):
        if o.lab != "ret":
            R.violation("default-survival", path, "panics: %s" % (o.val,))
            continue
        # >= on fitness; either form of the fitness term
        for a, b in (((par), (off)), (mk("deref", par), mk("deref", off))):
            want = fcmp("fle", mk("fitness", a), mk("fitness", b))
            if contains_any(o, want):
                break
        good = True
        for l in (want, bnot(want)):
            g = o.F.copy()
            g.add(l)
            if g.bad:
                continue
            good &= g.entails(o.val) if l is want else g.entails(bnot(o.val))
        R.need(good, "default-survival", path, "accepts on %s" % show(o.val)[:200], (o.val, o.F))


def contains_any(o, want):
    fs = [x for x in subterms(want) if x.op == "fitness"]
    ts = [o.val] + list(o.F.order)
    return any(x in set(y for t in ts for y in subterms(t)) for x in fs)


def p17(ctx, R):
    for o, b in breeding(ctx):
        f, w = o.F, b.path
        par = mk("deref", b.PAR)
        cr, mr = field(ctx, RP, "crossover_rate", par), field(ctx, RP, "mutation_rate", par)
        us = [e[5] for e, i in flat(o.st.ev) if e[0] == "draw" and e[2] == "unit"]
        size = ctx.observe1(engine.new_state(), DEREF, mk("deref", b.POP))
        n = slen(size)
        did_c, did_m = bool(b.cross), bool(b.e.get(MUT))
        mates = b.dist
        lo = f.entails(le(n, ONE))
        hi = f.entails(le(I(2), n))
        # rates are numbers (P15, P18), so "not at or above" is "below"
        below = lambda u, r: f.entails(fcmp("flt", u, r)) or f.entails(bnot(fcmp("fle", r, u)))
        above = lambda u, r: f.entails(bnot(fcmp("flt", u, r))) or f.entails(fcmp("fle", r, u))
        cyes = [u for u in us if below(u, cr)]
        cno = [u for u in us if above(u, cr)]
        myes = [u for u in us if below(u, mr)]
        mno = [u for u in us if above(u, mr)]
        R.need(len(b.cross) <= 1 and len(b.e.get(MUT, [])) <= 1 and not b.looped, "at-most-once", w, "crossover %d times, mutation %d times" % (len(b.cross), len(b.e.get(MUT, []))), (f,))
        nomate = any(f.entails(eqi(mk("discr", e[5]), ZERO)) for e in mates)
        mu = myes if did_m else mno
        if did_c:
            R.need(hi, "crossover-needs-two", w, "crossover although the population may have a single individual", (f,))
            R.need(bool(cyes), "crossover-below-rate", w, "crossover although no draw from [0,1) is known to be below the crossover rate", (f,))
            x = b.cross[-1]
            R.need(same(f, x[4][1], b.p1) and b.p2 is not None and same(f, x[4][2], b.p2), "crossover-of-parents", w, "crossover of %s and %s" % (show(x[4][1])[:80], show(x[4][2])[:80]), (x[4][1], x[4][2]))
            cu = cyes
        else:
            R.need(lo or bool(cno) or nomate, "crossover-when-below-rate", w, "no crossover although the population has mates and the draw may be below the rate", (f,))
            cu = cno if not (lo or nomate) else [None]
        R.need(bool(mu), "mutation-below-rate", w, "mutation %s although the draw from [0,1) may be %s the mutation rate" % (("happens", "at or above") if did_m else ("is skipped", "below")), (f,))
        if mu and cu:
            cs = cyes + cno
            R.need(any(x is not y for x in mu for y in (cu if cu != [None] else cs or [None])), "separate-draws", w, "one draw decides both crossover and mutation", (f,))
        for e in mates:
            args = e[4]
            R.need(same(f, args[1], b.POP), "mate-of-population", w, "the mate is selected from %s" % show(args[1])[:100], (args[1],))
            R.need(b.p1 is not None and same(f, args[-1], b.p1), "mate-distinct-from-parent", w, "the mate is distinct from %s" % show(args[-1])[:100], (args[-1],))
        for e in b.e.get(SELECT, [])[:1]:
            R.need(same(f, e[4][1], b.POP), "parent-of-population", w, "the parent is selected from %s" % show(e[4][1])[:100], (e[4][1],))
        sel = unbox(selector_of(ctx, par))
        for e in mates + b.e.get(SELECT, []):
            R.need(same(f, e[4][0], sel), "given-selector", w, "selects with %s" % show(e[4][0])[:100], (e[4][0],))
        R.need(not b.e.get(PREPARE) and not b.e.get(PRE), "no-preparation-while-breeding", w, "the selector is prepared while breeding")


def p41(ctx, R):
    """crossover or copy, then mutate at most once, improve once, evaluate once, all on the same individual"""
    for o, b in breeding(ctx):
        w, f = b.path, o.F
        names = [e[2] for e, i in b.h if e[2] in (CROSS, MUT, IMP, EVALUATE, SURV)]
        want = [x for x in (CROSS, MUT) if b.e.get(x)] + [IMP, EVALUATE]
        core = [x for x in names if x != SURV]
        R.need(core == want and not b.looped, "pipeline", w, "steps %s" % ", ".join(core), (f,))
        R.need(names.count(SURV) <= 1 and (SURV not in names or names[-1] == SURV), "pipeline", w, "steps %s" % ", ".join(names), (f,))
        cur = b.cross[-1][5] if b.cross else (mk("deref", b.p1) if b.p1 is not None else None)
        for st in want:
            if st == CROSS or not b.e.get(st):
                continue
            e = b.e[st][0]
            R.need(cur is not None and same(f, e[4][1], cur), "same-individual", w, "%s is applied to %s" % (st, show(e[4][1])[:150]), (e[4][1],), key="same-individual|" + st)
            R.need(same(f, e[4][0], b.SELF), "same-model", w, "%s is called on %s" % (st, show(e[4][0])[:100]), (e[4][0],), key="same-model|" + st)
            cur = post_of(b, e, 1)
            if cur is None:
                break


RULES = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P14": p14, "P16": p16, "P17": p17, "P18": p18, "P41": p41}
