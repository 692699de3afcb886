"""Parameters and defaults (P15, P35), dispatch (P26), initial populations (P29), re-entrancy (P30), OneMax (P34)"""
from base import *
from base import F as FL
from r_alg import field, field_index, ALGS, EVO, CREATE, flat, RP
from r_pop import DEREF
from r_sel import accept_exactly, variants, p15_selectors, p26_selection, STRATEGY
import r_mut

PARAMS = {"ga": "algorithms::ga::GeneticAlgorithmParameters", "aga": "algorithms::aga::AdaptiveGeneticAlgorithmParameters"}
RANGE = "std::ops::Range"
TRAIT = " as algorithms::EvolutionParameters>::"


def within(x, hi_incl):
    return band(fcmp("fle", FL(0.0), x), fcmp("fle" if hi_incl else "flt", x, FL(1.0)))


def valid_params(ctx, alg, P):
    v = [bnot(eqi(field(ctx, PARAMS[alg], "population_size", P), ZERO)), within(field(ctx, PARAMS[alg], "elitism_rate", P), False)]
    for r in ("crossover", "mutation"):
        if alg == "ga":
            v.append(within(field(ctx, PARAMS[alg], r + "_rate", P), True))
        else:
            g = field(ctx, PARAMS[alg], r + "_rate_range", P)
            v += [within(fld(g, k, RANGE, 0, 2), True) for k in (0, 1)]
    return band(*v)


def p15(ctx, R):
    for alg in ALGS:
        path = "<" + PARAMS[alg] + TRAIT + "validate"
        P = mk("deref", mk("in0", ctx.arg(path, 0)))
        accept_exactly(ctx, R, path, None, engine.new_state(), valid_params(ctx, alg, P), lambda o: [])
        path = "<%s<M> as algorithms::EvolutionAlgorithm<M>>::configure" % ALGS[alg]
        S0, P = [mk("deref", mk("in0", ctx.arg(path, i))) for i in range(2)]
        valid = valid_params(ctx, alg, P)
        for o in ctx.sym(path, opaque=[CREATE]):
            if o.lab != "ret":
                f = o.F.copy()
                f.add(valid)
                R.need(f.bad, "accepts-valid", path, "panics (%s) although the parameters may be valid" % (o.val,), (o.F,))
                now = o.deref(ctx.arg(path, 0))
                R.need(now is not None and same(o.F, now, S0), "rejected-has-no-effect", path, "the algorithm is changed although the parameters are rejected: %s" % show(now)[:300], (now,))
                continue
            R.need(o.F.bad or o.F.entails(valid), "rejects-invalid", path, "returns although the parameters may be invalid", (o.F,))
    p15_selectors(ctx, R)


DEFAULTS = {"population_size": 100, "elitism_rate": 0.01, "crossover_rate": 0.8, "mutation_rate": 0.1, "crossover_rate_range": (0.3, 1.0), "mutation_rate_range": (0.1, 1.0),
            "parameter_adjustment_interval": 1}


def p35(ctx, R):
    for alg in ALGS:
        adt = PARAMS[alg]
        path = "<%s as std::default::Default>::default" % adt
        names = [f["name"] for f in ctx.p.adts[adt]["variants"][0]["fields"]] if adt in ctx.p.adts else []
        if not names:
            raise Missing(adt)
        for o in ctx.sym(path):
            if not R.need(o.lab == "ret", "default", path, "panics: %s" % (o.val,), (o.F,)):
                continue
            for n in names:
                v = field(ctx, adt, n, o.val)
                if n == "selection_strategy":
                    w = [i for i, vn, k in variants(ctx, STRATEGY) if vn == "RouletteWheel"]
                    R.need(bool(w) and o.F.entails(peq(v, mk("agg", STRATEGY, w[0]))), "default:" + n, path, "the default %s is %s" % (n, show(v)), (v,))
                    continue
                if n not in DEFAULTS:
                    R.need(False, "default", path, "parameter %s has no documented default" % n, key="default|" + n)
                    continue
                d = DEFAULTS[n]
                if isinstance(d, tuple):
                    for k in (0, 1):
                        x = fld(v, k, RANGE, 0, 2)
                        R.need(same(o.F, x, FL(d[k])), "default:" + n, path, "the default %s is %s" % (n, show(v)), (v,))
                else:
                    R.need(same(o.F, v, I(d) if isinstance(d, int) else FL(d)), "default:" + n, path, "the default %s is %s" % (n, show(v)), (v,))
            # accepted by validation and by every configure
            vp = "<" + adt + TRAIT + "validate"
            st = engine.new_state()
            ref = engine.ref(("O", "par"), (), False)
            st.mem[ref.a[0]] = o.val
            outs = ctx.sym(vp, args=[ref], st=st, eng=ctx.engine())
            R.need(any(x.lab == "ret" for x in outs) and all(x.lab == "ret" or x.F.bad for x in outs), "default-accepted", vp, "the default parameters are rejected", tuple(x.F for x in outs))
        for g in ("initial_population_size", "max_population_size"):
            path = "<" + adt + TRAIT + g
            P = mk("deref", mk("in0", ctx.arg(path, 0)))
            for o in ctx.sym(path):
                R.need(o.lab == "ret" and same(o.F, o.val, field(ctx, adt, "population_size", P)), g, path, "%s reports %s" % (g, show(o.val) if o.lab == "ret" else o.val), (o.F,))


# ------------------------------------------------------------------ dispatch
MSTRAT = "operators::mutation::MutationStrategy"
CSTRAT = "operators::crossover::CrossoverStrategy"
CX = "operators::crossover::"
OPERATORS = {"GeneralizedPartition2": "generalized_partition_2_crossover", "SequentialConstructive": "sequential_constructive_crossover", "EdgeRecombination": "edge_recombination_crossover",
             "PartiallyMapped": "partially_mapped_crossover", "Order": "order_crossover", "Cycle": "cycle_crossover", "SinglePoint": "single_point_crossover"}


def with_self(ctx, path, adt, i, nf=0):
    """arguments of a method called on variant i of an enum"""
    st = engine.new_state()
    ref = engine.ref(("O", "self"), (), False)
    st.mem[ref.a[0]] = mk("agg", adt, i, *[mk("in0", "$f%d" % k) for k in range(nf)])
    return st, [ref] + [mk("in0", n) for n in ctx.argnames(path)[1:]]


def f_duplicate(f, v, s, n, o):
    if v.op == "store" and v.a[0] is s:
        x = simp(f, v.a[2])
        if x.op == "at" and x.a[0] is s:
            i, j = v.a[1], x.a[1]
            return f.entails(bnot(eqi(i, j))) and f.entails(lt(i, n)) and f.entails(lt(j, n)), "not one position overwritten by the gene of another"
    return False, "not one position overwritten by the gene of another"


MUTATIONS = {"Swap": r_mut.f_swap, "Scramble": r_mut.f_scramble, "Inversion": r_mut.f_inversion, "Insertion": r_mut.f_insertion, "Duplicate": f_duplicate}


def p26_mutation(ctx, R):
    path = MSTRAT + "::mutate"
    vs = {v: (i, nf) for i, v, nf in variants(ctx, MSTRAT)}
    g = ctx.arg(path, 1)
    s = mk("deref", mk("in0", g))
    n = slen(s)
    for name, form in MUTATIONS.items():
        if not R.need(name in vs, "anchor", MSTRAT, "no strategy %s" % name, strict=True):
            continue
        st, args = with_self(ctx, path, MSTRAT, *vs[name])
        applied = 0
        for o in ctx.sym(path, args=args, st=st, eng=ctx.engine()):
            if o.lab != "ret":
                R.need(o.F.bad, "mutation-of-strategy", path, "%s panics: %s" % (name, o.val), (o.F,), key="mutation-of-strategy|" + name)
                continue
            for f, (v,) in splits(o.F, o.deref(g)):
                v = simp(f, v)
                if f.entails(lt(n, I(2))):
                    R.need(same(f, v, s), "mutation-of-strategy", path, "%s changes a genome shorter than two genes to %s" % (name, show(v)[:200]), (v,), key="mutation-of-strategy|" + name)
                    continue
                applied += 1
                ok, why = form(f, v, s, n, o)
                R.need(ok, "mutation-of-strategy", path, "%s: %s: %s" % (name, why, show(v)[:300]), (v,), key="mutation-of-strategy|" + name)
        R.need(applied > 0, "mutation-of-strategy", path, "%s never mutates a genome of two or more genes" % name, key="mutation-of-strategy|" + name)


def genome(x):
    return mk("deref", x) if x.op in ("in0",) else x


def bijective(x, d):
    """x = +-d + terms without d"""
    dep = dict(lin_parts(x)[1])
    return abs(dep.get(d, 0)) == 1 and not any(occurs(t, lambda y: y is d) for t in dep if t is not d)


def one_draw(R, rule, path, o, ds, what, key):
    ok = len(ds) == 1 and ds[0][2] == "int"
    R.need(ok, rule, path, "%s is not decided by one uniform draw: %s" % (what, [(e[2], show(e[4])) for e in ds]), (o.F,), key=key)
    return ok


def p26_crossover(ctx, R):
    path = CSTRAT + "::crossover"
    vs = {v: (i, nf) for i, v, nf in variants(ctx, CSTRAT)}
    a1, a2 = ctx.argnames(path)[1:3]
    p1, p2 = mk("deref", mk("in0", a1)), mk("deref", mk("in0", a2))
    n = slen(p1)
    opaque = [CX + v for k, v in OPERATORS.items() if k != "SinglePoint"]
    for x in opaque:
        ctx.fn(x)
    for name in OPERATORS:
        if not R.need(name in vs, "anchor", CSTRAT, "no strategy %s" % name, strict=True):
            continue
        K = lambda r: "%s|%s" % (r, name)
        st, args = with_self(ctx, path, CSTRAT, *vs[name])
        applied = 0
        for o in ctx.sym(path, args=args, st=st, eng=ctx.engine(opaque=opaque)):
            if o.lab != "ret" or o.F.bad:
                continue
            if o.F.entails(eqi(n, ZERO)) or o.F.entails(eqi(n, ONE)):
                continue
            applied += 1
            v, ds = o.val, o.evs("draw")
            if name == "SinglePoint":
                ok = one_draw(R, "point-uniform", path, o, ds, "the point", K("point-uniform"))
                if not ok:
                    continue
                d = ds[0][5]
                R.need(o.F.entails(eqi(ds[0][4][0], ZERO)) and o.F.entails(eqi(ds[0][4][1], n)), "point-uniform", path, "%s: the point is drawn from %s..%s" % (name, show(ds[0][4][0]), show(ds[0][4][1])), (o.F,), key=K("point-uniform"))
                for f, (w,) in splits(o.F, v):
                    R.need(any(same_seq(f, w, cat(slice_(p1, ZERO, c), slice_(p2, c, n))) for c in [d] + r_mut.cuts_of(w, p1)), "operator-of-strategy", path, "%s gives %s" % (name, show(w)[:300]), (w,), key=K("operator-of-strategy"))
                continue
            if v.op != "call":
                # a shortcut for equal parents is the same behaviour for the position preserving operators
                if name in ("PartiallyMapped", "Order", "Cycle") and o.F.entails(peq(p1, p2)) and same(o.F, v, p1):
                    continue
                R.need(False, "operator-of-strategy", path, "%s gives %s without its operator" % (name, show(v)[:300]), (v,), key=K("operator-of-strategy"))
                continue
            if not R.need(v.a[0] == CX + OPERATORS[name], "operator-of-strategy", path, "%s performs %s" % (name, v.a[0]), (v,), key=K("operator-of-strategy")):
                continue
            R.need(same(o.F, genome(v.a[1]), p1) and same(o.F, genome(v.a[2]), p2), "parents-in-order", path, "%s is given %s and %s" % (name, show(v.a[1]), show(v.a[2])), (v.a[1], v.a[2]), key=K("parents-in-order"))
            if name == "Cycle":
                R.need(not ds, "no-randomness", path, "cycle crossover draws random numbers", (o.F,), key=K("no-randomness"))
            elif name in ("SequentialConstructive", "EdgeRecombination"):
                if one_draw(R, "pivot-uniform", path, o, ds, "the pivot", K("pivot-uniform")):
                    d, (lo, hi) = ds[0][5], ds[0][4][:2]
                    x = simp(o.F, v.a[3])
                    x = simp(o.F, mk("deref", x)) if x.op == "ref" else x
                    ok = x.op == "at" and (x.a[0] is p1 or x.a[0] is p2) and bijective(x.a[1], d) and o.F.entails(eqi(sub(hi, lo), n))
                    R.need(ok, "pivot-uniform", path, "%s starts with %s, drawn from %s..%s" % (name, show(x), show(lo), show(hi)), (x,), key=K("pivot-uniform"))
            elif name in ("PartiallyMapped", "Order"):
                if not (len(ds) == 2 and all(e[2] == "int" for e in ds)):
                    R.need(False, "range-uniform", path, "%s: the range is not decided by two uniform draws" % name, (o.F,), key=K("range-uniform"))
                    continue
                for f, (x, y) in splits(o.F, fld(v.a[3], 0, RANGE, 0, 2), fld(v.a[3], 1, RANGE, 0, 2)):
                    d1, d2 = ds
                    L = sub(y, x)
                    ok = bijective(L, d1[5]) and not contains(L, d2[5]) and f.entails(le(ONE, L)) and f.entails(le(L, n)) and f.entails(eqi(sub(d1[4][1], d1[4][0]), n))
                    R.need(ok, "range-uniform", path, "%s: the length %s of the range is not uniform in 1..=len" % (name, show(L)), (x, y), key=K("range-uniform"))
                    ok = bijective(x, d2[5]) and f.entails(le(y, n)) and f.entails(eqi(sub(d2[4][1], d2[4][0]), addc(sub(n, L), 1)))
                    R.need(ok, "range-uniform", path, "%s: the start %s of the range is not uniform over all starts" % (name, show(x)), (x, y), key=K("range-uniform"))
            else:
                R.need(not ds, "choice-uniform", path, "%s draws before choosing a partition" % name, (o.F,), key=K("choice-uniform"))
                choice(ctx, R, path, o, v.a[3], K("choice-uniform"))
        R.need(applied > 0, "operator-of-strategy", path, "%s never performs its operator" % name, key=K("operator-of-strategy"))


def choice(ctx, R, path, o, clo, key):
    """the partition selector: uniform over the partitions it is given"""
    s = o.st.fork()
    parts = mk("in0", "$partitions")
    m = slen(mk("deref", parts))
    s.assume(le(ONE, m))
    e = o.eng
    k = len(s.ev)
    outs = e.call_value(s, clo, [mk("in0", "$last"), parts], ("selector", path))
    for lab, s2, v in outs:
        f = s2.facts
        if lab != "ret":
            R.need(f.bad, "choice-uniform", path, "the partition choice panics: %s" % (v,), (f,), key=key)
            continue
        ds = [x for x in s2.ev[k:] if x[0] == "draw"]
        if len(ds) != 1 or ds[0][2] != "int":
            R.need(False, "choice-uniform", path, "the partition is not decided by one uniform draw: %s" % show(v), (v,), key=key)
            continue
        d, (lo, hi) = ds[0][5], ds[0][4][:2]
        for g, (x,) in splits(f, v):
            R.need(bijective(x, d) and g.entails(le(ZERO, x)) and g.entails(lt(x, m)) and g.entails(eqi(sub(hi, lo), m)), "choice-uniform", path,
                   "the chosen partition is %s with the draw from %s..%s" % (show(x), show(lo), show(hi)), (x,), key=key)


def p26(ctx, R):
    p26_mutation(ctx, R)
    p26_crossover(ctx, R)
    p26_selection(ctx, R)


# ------------------------------------------------------------------ initial populations
EXTEND, EXTEND_WITH, EVOLVE = EM + "::extend_population", EM + "::extend_population_with", EVO + "evolve_population"


def seq_parts(v):
    return v.a if v.op == "cat" else (v,)


def added(R, path, o, v, old, size):
    """the part of the vector after its old contents; None when the contents are not kept in front"""
    f = o.F
    n = slen(old)
    if not R.need(f.entails(eqi(slen(v), add(n, size))), "requested-size", path, "adds %s individuals instead of the requested %s" % (show(sub(slen(v), n)), show(size)), (v,)):
        return None
    ok = same_seq(f, slice_f(f, v, ZERO, n), old)
    if not R.need(ok, "existing-kept", path, "the existing contents are not kept in front: %s" % show(v)[:300], (v,)):
        return None
    w = slice_f(f, v, n, slen(v))
    return w if not f.entails(eqi(size, ZERO)) else lit()


def p29(ctx, R):
    # random individuals
    path = EXTEND
    names = ctx.argnames(path)
    ind, size, data = [mk("in0", x) for x in names[1:4]]
    old = mk("deref", ind)
    grown = 0
    for o in ctx.sym(path):
        if o.lab != "ret":
            R.need(o.F.bad, "no-panic", path, "panics: %s" % (o.val,), (o.F,))
            continue
        w = added(R, path, o, o.deref(names[1]), old, size)
        if w is None or o.F.entails(eqi(size, ZERO)):
            continue
        grown += 1
        calls = {e[5].a[1]: (e, i) for e, i in flat(o.st.ev) if e[0] == "hook" and e[2].endswith("::new_random") and e[5].op == "res"}
        k = skolem()
        g = o.F.copy()
        g.add(lt(k, size))
        for f, (x,) in splits(g, at(w, k)):
            x = simp(f, x)
            if not R.need(x.op == "res" and x.a[0].endswith("::new_random") and x.a[1] in calls, "random-constructor", path, "a new individual is %s, not the result of the random constructor" % show(x)[:200], (x,)):
                continue
            R.need(f.entails(eqi(size, ONE)) or occurs(x, lambda t: t is k), "one-call-each", path, "several new individuals come from one call: %s" % show(x), (x,))
            e, inside = calls[x.a[1]]
            R.need(e[4][0] is data or same(f, e[4][0], mk("deref", data)), "callers-arguments", path, "the random constructor is given %s" % show(e[4][0]), (e[4][0],))
            r = e[4][1]
            R.need(occurs(r, lambda t: t.op == "res" and t.a[0] == "EvolutionModel::rng"), "models-generator", path, "the random constructor is given the generator %s" % show(r), (r,))
    R.need(grown > 0, "requested-size", path, "never adds an individual")
    # copies of one individual
    path = EXTEND_WITH
    names = ctx.argnames(path)
    ind, size, m = [mk("in0", x) for x in names[1:4]]
    old = mk("deref", ind)
    grown = 0
    for o in ctx.sym(path):
        if o.lab != "ret":
            R.need(o.F.bad, "no-panic", path, "panics: %s" % (o.val,), (o.F,))
            continue
        w = added(R, path, o, o.deref(names[1]), old, size)
        if w is None or o.F.entails(eqi(size, ZERO)):
            continue
        grown += 1
        plain, ok = ZERO, True
        for p in [q for x in seq_parts(w) for q in ([lit(y) for y in x.a] if x.op == "lit" else [x])]:
            k = skolem() if p.op != "lit" else ZERO
            g = o.F.copy()
            g.add(lt(k, slen(p)))
            if g.bad:
                continue
            for f, (x,) in splits(g, at(p, k)):
                x = simp(f, x)
                if same(f, x, m):
                    plain = add(plain, slen(p))
                    continue
                good = x.op == "post" and x.a[0] == "EvolutionModel::mutate" and same(f, x.a[-1], m)
                ok = R.need(good, "mutated-copies", path, "a new individual is %s, not a mutated copy" % show(x)[:200], (x,)) and ok
                if good:
                    R.need(occurs(x, lambda t: t is k) or f.entails(le(slen(p), ONE)), "one-call-each", path, "several new individuals come from one mutation: %s" % show(x), (x,))
        if ok:
            R.need(o.F.entails(eqi(plain, ONE)), "included-once", path, "the individual itself is included %s times" % show(plain), (w,))
        for e, i in flat(o.st.ev):
            if e[0] == "hook" and e[2] == "EvolutionModel::mutate":
                r = e[4][-1]
                R.need(occurs(r, lambda t: t.op == "res" and t.a[0] == "EvolutionModel::rng"), "models-generator", path, "mutation is given the generator %s" % show(r), (r,))
    R.need(grown > 0, "requested-size", path, "never adds an individual")
    # the callers
    for fn, ext in (("run", EXTEND), ("evolve_individual", EXTEND_WITH)):
        path = EVO + fn
        names = ctx.argnames(path)
        S, X, P, CB = [mk("in0", x) for x in names[:4]]
        short = "EvolutionModel::" + ext.split("::")[-1]
        done = 0
        for o in ctx.sym(path, opaque=[EVOLVE], hooks=[(EM, "extend_population"), (EM, "extend_population_with")]):
            hs = [(e, i) for e, i in flat(o.st.ev) if e[0] == "hook"]
            ok = len(hs) == 1 and not hs[0][1] and hs[0][0][2] == short
            if not R.need(ok, "extends-once", path, "the initial population is made by %s" % [e[2] for e, _ in hs], (o.F,)):
                continue
            e = hs[0][0]
            mv, v0, n, x = e[4][:4]
            R.need(occurs(mv, lambda t: t.op == "hookref" and t.a[0] == "EvolutionAlgorithm::model"), "models-own", path, "another model is asked: %s" % show(mv), (mv,))
            R.need(o.F.entails(eqi(slen(v0), ZERO)), "starts-empty", path, "the vector has contents before: %s" % show(v0), (v0,))
            R.need(same(o.F, n, mk("param", "initial_population_size", P)), "configured-size", path, "%s individuals are requested" % show(n), (n,))
            R.need(x is X or same(o.F, x, mk("deref", X)), "callers-arguments", path, "given %s" % show(x), (x,))
            calls = []
            walk_(o.val if o.lab == "ret" else TRUE, lambda t: t.op == "call" and t.a[0] == EVOLVE, calls)
            if o.lab != "ret":
                continue
            if len(calls) != 1:
                R.undecided("evolves-it", path, "result is not taken from one evolution: %s" % show(o.val)[:200])
                continue
            done += 1
            c = calls[0]
            R.need(c.a[2].op == "post" and c.a[2].a[0] == short and c.a[2].a[3] in (1, I(1)), "evolves-it", path, "evolves %s" % show(c.a[2])[:200], (c.a[2],))
            R.need(c.a[1] is S or same(o.F, c.a[1], mk("deref", S)), "evolves-it", path, "evolves on another object", (c.a[1],))
            R.need(c.a[3] is P, "configured-size", path, "evolves with other parameters: %s" % show(c.a[3]), (c.a[3],))
            R.need(c.a[4] is CB, "evolves-it", path, "evolves with another callback: %s" % show(c.a[4]), (c.a[4],))
            want = [x for x in ctx.observe(engine.new_state(), POP + "take_fittest", c, owned=True) if x.lab == "ret"]
            R.need(len(want) == 1 and same(o.F, o.val, want[0].val), "returns-the-fittest", path, "returns %s" % show(o.val)[:200], (o.val,))
        R.need(done > 0, "evolves-it", path, "never evolves its initial population")


def walk_(t, pred, out):
    for x in subterms(t):
        if pred(x) and x not in out:
            out.append(x)


# ------------------------------------------------------------------ re-entrancy
ENTRY = ("run", "evolve_individual", "evolve_population")


class Borrows:
    """open run-time borrows along one path; loop bodies are checked once for every way through"""

    def __init__(self, R, path, F):
        self.R, self.path, self.F, self.n, self.asked = R, path, F, 0, 0

    def walk(self, evs, open_, where=""):
        for e in evs:
            if e[0] == "borrow":
                _, site, kind, place, gid = e[:5]
                self.n += 1
                clash = [(s, k) for g, (s, k, pl) in open_.items() if pl is place and (kind == "mut" or k == "mut")]
                at_ = "%s (%s)" % (site[1], site[0])
                self.R.need(not clash, "no-conflicting-borrow", self.path, "%s borrow at %s while the %s borrow of %s is open" % (kind, at_, clash and clash[0][1], clash and clash[0][0]), (place,),
                            key="no-conflicting-borrow|%s|%s" % (self.path, site[1]))
                open_[gid] = (at_, kind, place)
            elif e[0] == "release":
                open_.pop(e[3], None)
            elif e[0] == "callback":
                self.asked += 1
                o = sorted(s for s, k, pl in open_.values())
                self.R.need(not o, "nothing-held-in-callback", self.path, "the borrow made at %s is still open when the callback is called at %s" % (o and o[0], e[1][0]), (),
                            key="nothing-held-in-callback|%s|%s" % (self.path, e[1][1]))
            elif e[0] == "loop":
                before = dict(open_)
                for lits, es, ups in e[6]:
                    now = dict(before)
                    self.walk(es, now, where)
                    extra = [v for g, v in now.items() if g not in before]
                    if extra:
                        # whatever stays open meets the next turn of the same loop
                        again = dict(now)
                        self.walk(es, again, where)
                        open_.update({g: v for g, v in now.items() if g not in before})
        return open_


def p30(ctx, R):
    from r_alg import HOOKS
    hooks = HOOKS + [(EM, "extend_population"), (EM, "extend_population_with")]
    for alg, adt in ALGS.items():
        for fn in ENTRY:
            path = EVO + fn
            f = ctx.fn(path)
            a, m = f.generics[0], f.generics[1]
            n = 0
            for o in ctx.sym(path, sub={a: {"k": "adt", "p": adt, "a": [{"k": "param", "n": m}]}}, hooks=hooks, opaque=[CREATE, POP + "new", POP + "replace"]):
                b = Borrows(R, path, o.F)
                b.walk(o.st.ev, {})
                n += b.asked
                if o.lab != "ret":
                    R.need(not any(w in str(o.val[0]) for w in ("borrow", "Borrow", "poison")), "no-borrow-panic", path, "panics: %s" % (o.val,), (o.F,))
            R.need(n > 0, "anchor", path, "%s: the callback is never called" % alg, key="anchor|%s|%s" % (path, alg))


# ------------------------------------------------------------------ OneMax
OM = "one_max::"
OMM = "<one_max::OneMaxEvolutionModel as model::EvolutionModel>::"


def p34(ctx, R):
    genome_of = lambda v, st=None: ctx.observe1(st or engine.new_state(), OM + "OneMax::genome", v)
    fit = lambda v, st=None: ctx.observe1(st or engine.new_state(), "<one_max::OneMax as individual::Individual>::fitness", v)
    # fitness
    path = OMM + "evaluate"
    name = ctx.arg(path, 1)
    x0 = mk("deref", mk("in0", name))
    g = genome_of(x0)
    b = fresh_bv()
    want = fbin("fdiv", mk("i2f", mk("cnt", slen(g), b, at(g, b))), mk("i2f", slen(g)))
    for o in ctx.sym(path):
        if o.lab != "ret":
            R.need(o.F.bad or o.F.entails(eqi(slen(g), ZERO)), "no-panic", path, "panics: %s" % (o.val,), (o.F,))
            continue
        v = o.deref(name)
        for f, (gv, fv) in splits(o.F, genome_of(v, o.st), fit(v, o.st)):
            R.need(same_seq(f, gv, g), "genome-untouched", path, "the genome becomes %s" % show(gv)[:200], (gv,))
            if not f.entails(eqi(slen(g), ZERO)):
                h = f.copy()
                h.add(le(ONE, slen(g)))
                R.need(same(h, fv, want), "fraction-of-ones", path, "the fitness becomes %s" % show(fv)[:300], (fv,))
    # mutation
    path = OMM + "mutate"
    name = ctx.arg(path, 1)
    g = genome_of(mk("deref", mk("in0", name)))
    n = slen(g)
    long_ = 0
    for o in ctx.sym(path):
        if o.lab != "ret":
            R.need(o.F.bad, "no-panic", path, "panics: %s" % (o.val,), (o.F,))
            continue
        for f, (v,) in splits(o.F, genome_of(o.deref(name), o.st)):
            v = simp(f, v)
            if f.entails(lt(n, I(2))):
                R.need(same(f, v, g), "duplicate-mutation", path, "a short genome becomes %s" % show(v)[:200], (v,))
                continue
            long_ += 1
            ok, why = f_duplicate(f, v, g, n, o)
            R.need(ok, "duplicate-mutation", path, why + ": " + show(v)[:300], (v,))
    R.need(long_ > 0, "duplicate-mutation", path, "no genome is ever mutated")
    # crossover
    path = OMM + "crossover"
    p1, p2 = [genome_of(mk("deref", mk("in0", ctx.arg(path, i)))) for i in (1, 2)]
    n = slen(p1)
    hit = 0
    for o in ctx.sym(path):
        if o.lab != "ret":
            R.need(o.F.bad or o.F.entails(bnot(eqi(n, slen(p2)))), "no-panic", path, "panics: %s" % (o.val,), (o.F,))
            continue
        for f, (v,) in splits(o.F, genome_of(o.val, o.st)):
            if f.entails(eqi(n, ZERO)):
                R.need(f.entails(eqi(slen(v), ZERO)), "single-point", path, "empty parents give %s" % show(v)[:200], (v,))
                continue
            hit += 1
            ds = o.evs("draw")
            cs = [e[5] for e in ds] + r_mut.cuts_of(v, p1) + r_mut.cuts_of(v, p2)
            R.need(any(same_seq(f, v, cat(slice_(p1, ZERO, c), slice_(p2, c, n))) for c in cs), "single-point", path, "the offspring is %s" % show(v)[:300], (v,))
            R.need(len(ds) == 1 and ds[0][2] == "int" and f.entails(eqi(sub(ds[0][4][1], ds[0][4][0]), n)), "point-uniform", path, "the point is drawn by %s" % [(e[2], show(e[4])) for e in ds], (v,))
    R.need(hit > 0, "single-point", path, "no crossover")
    # random individuals
    path = "<one_max::OneMax as individual::RandomIndividual<usize>>::new_random"
    n, rng = [mk("deref", mk("in0", ctx.arg(path, i))) for i in (0, 1)]
    for o in ctx.sym(path):
        if o.lab != "ret":
            R.need(o.F.bad, "no-panic", path, "panics: %s" % (o.val,), (o.F,))
            continue
        v = genome_of(o.val, o.st)
        R.need(o.F.entails(eqi(slen(v), n)), "requested-length", path, "the genome has %s bits" % show(slen(v)), (v,))
        evs = {e[5].a[1]: e for e, _ in flat(o.st.ev) if e[0] == "draw"}
        k = skolem()
        f0 = o.F.copy()
        f0.add(lt(k, n))
        if f0.bad:
            continue
        for f, (x,) in splits(f0, at(v, k)):
            ds = [t for t in subterms(simp(f, x)) if t.op == "draw" and t.a[1] in evs]
            R.need(len(ds) == 1 and (occurs(ds[0], lambda t: t is k) or f.entails(eqi(n, ONE))), "bits-drawn", path, "a bit is %s" % show(x)[:200], (x,))
            for d in ds:
                R.need(evs[d.a[1]][3] is rng, "given-generator", path, "a bit is drawn from %s" % show(evs[d.a[1]][3]), (x,))


RULES = {"P29": p29, "P34": p34, "P30": p30, "P15": p15, "P26": p26, "P35": p35}
