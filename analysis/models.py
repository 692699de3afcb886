"""Meaning of the library operations the crate uses (std, rand, rayon, object-pool)."""
from terms import *
from mir import strip_generics, ty_str
import engine as E
import loops as Lp

RANGE = "std::ops::Range"
RANGEI = "std::ops::RangeInclusive"
RFROM = "std::ops::RangeFrom"
RTO = "std::ops::RangeTo"
RTOI = "std::ops::RangeToInclusive"
RFULL = "std::ops::RangeFull"
SEQ = "it.seq"


def R(st, v):
    return [("ret", st, v)]


def P(st, why, site):
    return ("panic", st, (why, site[0], site[1]))


def require(eng, st, cond, why, site):
    """[(state)] where cond holds plus a panic outcome where it does not"""
    oks, pan = [], []
    for s, c in eng.branch(st, cond):
        if c:
            oks.append(s)
        else:
            pan.append(P(s, why, site))
    return oks, pan


def tyk(t):
    return (t or {}).get("k")


def peel(eng, st, v, ty):
    while tyk(ty) == "ref":
        v = eng.load(st, v)
        ty = ty["t"]
    return v, ty


# ------------------------------------------------------------------ drops, guards, maps
def guards_in(v, out, depth=0):
    if v.op == "agg":
        if v.a[0] == "guard":
            out.append(v)
            return
        if depth < 6:
            for x in v.a[2:]:
                if is_t(x):
                    guards_in(x, out, depth + 1)


def drop(eng, st, v, sp):
    gs = []
    guards_in(v, gs)
    for g in gs:
        st.emit("release", sp, g.a[2], g.a[4])


def mget_(m, k):
    while m.op == "mput":
        if m.a[1] is k:
            return m.a[2]
        if peq(m.a[1], k) is FALSE:
            m = m.a[0]
            continue
        break
    return mk("mget", m, k)


def map_get(st, m, k):
    while m.op == "mput":
        if m.a[1] is k or st.facts.entails(peq(m.a[1], k)):
            return m.a[2]
        if st.facts.entails(bnot(peq(m.a[1], k))):
            m = m.a[0]
            continue
        break
    return mk("mget", m, k)


def map_put(st, m, k, v):
    return mk("mput", m, k, v)


def ctor(eng, ca, args):
    p = ca["fn"]
    if p.endswith("Option::Some"):
        return some(args[0])
    if p.endswith("Result::Ok"):
        return ok(args[0])
    if p.endswith("Result::Err"):
        return err(args[0])
    for a in eng.p.adts.values():
        for i, v in enumerate(a["variants"]):
            if p == a["path"] + "::" + v["name"] or (len(a["variants"]) == 1 and p == a["path"]):
                return agg(a["path"], i, *args)
    return mk("unk", "ctor:" + p, eng.new(), ())


# ------------------------------------------------------------------ enums
def cases(eng, st, v, adt, n=2):
    """[(state, variant, payload)] of an enum value with at most one field per variant"""
    if v.op == "agg":
        return [(st, v.a[1], v.a[2] if len(v.a) > 2 else None)]
    if v.op == "ite":
        out = []
        for s, c in eng.branch(st, v.a[0]):
            out += cases(eng, s, v.a[1] if c else v.a[2], adt, n)
        return out
    d = eng.discr(st, v, {"k": "adt", "p": adt})
    out = []
    for s, c in eng.branch(st, eqi(d, ONE)):
        if c:
            out.append((s, 1, fld(v, 0, adt, 1, 1)))
        else:
            out.append((s, 0, fld(v, 0, adt, 0, 1) if adt == RES else None))
    return out


# ------------------------------------------------------------------ iterators
def it_seq(s, lo=None, hi=None):
    return mk("agg", SEQ, 0, s, ZERO if lo is None else lo, slen(s) if hi is None else hi)


def is_seq(it):
    return it.op == "agg" and it.a[0] == SEQ


def rest(it):
    """remaining items of a pure iterator"""
    return slice_(it.a[2], it.a[3], it.a[4])


def refs_to(st, eng, r, mut):
    """sequence of references to the elements of the sequence a reference points to"""
    root, path = eng.deref(st, r)
    n = slen(eng.read(st, root, path))
    b = fresh_bv()
    return norm_comp(n, b, E.ref(root, E.compose(path, ("ix", b)), mut))


def range_cases(eng, st, lo, hi):
    """[(state, seq)] for lo..hi"""
    out = []
    for s, c in eng.branch(st, le(lo, hi)):
        if c:
            n = sub(hi, lo)
            b = fresh_bv()
            out.append((s, norm_comp(n, b, add(lo, b)) if n is not ZERO else EMPTY))
        else:
            out.append((s, EMPTY))
    return out


def to_iter(eng, st, v, ty, site):
    """IntoIterator::into_iter: [(state, iterator value)]"""
    if v.op == "agg" and isinstance(v.a[0], str):
        nm = v.a[0]
        if nm.startswith("it."):
            return [(st, v)]
        if nm == RANGE:
            return [(s, it_seq(q)) for s, q in range_cases(eng, st, v.a[2], v.a[3])]
        if nm == RANGEI:
            return [(s, it_seq(q)) for s, q in range_cases(eng, st, v.a[2], addc(v.a[3], 1))]
        if nm == RFROM:
            return [(st, mk("agg", "it.from", 0, v.a[2]))]
        if nm == OPT:
            return [(st, it_seq(lit(v.a[2]) if v.a[1] else EMPTY))]
    k = tyk(ty)
    if k == "ref":
        t = ty["t"]
        if tyk(t) in ("slice", "array") or (tyk(t) == "adt" and t["p"] in ("std::vec::Vec",)):
            return [(st, it_seq(refs_to(st, eng, v, bool(ty.get("mut")))))]
        if tyk(t) == "adt" and "HashSet" in t["p"]:
            q = mk("elems", eng.load(st, v))
            return [(st, it_seq(vals_as_refs(eng, st, q)))]
        if tyk(t) == "adt" and "HashMap" in t["p"]:
            return [(st, map_entries(eng, st, v, bool(ty.get("mut"))))]
        if tyk(t) in ("ref",):
            return to_iter(eng, st, eng.load(st, v), t, site)
        if ty.get("mut") and tyk(t) in ("adt", "param", "alias"):
            return [(st, v)]   # &mut I is an iterator itself
        if tyk(t) == "adt":
            # a local container with Deref to a slice
            pass
    if k == "adt" and ty["p"] == "std::vec::Vec" or k == "array":
        return [(st, it_seq(v))]
    if k == "adt" and ty["p"] == OPT:
        b = fresh_bv()
        out = []
        for s, var, x in cases(eng, st, v, OPT):
            out.append((s, it_seq(lit(x) if var else EMPTY)))
        return out
    if k == "adt" and "HashSet" in ty["p"]:
        return [(st, it_seq(mk("elems", v)))]
    if k in ("param", "alias", None) or (k == "adt" and not eng.p.get(ty["p"])):
        return [(st, it_seq(mk("items", v)))]
    return [(st, it_seq(mk("items", v)))]


def map_entries(eng, st, r, mut):
    """the entries of a map behind a reference, in an order of its own"""
    root, path = eng.deref(st, r)
    keys = mk("mkeys", eng.read(st, root, path))
    kr = eng.heap(st, keys)
    b = fresh_bv()
    return it_seq(norm_comp(mk("len", keys), b, tup(E.ref(kr, (("ix", b),), False), E.ref(root, path + (("mapv", at(keys, b)),), mut))))


def vals_as_refs(eng, st, q):
    """references to values that live in nobody else's reach (hash iteration and the like)"""
    r = eng.heap(st, q)
    b = fresh_bv()
    return norm_comp(slen(q), b, E.ref(r, (("ix", b),), False))


def peval(eng, st, f, args, extra=()):
    """value of a closure call when it is pure and total here, else None"""
    s = st.fork()
    mark = eng._uid
    for l in extra:
        s.assume(l)
    ev = len(s.ev)
    snap = dict(s.mem)
    base = s.facts.copy()
    try:
        outs = eng.call_value(s, f, args, ("pure", ""), 20)
    except E.Limit:
        return None
    cs = []
    for lab, x, v in outs:
        if x.facts.bad:
            continue
        if lab != "ret" or any(y[0] != "key" for y in x.ev[ev:]):
            return None
        for r, t in snap.items():
            if x.mem.get(r) is not t:
                return None
        for r in x.mem:
            if r not in snap and r[0] in ("D", "P"):
                return None
        # references into memory created by the call must not leave it
        v = close_refs(eng, x, v, mark)
        if v is None:
            return None
        cs.append((x.facts, Lp.new_lits(x.facts, base), v))
    if not cs:
        return None
    v = Lp.merge(cs)
    if v is None:
        return None
    if occurs(v, lambda t: t.op in ("draw", "unk", "res", "post") and any(isinstance(y, int) and not isinstance(y, bool) and y > mark for y in t.a)):
        return None
    return v


def close_refs(eng, st, v, mark):
    if occurs(v, lambda t: t.op == "ref" and t.a[0][0] in ("L", "H") and t.a[0][1] > mark):
        return None
    return v


def pmap(eng, st, q, f, byref=False):
    """[f(x) | x in q] when f is pure, else None"""
    b = fresh_bv()
    n = slen(q)
    if n is ZERO:
        return EMPTY
    x = E.at_f(st.facts, q, b)
    s = st.fork()
    if byref:
        x = E.ref(eng.heap(s, x), (), False)
    v = peval(eng, s, f, [x], extra=(lt(b, n),))
    if v is None or occurs(v, lambda t: t.op == "ref" and t.a[0][0] == "H" and t.a[0] not in st.mem):
        return None
    return norm_comp(n, b, v)


def pfilter(eng, st, q, f, byref=True):
    b = fresh_bv()
    n = slen(q)
    if n is ZERO:
        return EMPTY
    x = E.at_f(st.facts, q, b)
    s = st.fork()
    y = E.ref(eng.heap(s, x), (), False) if byref else x
    v = peval(eng, s, f, [y], extra=(lt(b, n),))
    if v is None:
        return None
    return norm_fcomp(n, b, v, x)


LAZY = {"map": 2, "filter": 2}


def step_it(eng, st, root, path, site, back=False):
    """advance the iterator stored at a location: [('item',st,v)|('end',st,None)|('panic',st,x)]"""
    it = eng.read(st, root, path)
    if it.op == "ite":
        out = []
        for s, c in eng.branch(st, it.a[0]):
            eng.write(s, root, path, it.a[1] if c else it.a[2])
            out += step_it(eng, s, root, path, site, back)
        return out
    if it.op in ("ref", "boxref"):
        r2, p2 = eng.deref(st, it)
        return step_it(eng, st, r2, p2, site, back)
    if it.op != "agg" or not isinstance(it.a[0], str):
        # an iterator of the caller's making
        it = it_seq(mk("items", it))
        eng.write(st, root, path, it)
    nm = it.a[0]

    def at_path(i, n):
        return path + (("f", i, (nm, 0, n)),)
    if nm in (RANGE, RANGEI):
        lo, hi = it.a[2], it.a[3]
        c = lt(lo, hi) if nm == RANGE else le(lo, hi)
        out = []
        for s, yes in eng.branch(st, c):
            if yes:
                if back:
                    v = addc(hi, -1) if nm == RANGE else hi
                    eng.write(s, root, path + (("f", 1, (nm, 0, 2)),), addc(hi, -1))
                else:
                    v = lo
                    eng.write(s, root, path + (("f", 0, (nm, 0, 2)),), addc(lo, 1))
                out.append(("item", s, v))
            else:
                out.append(("end", s, None))
        return out
    if nm == SEQ:
        q, lo, hi = it.a[2:5]
        out = []
        for s, yes in eng.branch(st, lt(lo, hi)):
            if yes:
                i = addc(hi, -1) if back else lo
                v = E.at_f(s.facts, q, i)
                note_elem(s, q, i)
                if back:
                    eng.write(s, root, at_path(2, 3), i)
                else:
                    eng.write(s, root, at_path(1, 3), addc(lo, 1))
                out.append(("item", s, v))
            else:
                out.append(("end", s, None))
        return out
    if nm == "it.from":
        v = it.a[2]
        eng.write(st, root, at_path(0, 1), addc(v, 1))
        return [("item", st, v)]
    if nm == "it.rev":
        return step_it(eng, st, root, at_path(0, 1), site, not back)
    if nm == "it.repeat":
        return [("item", st, it.a[2])]
    if nm == "it.map":
        out = []
        for lab, s, v in step_it(eng, st, root, at_path(0, 2), site, back):
            if lab != "item":
                out.append((lab, s, v))
                continue
            for l2, s2, w in eng.call_value(s, E.ref(root, at_path(1, 2), True), [v], site, 10):
                out.append(("item", s2, w) if l2 == "ret" else (l2, s2, w))
        return out
    if nm == "it.mapinit":   # inner, state, f
        out = []
        for lab, s, v in step_it(eng, st, root, at_path(0, 3), site, back):
            if lab != "item":
                out.append((lab, s, v))
                continue
            for l2, s2, w in eng.call_value(s, E.ref(root, at_path(2, 3), True), [E.ref(root, at_path(1, 3), True), v], site, 10):
                out.append(("item", s2, w) if l2 == "ret" else (l2, s2, w))
        return out
    if nm in ("it.scan", "it.mapwhile"):
        out = []
        n = 3 if nm == "it.scan" else 2
        for lab, s, v in step_it(eng, st, root, at_path(0, n), site, back):
            if lab != "item":
                out.append((lab, s, v))
                continue
            args = [E.ref(root, at_path(1, 3), True), v] if n == 3 else [v]
            for l2, s2, w in eng.call_value(s, E.ref(root, at_path(n - 1, n), True), args, site, 10):
                if l2 != "ret":
                    out.append((l2, s2, w))
                    continue
                for s3, var, x in cases(eng, s2, w, OPT):
                    out.append(("item", s3, x) if var else ("end", s3, None))
        return out
    if nm == "it.enum":
        out = []
        for lab, s, v in step_it(eng, st, root, at_path(0, 2), site, back):
            if lab == "item":
                i = eng.read(s, root, at_path(1, 2))
                eng.write(s, root, at_path(1, 2), addc(i, 1))
                v = tup(i, v)
            out.append((lab, s, v))
        return out
    if nm == "it.take":
        n = it.a[3]
        out = []
        for s, yes in eng.branch(st, lt(ZERO, n)):
            if not yes:
                out.append(("end", s, None))
                continue
            for lab, s2, v in step_it(eng, s, root, at_path(0, 2), site, back):
                if lab == "item":
                    eng.write(s2, root, at_path(1, 2), addc(n, -1))
                out.append((lab, s2, v))
        return out
    if nm == "it.zip":
        out = []
        for lab, s, v in step_it(eng, st, root, at_path(0, 2), site, back):
            if lab != "item":
                out.append((lab, s, v))
                continue
            for l2, s2, w in step_it(eng, s, root, at_path(1, 2), site, back):
                out.append((l2, s2, tup(v, w)) if l2 == "item" else (l2, s2, w))
        return out
    if nm == "it.chain":
        out = []
        for lab, s, v in step_it(eng, st, root, at_path(0, 2), site, back):
            if lab == "end":
                out += step_it(eng, s, root, at_path(1, 2), site, back)
            else:
                out.append((lab, s, v))
        return out
    if nm == "it.cloned":
        return [(lab, s, eng.load(s, v) if lab == "item" else v) for lab, s, v in step_it(eng, st, root, at_path(0, 1), site, back)]
    if nm == "it.sample":
        return [("item", s, v) if l == "ret" else (l, s, v) for l, s, v in sample(eng, st, it.a[3], it.a[2], site)]
    if nm == "it.flat":
        raise E.Limit("flat_map of impure parts")
    if nm in ("it.filter", "it.fmap", "it.while", "it.inspect"):
        raise_skip = nm
        if nm == "it.while":
            out = []
            for lab, s, v in step_it(eng, st, root, at_path(0, 2), site, back):
                if lab != "item":
                    out.append((lab, s, v))
                    continue
                for l2, s2, w in eng.call_value(s, E.ref(root, at_path(1, 2), True), [E.ref(eng.heap(s, v))], site, 10):
                    if l2 != "ret":
                        out.append((l2, s2, w))
                        continue
                    for s3, yes in eng.branch(s2, w):
                        out.append(("item", s3, v) if yes else ("end", s3, None))
            return out

        def body(s):
            res = []
            for lab, s1, v in step_it(eng, s, root, at_path(0, 2), site, back):
                if lab == "end":
                    res.append(("exit", s1, None))
                    continue
                if lab == "panic":
                    res.append((lab, s1, v))
                    continue
                a = v if nm == "it.fmap" else E.ref(eng.heap(s1, v))
                for l2, s2, w in eng.call_value(s1, E.ref(root, at_path(1, 2), True), [a], site, 10):
                    if l2 != "ret":
                        res.append((l2, s2, w))
                        continue
                    if nm == "it.inspect":
                        res.append(("ret", s2, v))
                    elif nm == "it.filter":
                        for s3, yes in eng.branch(s2, w):
                            res.append(("ret", s3, v) if yes else ("back", s3, None))
                    else:
                        for s3, var, x in cases(eng, s2, w, OPT):
                            res.append(("ret", s3, x) if var else ("back", s3, None))
            return res
        out = []
        for lab, s, v in eng.summarise(st, body, "filter@%s" % (site,)):
            out.append(("item", s, v) if lab == "ret" else ("end", s, None) if lab == "exit" else (lab, s, v))
        return out
    raise E.Limit("iterator " + nm)


def note_elem(st, q, i):
    """facts that come with an element of a filtered sequence"""
    if q.op == "slice":
        note_elem(st, q.a[0], add(q.a[1], i))
    if q.op == "fcomp":
        j = mk("fidx", q, i)
        st.assume(lt(j, q.a[0]))
        st.assume(inst(q, j)[0])
    if q.op in ("elems", "mkeys") or (q.op == "slice" and q.a[0].op in ("elems",)):
        if q.op == "elems":
            st.assume(isin(at(q, i), q.a[0]))
    if q.op == "comp":
        v, (b,) = open_(q)
        # comp over a filtered sequence: at(f, i) patterns
        for x in subterms(b):
            if x.op == "fidx" and x.a[1] is v:
                y = x.a[0]
                j = mk("fidx", y, i)
                st.assume(lt(j, y.a[0]))
                st.assume(inst(y, j)[0])


def nx(eng, st, r, site, back=False):
    """Iterator::next on a reference"""
    root, path = eng.deref(st, r)
    out = []
    for lab, s, v in step_it(eng, st, root, path, site, back):
        if lab == "item":
            out.append(("ret", s, some(v)))
        elif lab == "end":
            out.append(("ret", s, NONE))
        else:
            out.append((lab, s, v))
    return out


def consume(eng, st, it, step, site, what):
    """run an iterator to its end: step(state, item) -> [('next'|'stop'|'panic', state, value)];
    returns [('end'|'stop'|'panic', state, value)]"""
    if is_seq(it):
        n = sub(it.a[4], it.a[3])
        if n is ZERO:
            return [("end", st, None)]
        # fork once so that the number of items is a number
    root = ("H", eng.new())
    st.mem[root] = it

    def body(s):
        res = []
        for lab, s1, v in step_it(eng, s, root, (), site):
            if lab == "end":
                res.append(("exit", s1, None))
            elif lab == "panic":
                res.append((lab, s1, v))
            else:
                for l2, s2, w in step(s1, v):
                    res.append(("back" if l2 == "next" else "ret" if l2 == "stop" else l2, s2, w))
        return res
    out = []
    for lab, s, v in eng.summarise(st, body, "%s@%s" % (what, site[0]), it=it):
        out.append(("end" if lab == "exit" else "stop" if lab == "ret" else lab, s, v))
    return out


def as_iter_arg(eng, st, v, ty):
    """an iterator passed by value, or by &mut"""
    return v


def lam1(eng, st, f, x):
    return peval(eng, st, f, [x])


def comparator(eng, st, f, item_of):
    """normal form of a comparison closure: lam over two generic elements (bv and acc(bv))"""
    b = fresh_bv()
    s = st.fork()
    x, y = item_of(s, b), item_of(s, acc(b))
    v = peval(eng, s, f, [x, y])
    if v is None:
        return mk("unk", "cmp", eng.new(), st.ks)
    return close("lam", ZERO, b, v)


# ------------------------------------------------------------------ random numbers
def rng_id(eng, st, r):
    """what generator a reference denotes"""
    for _ in range(4):
        if r.op == "ref":
            v = eng.read(st, r.a[0], r.a[1])
            if v.op in ("ref", "deref", "in0") and v.op != "deref":
                r = v
                continue
            if v.op == "agg" and v.a[0] == "poolguard":
                return v
            return mk("rngat", r.a[0], r.a[1]) if v.op in ("uninit",) else v
        return mk("deref", r) if r.op != "deref" else r
    return r


def draw(eng, st, kind, rng, args, site):
    d = mk("draw", kind, eng.new_at(st, site, kind), st.ks, *args)
    st.emit("draw", site, kind, rng_id(eng, st, rng), tuple(args), d)
    return d


def float_ty(t):
    return tyk(t) == "float"


def gen_range(eng, st, rng, v, site, ety):
    if v.op == "agg" and v.a[0] in (RANGE, RANGEI):
        lo, hi = v.a[2], v.a[3]
        if float_ty(ety) or lo.op == "fl" or hi.op == "fl":
            out = []
            c = fcmp("flt" if v.a[0] == RANGE else "fle", lo, hi)
            oks, pan = require(eng, st, c, "gen_range: empty range", site)
            for s in oks:
                if v.a[0] == RANGE and lo.op == "fl" and hi.op == "fl" and lo.a[0] == 0.0 and hi.a[0] == 1.0:
                    d = draw(eng, s, "unit", rng, (), site)
                    unit_facts(s, d)
                else:
                    d = draw(eng, s, "frange", rng, (lo, hi), site)
                    s.assume(fcmp("fle", lo, d))
                    s.assume(fcmp("flt" if v.a[0] == RANGE else "fle", d, hi))
                pan.append(("ret", s, d))
            return pan
        h = hi if v.a[0] == RANGE else addc(hi, 1)
        oks, pan = require(eng, st, lt(lo, h), "gen_range: empty range", site)
        for s in oks:
            if sub(h, lo) is ONE:
                d = draw(eng, s, "int", rng, (lo, h), site)
                s.assume(eqi(d, lo))
            else:
                d = draw(eng, s, "int", rng, (lo, h), site)
                s.assume(le(lo, d))
                s.assume(lt(d, h))
            pan.append(("ret", s, d))
        return pan
    d = draw(eng, st, "other", rng, (v,), site)
    return R(st, d)


def unit_facts(s, d):
    s.assume(fcmp("fle", F(0.0), d))
    s.assume(fcmp("flt", d, F(1.0)))


def sample(eng, st, rng, dist, site):
    if dist.op == "agg" and dist.a[0] == "Uniform":
        return gen_range(eng, st, rng, agg(RANGE, 0, dist.a[2], dist.a[3]), site, {})
    if dist.op == "agg" and dist.a[0] == "UniformI":
        return gen_range(eng, st, rng, agg(RANGEI, 0, dist.a[2], dist.a[3]), site, {})
    d = draw(eng, st, "dist", rng, (dist,), site)
    return R(st, d)


# ------------------------------------------------------------------ comparisons
def values_eq(eng, fr, st, a, b, ty, site, depth):
    """a == b for values behind any number of references: [(state, bool term)] via outcomes"""
    a, t = peel(eng, st, a, ty)
    b, _ = peel(eng, st, b, ty)
    k = tyk(t)
    if k == "float":
        return R(st, fcmp("feq", a, b))
    if k in ("int", "uint", "char"):
        return R(st, eqi(a, b))
    if k == "bool":
        return R(st, bor(band(a, b), band(bnot(a), bnot(b))))
    if k == "adt":
        m, u = eng.p.find_method("std::cmp::PartialEq", "eq", t)
        if m is not None:
            ra = E.ref(eng.heap(st, a), (), False)
            rb = E.ref(eng.heap(st, b), (), False)
            return eng.run_body(m, st, [ra, rb], dict(u), depth + 1)
        if t["p"] == OPT:
            out = []
            for s, va, x in cases(eng, st, a, OPT):
                for s2, vb, y in cases(eng, s, b, OPT):
                    if va != vb:
                        out.append(("ret", s2, FALSE))
                    elif va == 0:
                        out.append(("ret", s2, TRUE))
                    else:
                        out += values_eq(eng, fr, s2, x, y, t["a"][0], site, depth)
            return out
        if t["p"] == ORD:
            return R(st, eqi(eng.discr(st, a, t), eng.discr(st, b, t)))
    if k == "tuple":
        outs = [(st, TRUE)]
        for i, tt in enumerate(t["a"]):
            nxt = []
            for s, acc_ in outs:
                for lab, s2, v in values_eq(eng, fr, s, fld(a, i, "()", 0, len(t["a"])), fld(b, i, "()", 0, len(t["a"])), tt, site, depth):
                    nxt.append((s2, band(acc_, v)))
            outs = nxt
        return [("ret", s, v) for s, v in outs]
    return R(st, peq(a, b))


def partial_cmp(eng, st, a, b, ty, site, depth, total=False):
    """outcomes with Option<Ordering> (Ordering when total)"""
    a, t = peel(eng, st, a, ty)
    b, _ = peel(eng, st, b, ty)
    k = tyk(t)
    w = (lambda x: x) if total else some
    if k == "float" and not total:
        out = []
        for s, c in eng.branch(st, fcmp("flt", a, b)):
            if c:
                out.append(("ret", s, w(LESS)))
                continue
            for s2, c2 in eng.branch(s, fcmp("flt", b, a)):
                if c2:
                    out.append(("ret", s2, w(GREATER)))
                    continue
                for s3, c3 in eng.branch(s2, fcmp("feq", a, b)):
                    out.append(("ret", s3, w(EQUAL) if c3 else NONE))
        return out
    if k in ("int", "uint", "char"):
        out = []
        for s, c in eng.branch(st, lt(a, b)):
            if c:
                out.append(("ret", s, w(LESS)))
                continue
            for s2, c2 in eng.branch(s, eqi(a, b)):
                out.append(("ret", s2, w(EQUAL if c2 else GREATER)))
        return out
    if k == "adt":
        tr = "std::cmp::Ord" if total else "std::cmp::PartialOrd"
        m, u = eng.p.find_method(tr, "cmp" if total else "partial_cmp", t)
        if m is not None:
            ra = E.ref(eng.heap(st, a), (), False)
            rb = E.ref(eng.heap(st, b), (), False)
            return eng.run_body(m, st, [ra, rb], dict(u), depth + 1)
        if t["p"] == ORD:
            return R(st, w(mk("ordcmp", a, b)))
    return R(st, mk("cmp" if total else "pcmp", a, b))


def rel(eng, st, op, a, b, ty, site, depth):
    """< <= > >= by PartialOrd"""
    a, t = peel(eng, st, a, ty)
    b, _ = peel(eng, st, b, ty)
    k = tyk(t)
    if op in ("gt", "ge"):
        a, b, op = b, a, {"gt": "lt", "ge": "le"}[op]
    if k == "float":
        return R(st, fcmp("flt" if op == "lt" else "fle", a, b))
    if k in ("int", "uint", "char"):
        return R(st, lt(a, b) if op == "lt" else le(a, b))
    if k == "adt" and t.get("p") == OPT:
        # None is less than every Some
        out = []
        for s1, va, x in cases(eng, st, a, OPT):
            for s2, vb, y in cases(eng, s1, b, OPT):
                if va and vb:
                    out += rel(eng, s2, op, x, y, t["a"][0] if t.get("a") else {}, site, depth)
                else:
                    out.append(("ret", s2, B(vb > va or op == "le" and va == vb)))
        return out
    if k == "adt" and eng.p.find_method("std::cmp::PartialOrd", "partial_cmp", t)[0]:
        out = []
        for lab, s, v in partial_cmp(eng, st, a, b, t, site, depth):
            if lab != "ret":
                out.append((lab, s, v))
                continue
            for s2, var, o in cases(eng, s, v, OPT):
                if not var:
                    out.append(("ret", s2, FALSE))
                else:
                    d = eng.discr(s2, o, {"k": "adt", "p": ORD})
                    out.append(("ret", s2, le(d, I(-1)) if op == "lt" else le(d, ZERO)))
        return out
    return R(st, mk("plt" if op == "lt" else "ple", a, b))


# ------------------------------------------------------------------ traits
def idx_range(eng, st, v, n, site):
    """[(state, a, b)] sub-range selected by an index value; second list: panics"""
    if v.op == "agg":
        nm = v.a[0]
        if nm == RANGE:
            a, b = v.a[2], v.a[3]
        elif nm == RANGEI:
            a, b = v.a[2], addc(v.a[3], 1)
        elif nm == RFROM:
            a, b = v.a[2], n
        elif nm == RTO:
            a, b = ZERO, v.a[2]
        elif nm == RTOI:
            a, b = ZERO, addc(v.a[2], 1)
        elif nm == RFULL:
            a, b = ZERO, n
        else:
            return None
    else:
        return None
    oks, pan = require(eng, st, le(a, b), "slice index start after end", site)
    out = []
    for s in oks:
        o2, p2 = require(eng, s, le(b, n), "slice index out of range", site)
        pan += p2
        out += [(x, a, b) for x in o2]
    return out, pan


def range_agg(v, ty):
    """expose the fields of an opaque range value"""
    if v.op == "agg":
        return v
    if tyk(ty) == "adt" and ty["p"] == RANGE:
        return mk("agg", RANGE, 0, fld(v, 0, RANGE, 0, 2), fld(v, 1, RANGE, 0, 2))
    if tyk(ty) == "adt" and ty["p"] == RANGEI:
        return mk("agg", RANGEI, 0, fld(v, 0, RANGEI, 0, 3), fld(v, 1, RANGEI, 0, 3))
    if tyk(ty) == "adt" and ty["p"] == RFROM:
        return mk("agg", RFROM, 0, fld(v, 0, RFROM, 0, 1))
    if tyk(ty) == "adt" and ty["p"] == RFULL:
        return mk("agg", RFULL, 0)
    return v


def index_op(eng, st, r, i, ity, site, mut, cty=None):
    root, path = eng.deref(st, r)
    s0 = eng.read(st, root, path)
    if tyk(cty) == "adt" and "HashMap" in cty["p"]:
        k = eng.load(st, i)
        # taken to be present: rules that rely on it look at the events
        st.emit("key", site, k, s0)
        return [("ret", st, E.ref(root, path + (("mapv", k),), mut))]
    i = range_agg(i, ity)
    n = slen(s0)
    if i.op == "agg" and i.a[0] in (RANGE, RANGEI, RFROM, RTO, RTOI, RFULL):
        rs, pan = idx_range(eng, st, i, n, site)
        return pan + [("ret", s, E.ref(root, E.compose(path, ("sub", a, b)), mut)) for s, a, b in rs]
    oks, pan = require(eng, st, lt(i, n), "index out of bounds", site)
    return pan + [("ret", s, E.ref(root, E.compose(path, ("ix", i)), mut)) for s in oks]


def deref_op(eng, st, r, mut):
    root, path = eng.deref(st, r)
    v = eng.read(st, root, path)
    if v.op == "agg" and v.a[0] == "guard":
        return v.a[3]
    if v.op == "agg" and v.a[0] == "poolguard":
        return v.a[2]
    return None


def call_trait(eng, fr, st, ca, tr, name, selfty, args, tys, site, dty, depth):
    f = TRAITS.get((tr.split("::")[-1], name)) or TRAITS.get((tr.split("::")[-1], "*"))
    if f is None:
        return None
    c = Ctx(eng, fr, st, ca, tr, name, selfty, args, tys, site, dty, depth)
    return f(c)


class Ctx:
    __slots__ = ("eng", "fr", "st", "ca", "tr", "name", "selfty", "args", "tys", "site", "dty", "depth")

    def __init__(self, eng, fr, st, ca, tr, name, selfty, args, tys, site, dty, depth):
        self.eng, self.fr, self.st, self.ca, self.tr, self.name = eng, fr, st, ca, tr, name
        self.selfty, self.args, self.tys, self.site, self.dty, self.depth = selfty, args, tys, site, dty, depth

    def ty(self, i):
        t = self.tys[i] if i < len(self.tys) else None
        if t is None and i == 0 and self.selfty:
            return {"k": "ref", "mut": False, "t": self.selfty}
        return t

    def call(self, f, xs, st=None):
        return self.eng.call_value(st or self.st, f, xs, self.site, self.depth)

    def deref_ty(self, i=0):
        t = self.ty(i)
        return t["t"] if tyk(t) == "ref" else t


TRAITS = {}
FNS = {}


def trait(*keys):
    def deco(f):
        for k in keys:
            a, b = k.rsplit(".", 1)
            TRAITS[(a, b)] = f
        return f
    return deco


def fn(*keys):
    def deco(f):
        for k in keys:
            FNS[k] = f
        return f
    return deco


def on_value(c, i=0):
    """(root, path, value) of a by-reference argument"""
    root, path = c.eng.deref(c.st, c.args[i])
    return root, path, c.eng.read(c.st, root, path)


@trait("Clone.clone", "ToOwned.to_owned")
def t_clone(c):
    v = c.eng.load(c.st, c.args[0])
    t = c.deref_ty()
    return R(c.st, v)


@trait("Clone.clone_from")
def t_clone_from(c):
    root, path, _ = on_value(c)
    c.eng.write(c.st, root, path, c.eng.load(c.st, c.args[1]))
    return R(c.st, UNIT)


@trait("Deref.deref", "DerefMut.deref_mut", "AsRef.as_ref", "AsMut.as_mut", "Borrow.borrow", "BorrowMut.borrow_mut")
def t_deref(c):
    st, r = c.st, c.args[0]
    g = deref_op(c.eng, st, r, c.name.endswith("mut"))
    if g is not None:
        return R(st, g)
    t = c.selfty or (c.deref_ty() or {})
    if tyk(t) == "adt" and t["p"] == "std::vec::Vec" or tyk(t) in ("slice", "array"):
        return R(st, r)
    if tyk(t) == "adt" and t["p"] == "std::boxed::Box":
        root, path = c.eng.deref(st, r)
        return R(st, E.ref(root, path + (("box",),), True))
    if tyk(t) == "ref":
        return R(st, c.eng.load(st, r))
    root, path, v = on_value(c)
    if v.op in ("ref",):
        return R(st, v)
    if tyk(t) in ("param", "alias"):
        return R(st, mk("derefof", v))
    return R(st, r)


@trait("Index.index", "IndexMut.index_mut")
def t_index(c):
    return index_op(c.eng, c.st, c.args[0], c.args[1], c.ty(1), c.site, c.name.endswith("mut"), c.selfty or c.deref_ty())


@trait("IntoIterator.into_iter", "IntoParallelIterator.into_par_iter")
def t_into_iter(c):
    return [("ret", s, v) for s, v in to_iter(c.eng, c.st, c.args[0], c.ty(0) if c.ty(0) else c.selfty, c.site)]


@trait("IntoParallelRefIterator.par_iter", "IntoParallelRefMutIterator.par_iter_mut")
def t_par_iter(c):
    return R(c.st, it_seq(refs_to(c.st, c.eng, c.args[0], c.name.endswith("mut"))))


@trait("Iterator.next")
def t_next(c):
    return nx(c.eng, c.st, c.args[0], c.site)


@trait("DoubleEndedIterator.next_back")
def t_next_back(c):
    return nx(c.eng, c.st, c.args[0], c.site, True)


@trait("ExactSizeIterator.len")
def t_it_len(c):
    _, _, v = on_value(c)
    if is_seq(v):
        return R(c.st, sub(v.a[4], v.a[3]))
    return None


def norm_it(c, v):
    if v.op == "agg" and isinstance(v.a[0], str) and v.a[0] == RANGE:
        return [(s, it_seq(q)) for s, q in range_cases(c.eng, c.st, v.a[2], v.a[3])]
    if v.op == "agg" and isinstance(v.a[0], str) and v.a[0] == RANGEI:
        return [(s, it_seq(q)) for s, q in range_cases(c.eng, c.st, v.a[2], addc(v.a[3], 1))]
    if v.op == "agg" and isinstance(v.a[0], str) and v.a[0] == RFROM:
        return [(c.st, mk("agg", "it.from", 0, v.a[2]))]
    if v.op == "ite":
        out = []
        for s, b in c.eng.branch(c.st, v.a[0]):
            c2 = Ctx(c.eng, c.fr, s, c.ca, c.tr, c.name, c.selfty, c.args, c.tys, c.site, c.dty, c.depth)
            out += norm_it(c2, v.a[1] if b else v.a[2])
        return out
    if v.op == "agg" and isinstance(v.a[0], str) and v.a[0].startswith("it."):
        return [(c.st, v)]
    if v.op in ("ref", "boxref"):
        return [(c.st, v)]
    return [(c.st, it_seq(mk("items", v)))]


def iter_op(c):
    """adaptors and consumers on an iterator passed by value (or &mut for some)"""
    out = []
    byref = c.name in ("position", "find", "find_map", "any", "all", "nth", "try_fold", "rposition", "rfind", "by_ref")
    for s, it in (norm_it(c, c.args[0]) if not byref else [(c.st, c.args[0])]):
        c2 = Ctx(c.eng, c.fr, s, c.ca, c.tr, c.name, c.selfty, c.args, c.tys, c.site, c.dty, c.depth)
        r = iter_op1(c2, it)
        if r is None:
            c.eng.unmodelled["Iterator::" + c.name] = c.eng.unmodelled.get("Iterator::" + c.name, 0) + 1
            return None
        out += r
    return out


def existential(q_items_n, b, cond):
    return cond


def first_of(eng, st, n, b, cond):
    """split on `exists b<n. cond(b)`: [(state, index term or None)]"""
    cond_c = cond
    yes, no = st.fork(), st
    out = []
    i = close("first", n, b, cond_c)
    nofact = forall(n, b, bnot(cond_c))
    # membership form
    mem_ = None
    pats = cond_c.a if cond_c.op == "and" else (cond_c,)
    if cond_c.op in ("peq", "eq0"):
        if cond_c.op == "peq":
            x, y = cond_c.a
            for p, v in ((x, y), (y, x)):
                if not contains(v, b) and contains(p, b):
                    mem_ = inseq(v, norm_comp(n, b, p))
    if mem_ is not None and (st.facts.entails(bnot(mem_))):
        return [(st, None)]
    if nofact is not TRUE and not st.facts.entails(nofact):
        ok_ = yes.assume(lt(i, n)) and yes.assume(subst(cond_c, {b: i}))
        if ok_ and not (cond_c.op == "bool"):
            bb = fresh_bv()
            yes.assume(forall(i, bb, subst(bnot(cond_c), {b: bb})))
        if ok_ and mem_ is not None:
            ok_ = yes.assume(mem_)
        if ok_ and not yes.facts.bad:
            out.append((yes, i))
    if mem_ is not None:
        if st.facts.entails(mem_):
            return out
    if nofact is TRUE:
        return [(st, None)]
    if no.assume(nofact):
        if mem_ is None or no.assume(bnot(mem_)):
            out.append((no, None))
    return out


def search(c, it, f, byref, neg=False):
    """(outcomes of) looking for the first item with f(item): [(label, state, index, item)]
    for a pure iterator value `it`; None when not pure"""
    eng, st = c.eng, c.st
    if not is_seq(it):
        return None
    q = rest(it)
    n = slen(q)
    if n is ZERO:
        return [("none", st, None, None)]
    b = fresh_bv()
    x = E.at_f(st.facts, q, b)
    s = st.fork()
    y = E.ref(eng.heap(s, x), (), False) if byref else x
    v = peval(eng, s, f, [y], extra=(lt(b, n),))
    if v is None:
        return None
    out = []
    for s2, i in first_of(eng, st, n, b, bnot(v) if neg else v):
        if i is None:
            out.append(("none", s2, None, None))
        else:
            note_elem(s2, q, i)
            out.append(("some", s2, i, E.at_f(s2.facts, q, i)))
    return out


def iter_op1(c, it):
    eng, st, nm = c.eng, c.st, c.name
    a = c.args
    S = is_seq(it)
    q = rest(it) if S else None
    if nm in ("iter", "into_iter", "by_ref", "fuse", "into_par_iter", "with_min_len", "with_max_len"):
        return R(st, it)
    if nm in ("cloned", "copied"):
        if S:
            b = fresh_bv()
            n = slen(q)
            if n is ZERO:
                return R(st, it)
            s2 = st.fork()
            s2.assume(lt(b, n))
            v = eng.load(s2, E.at_f(s2.facts, q, b))
            return R(st, it_seq(norm_comp(n, b, v)))
        return R(st, mk("agg", "it.cloned", 0, it))
    if nm == "enumerate":
        if S:
            b = fresh_bv()
            n = slen(q)
            return R(st, it_seq(norm_comp(n, b, tup(b, at(q, b)))))
        return R(st, mk("agg", "it.enum", 0, it, ZERO))
    if nm == "rev":
        if S:
            n = slen(q)
            b = fresh_bv()
            return R(st, it_seq(norm_comp(n, b, at(q, sub(addc(n, -1), b)))))
        return R(st, mk("agg", "it.rev", 0, it))
    if nm in ("skip", "skip_any") or nm == "take" or nm == "take_any":
        k = a[1]
        if S:
            n = slen(q)
            out = []
            for s, c1 in eng.branch(st, le(k, n)):
                if nm == "skip":
                    out.append(("ret", s, it_seq(E.slice_f(s.facts, q, k, n)) if c1 else it_seq(EMPTY)))
                else:
                    out.append(("ret", s, it_seq(E.slice_f(s.facts, q, ZERO, k)) if c1 else it))
            return out
        if nm == "take":
            return R(st, mk("agg", "it.take", 0, it, k))
        return None
    if nm == "step_by":
        k = a[1]
        if S and k.op == "int" and k.a[0] > 0:
            if k is ONE:
                return R(st, it)
            n = slen(q)
            b = fresh_bv()
            m = eng.idiv(st, addc(n, k.a[0] - 1), k)
            return R(st, it_seq(norm_comp(m, b, at(q, mul(b, k)))))
        return None
    if nm == "skip_while":
        r = search(c, it, a[1], True, neg=True)
        if r is None:
            return None
        return [("ret", s, it_seq(E.slice_f(s.facts, q, i, slen(q)) if lab == "some" else EMPTY)) for lab, s, i, x in r]
    if nm == "map":
        if S:
            p = pmap(eng, st, q, a[1])
            if p is not None:
                return R(st, it_seq(p))
        return R(st, mk("agg", "it.map", 0, it, a[1]))
    if nm == "map_init":
        out = []
        for lab, s, v in eng.call_value(st, a[1], [], c.site, c.depth):
            out.append((lab, s, mk("agg", "it.mapinit", 0, it, v, a[2])) if lab == "ret" else (lab, s, v))
        return out
    if nm == "map_with":
        return R(st, mk("agg", "it.mapinit", 0, it, a[1], a[2]))
    if nm in ("filter",):
        if S:
            p = pfilter(eng, st, q, a[1])
            if p is not None:
                return R(st, it_seq(p))
        return R(st, mk("agg", "it.filter", 0, it, a[1]))
    if nm == "filter_map":
        return R(st, mk("agg", "it.fmap", 0, it, a[1]))
    if nm == "scan" and len(a) == 3:
        return R(st, mk("agg", "it.scan", 0, it, a[1], a[2]))
    if nm == "map_while":
        return R(st, mk("agg", "it.mapwhile", 0, it, a[1]))
    if nm == "take_while":
        return R(st, mk("agg", "it.while", 0, it, a[1]))
    if nm == "inspect":
        return R(st, mk("agg", "it.inspect", 0, it, a[1]))
    if nm == "zip":
        out = []
        for s, it2 in to_iter(eng, st, a[1], c.ty(1), c.site):
            if S and is_seq(it2):
                q2 = rest(it2)
                for s2, c1 in eng.branch(s, le(slen(q), slen(q2))):
                    n = slen(q) if c1 else slen(q2)
                    b = fresh_bv()
                    out.append(("ret", s2, it_seq(norm_comp(n, b, tup(at(q, b), at(q2, b))))))
            else:
                out.append(("ret", s, mk("agg", "it.zip", 0, it, it2)))
        return out
    if nm == "chain":
        out = []
        for s, it2 in to_iter(eng, st, a[1], c.ty(1), c.site):
            if S and is_seq(it2):
                out.append(("ret", s, it_seq(cat(q, rest(it2)))))
            else:
                out.append(("ret", s, mk("agg", "it.chain", 0, it, it2)))
        return out
    if nm in ("flat_map", "flatten"):
        if S:
            n = slen(q)
            if n.op == "int" and n.a[0] <= 8 and q.op != "lit":
                q = lit(*[E.at_f(st.facts, q, I(i)) for i in range(n.a[0])])
            if q.op == "lit":
                parts = []
                for x in q.a:
                    if nm == "flat_map":
                        outs = eng.call_value(st, a[1], [x], c.site, c.depth)
                        if len(outs) != 1 or outs[0][0] != "ret":
                            return None
                        st, x = outs[0][1], outs[0][2]
                    its = to_iter(eng, st, x, {}, c.site)
                    if len(its) != 1 or not is_seq(its[0][1]):
                        return None
                    st = its[0][0]
                    parts.append(rest(its[0][1]))
                return R(st, it_seq(cat(*parts)))
            b = fresh_bv()
            s2 = st.fork()
            s2.assume(lt(b, n))
            x = at(q, b)
            if nm == "flat_map":
                v = peval(eng, s2, a[1], [x])
            else:
                v = x
            if v is not None:
                its = to_iter(eng, s2, v, {}, c.site)
                if len(its) == 1 and is_seq(its[0][1]):
                    return R(st, it_seq(norm_flatc(n, b, rest(its[0][1]))))
        return None
    if nm == "windows":
        return None
    # ---- consumers
    if nm in ("for_each",):
        return fin(consume(eng, st, it, lambda s, v: nextof(eng.call_value(s, a[1], [v], c.site, c.depth)), c.site, nm), UNIT)
    if nm in ("for_each_with", "for_each_init"):
        if nm == "for_each_init":
            rs = eng.call_value(st, a[1], [], c.site, c.depth)
            st, w = rs[0][1], rs[0][2]
        else:
            w = a[1]
        r = ("H", eng.new())
        st.mem[r] = w
        return fin(consume(eng, st, it, lambda s, v: nextof(eng.call_value(s, a[2], [E.ref(r, (), True), v], c.site, c.depth)), c.site, nm), UNIT)
    if nm in ("fold", "reduce"):
        r = ("H", eng.new())
        fun = a[-1]

        def step(s, v):
            out = []
            for lab, s2, w in eng.call_value(s, fun, [eng.mget(s, r), v], c.site, c.depth):
                if lab == "ret":
                    s2.mem[r] = w
                    out.append(("next", s2, None))
                else:
                    out.append((lab, s2, w))
            return out
        if nm == "reduce" and len(a) == 3:      # in parallel: any grouping, starting from the identity
            rs = eng.call_value(st, a[1], [], c.site, c.depth)
            if len(rs) != 1 or rs[0][0] != "ret":
                return None
            st = rs[0][1]
            st.mem[r] = rs[0][2]
        elif nm == "reduce":
            root = ("H", eng.new())
            st.mem[root] = it
            out = []
            for lab, s, v in step_it(eng, st, root, (), c.site):
                if lab == "end":
                    out.append(("ret", s, NONE))
                elif lab == "panic":
                    out.append((lab, s, v))
                else:
                    s.mem[r] = v
                    out += fin(consume(eng, s, eng.mget(s, root), step, c.site, nm), lambda s2: some(eng.mget(s2, r)))
            return out
        elif len(a) != 3:
            return None
        else:
            st.mem[r] = a[1]
        return fin(consume(eng, st, it, step, c.site, nm), lambda s: eng.mget(s, r))
    if nm == "count":
        if S:
            return R(st, slen(q))
        r = ("H", eng.new())
        st.mem[r] = ZERO

        def step(s, v):
            s.mem[r] = addc(eng.mget(s, r), 1)
            return [("next", s, None)]
        return fin(consume(eng, st, it, step, c.site, nm), lambda s: eng.mget(s, r))
    if nm in ("sum", "product"):
        ft = float_ty(c.dty)
        r = ("H", eng.new())
        z = (F(0.0) if ft else ZERO) if nm == "sum" else (F(1.0) if ft else ONE)
        st.mem[r] = z

        def step(s, v):
            x = eng.load(s, v) if v.op in ("ref",) or v.op == "at" and False else v
            o = eng.mget(s, r)
            if nm == "sum":
                s.mem[r] = mk("fadd", *sorted((o, x), key=lambda t: t.id)) if ft and False else (fbin("fadd", o, x) if ft else add(o, x))
            else:
                s.mem[r] = fbin("fmul", o, x) if ft else mul(o, x)
            return [("next", s, None)]
        return fin(consume(eng, st, it, step, c.site, nm), lambda s: eng.mget(s, r))
    if nm in ("collect", "collect_into_vec", "collect_vec"):
        return collect(c, it, c.dty, None)
    if nm in ("max", "min", "max_by", "min_by", "max_by_key", "min_by_key"):
        return extremum(c, it)
    if nm in ("last",):
        if S:
            n = slen(q)
            out = []
            for s, c1 in eng.branch(st, lt(ZERO, n)):
                out.append(("ret", s, some(E.at_f(s.facts, q, addc(n, -1))) if c1 else NONE))
            return out
        return None
    if nm in ("position", "find", "find_map", "any", "all", "find_any", "position_any", "find_first", "rposition", "rfind"):
        return searching(c, it)
    if nm == "nth":
        root, path = eng.deref(st, it)
        v = eng.read(st, root, path)
        if is_seq(v):
            out = []
            lo, hi = v.a[3], v.a[4]
            i = add(lo, a[1])
            for s, c1 in eng.branch(st, lt(i, hi)):
                if c1:
                    eng.write(s, root, path + (("f", 1, (SEQ, 0, 3)),), addc(i, 1))
                    out.append(("ret", s, some(E.at_f(s.facts, v.a[2], i))))
                else:
                    eng.write(s, root, path + (("f", 1, (SEQ, 0, 3)),), hi)
                    out.append(("ret", s, NONE))
            return out
        return None
    if nm == "size_hint":
        return R(st, mk("unk", "size_hint", eng.new(), st.ks))
    if nm == "peekable":
        return None
    if nm in ("partition", "unzip"):
        return None
    if nm == "len":
        _, _, v = on_value(c)
        return R(st, sub(v.a[4], v.a[3])) if is_seq(v) else None
    return None


def nextof(outs):
    return [("next", s, None) if lab == "ret" else (lab, s, v) for lab, s, v in outs]


def fin(outs, val):
    return [("ret", s, (val(s) if callable(val) else val)) if lab == "end" else ("ret", s, v) if lab == "stop" else (lab, s, v) for lab, s, v in outs]


def collect(c, it, ty, start):
    """FromIterator / extend: outcomes with the collected value"""
    eng, st = c.eng, c.st
    k = tyk(ty)
    if k == "adt" and eng.p.adts.get(ty["p"]):
        m, u = eng.p.find_method("std::iter::FromIterator", "from_iter", ty)
        if m is not None:
            return eng.run_body(m, st, [it], dict(u), c.depth + 1)
    if k == "adt" and ("HashSet" in ty["p"]):
        if is_seq(it):
            return R(st, Lp.sext(start or SEMPTY, rest(it)))
        r = ("H", eng.new())
        st.mem[r] = start or SEMPTY

        def step(s, v):
            s.mem[r] = sins(eng.mget(s, r), v)
            return [("next", s, None)]
        return fin(consume(eng, st, it, step, c.site, "collect"), lambda s: eng.mget(s, r))
    if k == "adt" and ty["p"] in ("std::vec::Vec", "std::collections::VecDeque") or k is None or k in ("param", "alias") or k == "adt" and ty["p"] == "std::boxed::Box":
        wrap = (lambda x: mk("agg", "Box", 0, x)) if k == "adt" and ty["p"] == "std::boxed::Box" else (lambda x: x)
        if is_seq(it):
            return R(st, wrap(cat(start or EMPTY, rest(it))))
        r = ("H", eng.new())
        st.mem[r] = start or EMPTY

        def step(s, v):
            s.mem[r] = cat(eng.mget(s, r), lit(v))
            return [("next", s, None)]
        return fin(consume(eng, st, it, step, c.site, "collect"), lambda s: wrap(eng.mget(s, r)))
    return None


def extremum(c, it):
    eng, st, nm = c.eng, c.st, c.name
    root = ("H", eng.new())
    st.mem[root] = it
    key = None
    out = []
    accr = ("H", eng.new())
    item_ty = None
    t = c.dty
    if tyk(t) == "adt" and t["p"] == OPT and t["a"]:
        item_ty = t["a"][0]

    if nm in ("max_by_key", "min_by_key") and is_seq(it):
        r = arg_select(c, it, nm[:3])
        if r is not None:
            return r

    def order(s, x, y):
        """outcomes with Ordering of x vs y"""
        if nm in ("max_by", "min_by"):
            rx, ry = E.ref(eng.heap(s, x)), E.ref(eng.heap(s, y))
            return eng.call_value(s, c.args[1], [rx, ry], c.site, c.depth)
        if nm in ("max_by_key", "min_by_key"):
            res = []
            for l1, s1, kx in eng.call_value(s, c.args[1], [E.ref(eng.heap(s, x))], c.site, c.depth):
                if l1 != "ret":
                    res.append((l1, s1, kx))
                    continue
                for l2, s2, ky in eng.call_value(s1, c.args[1], [E.ref(eng.heap(s1, y))], c.site, c.depth):
                    if l2 != "ret":
                        res.append((l2, s2, ky))
                        continue
                    f = c.args[1]
                    kt = None
                    if f.op == "agg" and eng.p.get(f.a[0]):
                        kt = eng.p.norm_ty(eng.p.get(f.a[0]).locals[0]["ty"], eng.closure_sub.get(f.a[0]))
                    res += partial_cmp(eng, s2, kx, ky, kt or {}, c.site, c.depth, True)
            return res
        return partial_cmp(eng, s, x, y, item_ty or {}, c.site, c.depth, True)

    def step(s, v):
        res = []
        a0 = eng.mget(s, accr)
        for lab, s1, o in order(s, a0, v):
            if lab != "ret":
                res.append((lab, s1, o))
                continue
            d = eng.discr(s1, o, {"k": "adt", "p": ORD})
            # max keeps the last of equals, min the first
            cond = le(d, ZERO) if nm.startswith("max") else le(ONE, d)
            for s2, yes in eng.branch(s1, cond):
                if yes:
                    s2.mem[accr] = v
                res.append(("next", s2, None))
        return res
    for lab, s, v in step_it(eng, st, root, (), c.site):
        if lab == "end":
            out.append(("ret", s, NONE))
        elif lab == "panic":
            out.append((lab, s, v))
        else:
            s.mem[accr] = v
            out += fin(consume(eng, s, eng.mget(s, root), step, c.site, nm), lambda s2: some(eng.mget(s2, accr)))
    return out


def arg_select(c, it, which):
    """the first item with the least key / the last one with the greatest, for pure integer keys"""
    eng, st, f = c.eng, c.st, c.args[1]
    if not (f.op == "agg" and eng.p.get(f.a[0])):
        return None
    kt = eng.p.norm_ty(eng.p.get(f.a[0]).locals[0]["ty"], eng.closure_sub.get(f.a[0]))
    if tyk(kt) not in ("uint", "int"):
        return None
    q = rest(it)
    n = slen(q)
    b = fresh_bv()
    s0 = st.fork()
    s0.assume(lt(b, n))
    x = E.at_f(s0.facts, q, b)
    key = peval(eng, s0, f, [E.ref(eng.heap(s0, x))])
    if key is None or contains(key, b) is False:
        return None
    out = []
    for s, c1 in eng.branch(st, lt(ZERO, n)):
        if not c1:
            out.append(("ret", s, NONE))
            continue
        j = close("arg" + which, n, b, key)
        kj = subst(key, {b: j})
        s.assume(forall(n, b, le(kj, key) if which == "min" else le(key, kj)))
        s.assume(lt(j, n))
        note_elem(s, q, j)
        out.append(("ret", s, some(E.at_f(s.facts, q, j))))
    return out


def searching(c, it):
    """position find find_map any all on &mut iterator"""
    eng, st, nm = c.eng, c.st, c.name
    nm = {"find_any": "find", "find_first": "find", "position_any": "position"}.get(nm, nm)
    root, path = eng.deref(st, it) if it.op in ("ref", "boxref") else (None, ())
    if root is None:
        if it.op == "agg":
            root = ("H", eng.new())
            st.mem[root] = it
        else:
            root, path = ("D", it), ()
    v = eng.read(st, root, path)
    if v.op == "agg" and v.a[0] in (RANGE, RANGEI):
        c2 = c
        outs = []
        for s, w in norm_it(c, v):
            eng.write(s, root, path, w)
            c2 = Ctx(eng, c.fr, s, c.ca, c.tr, c.name, c.selfty, c.args, c.tys, c.site, c.dty, c.depth)
            outs += searching1(c2, nm, root, path, w)
        return outs
    return searching1(c, nm, root, path, v)


def searching1(c, nm, root, path, v):
    eng, st = c.eng, c.st
    f = c.args[1]
    import loops
    if nm in ("rposition", "rfind"):
        if not is_seq(v):
            return None
        q = rest(v)
        n = slen(q)
        b = fresh_bv()
        back = it_seq(norm_comp(n, b, at(q, sub(addc(n, -1), b)))) if n is not ZERO else v
        r = search(c, back, f, nm == "rfind")
        if r is None:
            return None
        out = []
        for lab, s, i, x in r:
            if lab == "some":
                j = sub(addc(n, -1), i)
                s.assume(le(ZERO, j))
                eng.write(s, root, path + (("f", 1, (SEQ, 0, 4)),), add(v.a[3], j))
                out.append(("ret", s, some(x) if nm == "rfind" else some(j)))
            else:
                eng.write(s, root, path + (("f", 1, (SEQ, 0, 4)),), v.a[3])
                out.append(("ret", s, NONE))
        return out
    if is_seq(v) and nm != "find_map" and not loops.short_seq(v):
        g = f
        r = search(c, v, g, nm == "find")
        if nm == "all":
            r = None
            q = rest(v)
            n = slen(q)
            b = fresh_bv()
            if n is ZERO:
                return R(st, TRUE)
            x = E.at_f(st.facts, q, b)
            w = peval(eng, st.fork(), f, [x], extra=(lt(b, n),))
            if w is not None:
                return [("ret", s2, B(i is None)) for s2, i in first_of(eng, st, n, b, bnot(w))]
        if r is not None:
            out = []
            for lab, s, i, x in r:
                if lab == "some":
                    eng.write(s, root, path + (("f", 1, (SEQ, 0, 3)),), addc(add(v.a[3], i), 1))
                    out.append(("ret", s, TRUE if nm == "any" else some(x) if nm == "find" else some(i)))
                else:
                    eng.write(s, root, path + (("f", 1, (SEQ, 0, 3)),), v.a[4])
                    out.append(("ret", s, FALSE if nm == "any" else NONE))
            return out
    if is_seq(v) and nm == "find_map":
        r = find_map_pure(c, v, f)
        if r is not None:
            return r
    cr = ("H", eng.new())
    st.mem[cr] = ZERO

    def body(s):
        res = []
        for lab, s1, x in step_it(eng, s, root, path, c.site):
            if lab == "end":
                res.append(("exit", s1, None))
                continue
            if lab == "panic":
                res.append((lab, s1, x))
                continue
            y = E.ref(eng.heap(s1, x)) if nm == "find" else x
            for l2, s2, w in eng.call_value(s1, f, [y], c.site, c.depth):
                if l2 != "ret":
                    res.append((l2, s2, w))
                    continue
                i = eng.mget(s2, cr)
                if nm == "find_map":
                    for s3, var, z in cases(eng, s2, w, OPT):
                        if var:
                            res.append(("ret", s3, some(z)))
                        else:
                            s3.mem[cr] = addc(i, 1)
                            res.append(("back", s3, None))
                    continue
                for s3, yes in eng.branch(s2, w if nm != "all" else bnot(w)):
                    if yes:
                        res.append(("ret", s3, some(x) if nm == "find" else TRUE if nm == "any" else FALSE if nm == "all" else some(i)))
                    else:
                        s3.mem[cr] = addc(i, 1)
                        res.append(("back", s3, None))
        return res
    out = []
    for lab, s, x in eng.summarise(st, body, "%s@%s" % (nm, c.site[0]), it=v):
        if lab == "exit":
            out.append(("ret", s, TRUE if nm == "all" else FALSE if nm == "any" else NONE))
        else:
            out.append((lab, s, x))
    return out


def find_map_pure(c, v, f):
    eng, st = c.eng, c.st
    q = rest(v)
    n = slen(q)
    if n is ZERO:
        return R(st, NONE)
    b = fresh_bv()
    x = E.at_f(st.facts, q, b)
    w = peval(eng, st.fork(), f, [x], extra=(lt(b, n),))
    if w is None:
        return None
    cond = is_some(w)
    if cond is None:
        return None
    out = []
    for s, i in first_of(eng, st, n, b, cond):
        if i is None:
            out.append(("ret", s, NONE))
        else:
            wi = subst(w, {b: i})
            for s2, var, z in cases(eng, s, wi, OPT):
                out.append(("ret", s2, some(z) if var else NONE))
    return out


def is_some(w):
    if w.op == "agg" and w.a[0] == OPT:
        return B(w.a[1] == 1)
    if w.op == "ite":
        a, b = is_some(w.a[1]), is_some(w.a[2])
        if a is None or b is None:
            return None
        return bor(band(w.a[0], a), band(bnot(w.a[0]), b))
    return None


for _n in ("*",):
    TRAITS[("Iterator", "*")] = iter_op
    TRAITS[("ParallelIterator", "*")] = iter_op
    TRAITS[("IndexedParallelIterator", "*")] = iter_op
    TRAITS[("DoubleEndedIterator", "*")] = iter_op


@trait("FromIterator.from_iter", "FromParallelIterator.from_par_iter")
def t_from_iter(c):
    out = []
    for s, it in to_iter(c.eng, c.st, c.args[0], c.ty(0), c.site):
        c2 = Ctx(c.eng, c.fr, s, c.ca, c.tr, c.name, c.selfty, c.args, c.tys, c.site, c.dty, c.depth)
        r = collect(c2, it, c.selfty or c.dty, None)
        if r is None:
            return None
        out += r
    return out


@trait("Extend.extend", "ParallelExtend.par_extend")
def t_extend(c):
    eng = c.eng
    out = []
    root, path = eng.deref(c.st, c.args[0])
    t = c.selfty or c.deref_ty() or {}
    for s, it in to_iter(eng, c.st, c.args[1], c.ty(1), c.site):
        cur = eng.read(s, root, path)
        # items by reference are copied out
        if is_seq(it):
            q = rest(it)
            n = slen(q)
            if n is not ZERO and tyk(t) == "adt" and t.get("a"):
                b = fresh_bv()
                x = at(q, b)
                if x.op == "ref" and tyk(t["a"][0]) != "ref":
                    q = norm_comp(n, b, eng.load(s, x))
            isset = tyk(t) == "adt" and "HashSet" in t["p"]
            ismap = tyk(t) == "adt" and "HashMap" in t["p"]
            if ismap:
                return None
            eng.write(s, root, path, Lp.sext(cur, q) if isset else cat(cur, q))
            out.append(("ret", s, UNIT))
            continue
        isset = tyk(t) == "adt" and "HashSet" in t["p"]

        def step(s1, v):
            w = eng.read(s1, root, path)
            eng.write(s1, root, path, sins(w, v) if isset else cat(w, lit(v)))
            return [("next", s1, None)]
        out += fin(consume(eng, s, it, step, c.site, "extend"), UNIT)
    return out


@trait("PartialEq.eq", "PartialEq.ne")
def t_eq(c):
    t = c.selfty if tyk(c.selfty) else None
    ty = c.ty(0)
    inner = ty["t"] if tyk(ty) == "ref" else (t or {})
    a, b = c.eng.load(c.st, c.args[0]), c.eng.load(c.st, c.args[1])
    out = []
    for lab, s, v in values_eq(c.eng, c.fr, c.st, a, b, inner, c.site, c.depth):
        out.append((lab, s, bnot(v) if lab == "ret" and c.name == "ne" else v))
    return out


@trait("PartialOrd.lt", "PartialOrd.le", "PartialOrd.gt", "PartialOrd.ge")
def t_rel(c):
    ty = c.ty(0)
    inner = ty["t"] if tyk(ty) == "ref" else (c.selfty or {})
    a, b = c.eng.load(c.st, c.args[0]), c.eng.load(c.st, c.args[1])
    return rel(c.eng, c.st, c.name, a, b, inner, c.site, c.depth)


@trait("PartialOrd.partial_cmp")
def t_pcmp(c):
    ty = c.ty(0)
    inner = ty["t"] if tyk(ty) == "ref" else (c.selfty or {})
    return partial_cmp(c.eng, c.st, c.eng.load(c.st, c.args[0]), c.eng.load(c.st, c.args[1]), inner, c.site, c.depth)


@trait("Ord.cmp")
def t_cmp(c):
    ty = c.ty(0)
    inner = ty["t"] if tyk(ty) == "ref" else (c.selfty or {})
    return partial_cmp(c.eng, c.st, c.eng.load(c.st, c.args[0]), c.eng.load(c.st, c.args[1]), inner, c.site, c.depth, True)


@trait("Ord.max", "Ord.min", "Ord.clamp")
def t_ordmm(c):
    a, b = c.args[0], c.args[1]
    k = tyk(c.selfty)
    if k == "ref" and c.name != "clamp" and tyk(c.selfty["t"]) in ("uint", "int"):
        va, vb = c.eng.load(c.st, a), c.eng.load(c.st, b)
        return [("ret", s, (b if c.name == "max" else a) if lt1 else (a if c.name == "max" else b)) for s, lt1 in c.eng.branch(c.st, le(va, vb))]
    if k not in ("uint", "int", None):
        return None
    out = []
    if c.name == "clamp":
        hi = c.args[2]
        for s, lo1 in c.eng.branch(c.st, lt(a, b)):
            if lo1:
                out.append(("ret", s, b))
                continue
            for s2, hi1 in c.eng.branch(s, lt(hi, a)):
                out.append(("ret", s2, hi if hi1 else a))
        return out
    for s, lt1 in c.eng.branch(c.st, le(a, b)):
        out.append(("ret", s, (b if c.name == "max" else a) if lt1 else (a if c.name == "max" else b)))
    return out


@trait("From.from", "Into.into")
def t_from(c):
    v = c.args[0]
    src, dst = c.ty(0), c.dty
    if c.name == "into" and tyk(dst) == "adt":
        m, u = None, None
        for f in c.eng.p.methods.get(("std::convert::From", "from"), []):
            uu = {}
            from mir import ty_unify
            if ty_unify(f.d["impl_self"], dst, uu) and ty_unify(f.d["inputs"][0], src, uu):
                m, u = f, uu
        if m is not None:
            return c.eng.run_body(m, c.st, [v], dict(u), c.depth + 1)
        if dst["p"].endswith("RefCell") or dst["p"].endswith("Box"):
            return R(c.st, mk("agg", "RefCell" if dst["p"].endswith("RefCell") else "Box", 0, v))
    if tyk(src) == "bool" and tyk(dst) in ("uint", "int"):
        return R(c.st, ite(v, ONE, ZERO))
    if tyk(src) in ("uint", "int") and tyk(dst) == "float":
        return R(c.st, i2f(v))
    if tyk(dst) == "adt":
        if dst["p"] == "std::boxed::Box":
            return R(c.st, mk("agg", "Box", 0, v))
        if dst["p"] in ("std::cell::RefCell", "std::sync::Mutex", "std::sync::RwLock"):
            return R(c.st, mk("agg", "RefCell", 0, v))
        if dst["p"] == OPT and not (tyk(src) == "adt" and src["p"] == OPT):
            return R(c.st, some(v))
        if "HashSet" in dst["p"] and tyk(src) == "array":
            return R(c.st, Lp.sext(SEMPTY, v))
        if dst["p"] == "std::vec::Vec" and tyk(src) == "ref":
            return R(c.st, c.eng.load(c.st, v))
        if tyk(src) == "adt" and src["p"] == dst["p"]:
            return R(c.st, v)
        if dst["p"] == "std::vec::Vec":
            return R(c.st, v)
    if tyk(src) in ("int", "uint", "bool") and tyk(dst) == "float":
        return R(c.st, i2f(v))
    if tyk(src) in ("int", "uint") and tyk(dst) in ("int", "uint"):
        return R(c.st, v)
    if tyk(src) == "bool" and tyk(dst) in ("int", "uint"):
        return R(c.st, ite(v, ONE, ZERO))
    if tyk(src) == "float" and tyk(dst) == "float":
        return R(c.st, v)
    if tyk(src) == tyk(dst) and tyk(src) in ("param", "alias"):
        return R(c.st, v)
    return None


@trait("TryFrom.try_from", "TryInto.try_into")
def t_try(c):
    v = c.args[0]
    src, dst = c.ty(0), c.dty
    target = dst["a"][0] if tyk(dst) == "adt" and dst["p"] == RES else None
    from mir import ty_unify
    for f in c.eng.p.methods.get(("std::convert::TryFrom", "try_from"), []):
        uu = {}
        if target and src and ty_unify(f.d["impl_self"], target, uu) and ty_unify(f.d["inputs"][0], src, uu):
            return c.eng.run_body(f, c.st, [v], dict(uu), c.depth + 1)
    if target and tyk(target) in ("uint", "int") and tyk(src) in ("uint", "int"):
        return R(c.st, ok(v))
    return None


def default_of(eng, st, ty, site, depth):
    k = tyk(ty)
    if k in ("int", "uint"):
        return R(st, ZERO)
    if k == "float":
        return R(st, F(0.0))
    if k == "bool":
        return R(st, FALSE)
    if k == "tuple":
        return R(st, UNIT if not ty["a"] else tup(*[default_of(eng, st, t, site, depth)[0][2] for t in ty["a"]]))
    if k == "adt":
        p = ty["p"]
        m, u = eng.p.find_method("std::default::Default", "default", ty)
        if m is not None:
            return eng.run_body(m, st, [], dict(u), depth + 1)
        if p in ("std::vec::Vec",):
            return R(st, EMPTY)
        if p == OPT:
            return R(st, NONE)
        if p == RANGE:
            x = default_of(eng, st, ty["a"][0], site, depth)[0][2]
            return R(st, agg(RANGE, 0, x, x))
        if p == "std::boxed::Box":
            return [("ret", s, mk("agg", "Box", 0, v)) if l == "ret" else (l, s, v) for l, s, v in default_of(eng, st, ty["a"][0], site, depth)]
        if p in ("std::cell::RefCell", "std::sync::Mutex", "std::sync::RwLock"):
            return [("ret", s, mk("agg", "RefCell", 0, v)) if l == "ret" else (l, s, v) for l, s, v in default_of(eng, st, ty["a"][0], site, depth)]
        if "PhantomData" in p:
            return R(st, mk("agg", "PhantomData", 0))
        if "HashSet" in p or "HashMap" in p:
            return R(st, SEMPTY if "Set" in p else mk("mempty"))
    return R(st, mk("defaultof", ty_str(ty)))


@trait("Default.default")
def t_default(c):
    return default_of(c.eng, c.st, c.selfty or c.dty, c.site, c.depth)


@trait("Rng.gen", "RngExt.random", "Rng.random")
def t_gen(c):
    ty = c.dty
    d = draw(c.eng, c.st, "unit" if float_ty(ty) else "gen:" + ty_str(ty), c.args[0], (), c.site)
    if float_ty(ty):
        unit_facts(c.st, d)
    return R(c.st, d)


@trait("Rng.gen_range", "Rng.random_range")
def t_gen_range(c):
    return gen_range(c.eng, c.st, c.args[0], range_agg(c.args[1], c.ty(1)), c.site, c.dty)


@trait("Rng.gen_bool", "Rng.random_bool")
def t_gen_bool(c):
    p = c.args[1]
    # true exactly when a uniform draw from [0,1) is below p; p outside [0,1] panics
    inr = band(fcmp("fle", F(0.0), p), fcmp("fle", p, F(1.0)))
    oks, pan = require(c.eng, c.st, inr, "gen_bool: probability outside [0,1]", c.site)
    for s in oks:
        d = draw(c.eng, s, "unit", c.args[0], (), c.site)
        unit_facts(s, d)
        pan.append(("ret", s, fcmp("flt", d, p)))
    return pan


@trait("Rng.gen_ratio")
def t_gen_ratio(c):
    d = draw(c.eng, c.st, "ratio", c.args[0], (c.args[1], c.args[2]), c.site)
    return R(c.st, mk("isratio", d))


@trait("Rng.sample")
def t_sample(c):
    return sample(c.eng, c.st, c.args[0], c.args[1], c.site)


@trait("Distribution.sample")
def t_dsample(c):
    return sample(c.eng, c.st, c.args[1], c.eng.load(c.st, c.args[0]), c.site)


@trait("Rng.sample_iter")
def t_sample_iter(c):
    return R(c.st, mk("agg", "it.sample", 0, c.args[1], c.args[0]))


@trait("Distribution.sample_iter")
def t_dsample_iter(c):
    return R(c.st, mk("agg", "it.sample", 0, c.args[0], c.args[1]))


@trait("RngCore.next_u32", "RngCore.next_u64")
def t_next_u(c):
    return R(c.st, draw(c.eng, c.st, c.name, c.args[0], (), c.site))


@trait("SliceRandom.choose", "SliceRandom.choose_mut", "IndexedRandom.choose")
def t_choose(c):
    root, path, v = on_value(c)
    n = slen(v)
    out = []
    for s, c1 in c.eng.branch(c.st, lt(ZERO, n)):
        if not c1:
            out.append(("ret", s, NONE))
            continue
        d = draw(c.eng, s, "int", c.args[1], (ZERO, n), c.site)
        s.assume(lt(d, n))
        out.append(("ret", s, some(E.ref(root, E.compose(path, ("ix", d)), c.name.endswith("mut")))))
    return out


@trait("SliceRandom.shuffle")
def t_shuffle(c):
    root, path, v = on_value(c)
    d = draw(c.eng, c.st, "shuffle", c.args[1], (slen(v),), c.site)
    c.eng.write(c.st, root, path, mk("perm", v, d))
    return R(c.st, UNIT)


@trait("SliceRandom.partial_shuffle")
def t_pshuffle(c):
    root, path, v = on_value(c)
    d = draw(c.eng, c.st, "pshuffle", c.args[1], (slen(v), c.args[2]), c.site)
    c.eng.write(c.st, root, path, mk("perm", v, d))
    return R(c.st, mk("unk", "partial_shuffle", c.eng.new(), c.st.ks))


@trait("SeedableRng.from_entropy")
def t_entropy(c):
    r = mk("unk", "entropy", c.eng.new(), c.st.ks)
    c.st.emit("opaque", c.site, "entropy", (), (), r)
    return R(c.st, r)


@trait("ParallelSliceMut.par_sort_unstable_by", "ParallelSliceMut.par_sort_by", "ParallelSliceMut.par_sort_by_key", "ParallelSliceMut.par_sort_unstable_by_key", "ParallelSliceMut.par_sort", "ParallelSliceMut.par_sort_unstable")
def t_sort(c):
    return sort_op(c)


def sort_op(c):
    eng, st = c.eng, c.st
    root, path, v = on_value(c)
    nm = c.name
    by = "by_key" in nm or "by_cached_key" in nm
    stable = "unstable" not in nm
    key = mk("generic", v)

    def elem(s, b):
        r = ("H", eng.new())
        s.mem[r] = mk("el", b)
        return E.ref(r, (), False)
    if nm.endswith("_by"):
        f = comparator(eng, st, c.args[1], elem)
    elif by:
        b = fresh_bv()
        s = st.fork()
        w = peval(eng, s, c.args[1], [elem(s, b)])
        f = mk("unk", "key", eng.new(), st.ks) if w is None else mk("bykey", close("lam", ZERO, b, w))
    else:
        f = mk("natural")
    eng.write(st, root, path, mk("sort", v, f))
    return R(st, UNIT)


@trait("ToString.to_string", "Display.fmt", "Debug.fmt", "LowerExp.fmt")
def t_fmt(c):
    return R(c.st, mk("unk", "fmt", c.eng.new(), c.st.ks))


@trait("Try.branch")
def t_branch(c):
    # ControlFlow: 0 Continue(payload) 1 Break(residual)
    CF = "std::ops::ControlFlow"
    out = []
    t = c.ty(0)
    adt = t["p"] if tyk(t) == "adt" else OPT
    for s, var, x in cases(c.eng, c.st, c.args[0], adt):
        if adt == OPT:
            out.append(("ret", s, mk("agg", CF, 0, x) if var else mk("agg", CF, 1, NONE)))
        else:
            out.append(("ret", s, mk("agg", CF, 0, x) if var == 0 else mk("agg", CF, 1, err(x))))
    return out


@trait("FromResidual.from_residual")
def t_residual(c):
    return R(c.st, c.args[0])


@trait("Add.add", "Sub.sub", "Mul.mul", "Div.div", "Rem.rem", "AddAssign.add_assign", "SubAssign.sub_assign", "MulAssign.mul_assign", "DivAssign.div_assign", "Neg.neg", "Not.not")
def t_arith(c):
    eng, st = c.eng, c.st
    nm = c.name
    assign = nm.endswith("_assign")
    ty = c.ty(0)
    if assign:
        root, path, a = on_value(c)
        t = ty["t"] if tyk(ty) == "ref" else c.selfty
    else:
        a, t = peel(eng, st, c.args[0], ty)
    if nm in ("neg", "not"):
        if nm == "not" and tyk(t) == "bool":
            return R(st, bnot(a))
        return R(st, mk("fneg", a) if float_ty(t) else scale(a, -1)) if nm == "neg" else None
    b, _ = peel(eng, st, c.args[1], c.ty(1))
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[nm.split("_")[0]]
    if tyk(t) not in ("int", "uint", "float"):
        return None
    pan = []
    if op == "Sub" and tyk(t) == "uint":
        oks, pan = require(eng, st, le(b, a), "subtract with overflow", c.site)
        if not oks:
            return pan
        st = oks[0]
    if op in ("Div", "Rem") and tyk(t) != "float":
        oks, pan = require(eng, st, bnot(eq0(b)), "division by zero", c.site)
        if not oks:
            return pan
        st = oks[0]
    for s, v in eng.binop(st, op, a, b, t):
        if assign:
            eng.write(s, root, path, v)
            v = UNIT
        pan.append(("ret", s, v))
    return pan


# ------------------------------------------------------------------ functions
def call_fn(eng, fr, st, ca, args, tys, site, dty, depth):
    nm = strip_generics(ca.get("res") or ca["fn"])
    f = FNS.get(nm)
    if f is None:
        f = FNS.get(short_name(nm))
    if f is None:
        return None
    return f(Ctx(eng, fr, st, ca, None, nm.split("::")[-1], None, args, tys, site, dty, depth))


def short_name(nm):
    """`core::slice::<impl [T]>::iter` -> `slice.iter`"""
    import re
    m = re.match(r"(?:core|alloc|std)::(\w+)::<impl ([^>]*)>::(\w+)$", nm)
    if m:
        return m.group(1) + "." + m.group(3)
    parts = nm.split("::")
    if len(parts) >= 2:
        return parts[-2] + "." + parts[-1]
    return nm


@fn("slice.iter", "slice.iter_mut", "Vec.iter", "Vec.iter_mut")
def f_iter(c):
    return R(c.st, it_seq(refs_to(c.st, c.eng, c.args[0], c.name.endswith("mut"))))


@fn("slice.windows")
def f_windows(c):
    root, path, v = on_value(c)
    w = c.args[1]
    n = slen(v)
    out = []
    for s, c1 in c.eng.branch(c.st, le(w, n)):
        if c1:
            b = fresh_bv()
            out.append(("ret", s, it_seq(norm_comp(addc(sub(n, w), 1), b, E.ref(root, E.compose(path, ("sub", b, add(b, w))), False)))))
        else:
            out.append(("ret", s, it_seq(EMPTY)))
    return out


@fn("slice.first", "slice.last", "slice.first_mut", "slice.last_mut", "Vec.last", "Vec.first")
def f_first(c):
    root, path, v = on_value(c)
    n = slen(v)
    i = ZERO if "first" in c.name else addc(n, -1)
    out = []
    for s, c1 in c.eng.branch(c.st, lt(ZERO, n)):
        out.append(("ret", s, some(E.ref(root, E.compose(path, ("ix", i)), c.name.endswith("mut"))) if c1 else NONE))
    return out


@fn("slice.get", "slice.get_mut", "Vec.get", "Vec.get_mut")
def f_get(c):
    root, path, v = on_value(c)
    n = slen(v)
    i = range_agg(c.args[1], c.ty(1))
    if i.op == "agg":
        rs, pan = idx_range(c.eng, c.st, i, n, c.site)
        return [("ret", s, some(E.ref(root, E.compose(path, ("sub", a, b)), True))) for s, a, b in rs] + [("ret", s, NONE) for _, s, _ in pan]
    out = []
    for s, c1 in c.eng.branch(c.st, lt(i, n)):
        out.append(("ret", s, some(E.ref(root, E.compose(path, ("ix", i)), c.name.endswith("mut"))) if c1 else NONE))
    return out


@fn("slice.len", "Vec.len", "slice.is_empty", "Vec.is_empty")
def f_len(c):
    _, _, v = on_value(c)
    return R(c.st, slen(v) if c.name == "len" else eq0(slen(v)))


@fn("slice.swap")
def f_swap(c):
    eng = c.eng
    root, path, v = on_value(c)
    n = slen(v)
    oks, pan = require(eng, c.st, band(lt(c.args[1], n), lt(c.args[2], n)), "swap: index out of bounds", c.site)
    for s in oks:
        i, j = c.args[1], c.args[2]
        if s.facts.entails(eqi(i, j)):
            pass
        else:
            eng.write(s, root, path, swapd(v, i, j))
        pan.append(("ret", s, UNIT))
    return pan


@fn("slice.reverse")
def f_reverse(c):
    root, path, v = on_value(c)
    c.eng.write(c.st, root, path, rev(v))
    return R(c.st, UNIT)


@fn("slice.rotate_right", "slice.rotate_left")
def f_rotate(c):
    eng = c.eng
    root, path, v = on_value(c)
    n = slen(v)
    k = c.args[1]
    oks, pan = require(eng, c.st, le(k, n), "rotate: amount exceeds length", c.site)
    for s in oks:
        m = sub(n, k) if c.name == "rotate_right" else k
        eng.write(s, root, path, cat(E.slice_f(s.facts, v, m, n), E.slice_f(s.facts, v, ZERO, m)))
        pan.append(("ret", s, UNIT))
    return pan


@fn("slice.copy_from_slice", "slice.clone_from_slice")
def f_copy_from(c):
    eng = c.eng
    root, path, v = on_value(c)
    src = eng.load(c.st, c.args[1])
    oks, pan = require(eng, c.st, eqi(slen(v), slen(src)), "copy_from_slice: lengths differ", c.site)
    for s in oks:
        eng.write(s, root, path, src)
        pan.append(("ret", s, UNIT))
    return pan


@fn("slice.copy_within")
def f_copy_within(c):
    eng = c.eng
    root, path, v = on_value(c)
    n = slen(v)
    i = range_agg(c.args[1], c.ty(1))
    rs, pan = idx_range(eng, c.st, i, n, c.site)
    for s, a, b in rs:
        d = c.args[2]
        oks, p2 = require(eng, s, le(add(d, sub(b, a)), n), "copy_within: out of range", c.site)
        pan += p2
        for s2 in oks:
            F_ = s2.facts
            eng.write(s2, root, path, cat(E.slice_f(F_, v, ZERO, d), E.slice_f(F_, v, a, b), E.slice_f(F_, v, add(d, sub(b, a)), n)))
            pan.append(("ret", s2, UNIT))
    return pan


@fn("slice.fill")
def f_fill(c):
    root, path, v = on_value(c)
    c.eng.write(c.st, root, path, rep(c.args[1], slen(v)))
    return R(c.st, UNIT)


@fn("slice.split_at", "slice.split_at_mut")
def f_split_at(c):
    root, path, v = on_value(c)
    n = slen(v)
    k = c.args[1]
    oks, pan = require(c.eng, c.st, le(k, n), "split_at: out of range", c.site)
    mut = c.name.endswith("mut")
    for s in oks:
        pan.append(("ret", s, tup(E.ref(root, E.compose(path, ("sub", ZERO, k)), mut), E.ref(root, E.compose(path, ("sub", k, n)), mut))))
    return pan


@fn("slice.contains", "Vec.contains")
def f_contains(c):
    eng = c.eng
    root, path, v = on_value(c)
    x = eng.load(c.st, c.args[1])
    t = c.deref_ty()
    et = t.get("t") if tyk(t) == "slice" else (t["a"][0] if tyk(t) == "adt" and t.get("a") else None)
    n = slen(v)
    b = fresh_bv()
    if tyk(et) in ("int", "uint"):
        cond = eqi(at(v, b), x)
    elif tyk(et) == "float":
        cond = fcmp("feq", at(v, b), x)
    elif tyk(et) == "adt" and eng.p.find_method("std::cmp::PartialEq", "eq", et)[0]:
        return None
    else:
        cond = peq(at(v, b), x)
        e = inseq(x, v)
        return R(c.st, e)
    return [("ret", s, B(i is not None)) for s, i in first_of(eng, c.st, n, b, cond)]


@fn("slice.to_vec", "slice.into_vec", "Vec.into_boxed_slice", "slice.to_owned")
def f_to_vec(c):
    if c.name == "into_vec" or c.name == "into_boxed_slice":
        v = c.args[0]
        if v.op == "agg" and v.a[0] == "Box":
            v = v.a[2]
        return R(c.st, v)
    return R(c.st, c.eng.load(c.st, c.args[0]))


@fn("slice.concat")
def f_concat(c):
    q = c.eng.load(c.st, c.args[0])
    if q.op == "lit":
        parts = []
        for x in q.a:
            parts.append(c.eng.load(c.st, x) if x.op == "ref" else x)
        if all(isinstance(p, Term) for p in parts):
            t = c.deref_ty()
            et = t.get("t") if tyk(t) in ("slice", "array") else None
            if tyk(et) == "ref":
                return R(c.st, cat(*[c.eng.load(c.st, x) for x in q.a]))
            return R(c.st, cat(*q.a))
    return None


for _n in ("sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
    FNS["slice." + _n] = sort_op


@fn("std::vec::Vec::new", "std::vec::Vec::with_capacity", "Vec.new", "Vec.with_capacity")
def f_vec_new(c):
    return R(c.st, EMPTY)


@fn("std::vec::from_elem", "vec.from_elem")
def f_from_elem(c):
    return R(c.st, rep(c.args[0], c.args[1]))


@fn("Vec.push", "VecDeque.push_back")
def f_push(c):
    root, path, v = on_value(c)
    c.eng.write(c.st, root, path, cat(v, lit(c.args[1])))
    return R(c.st, UNIT)


@fn("Vec.pop")
def f_pop(c):
    root, path, v = on_value(c)
    n = slen(v)
    out = []
    for s, c1 in c.eng.branch(c.st, lt(ZERO, n)):
        if c1:
            x = E.at_f(s.facts, v, addc(n, -1))
            c.eng.write(s, root, path, E.slice_f(s.facts, v, ZERO, addc(n, -1)))
            out.append(("ret", s, some(x)))
        else:
            out.append(("ret", s, NONE))
    return out


@fn("Vec.clear", "HashSet.clear", "HashMap.clear")
def f_clear(c):
    root, path, v = on_value(c)
    t = c.deref_ty() or {}
    p = t.get("p", "")
    c.eng.write(c.st, root, path, SEMPTY if "HashSet" in p else mk("mempty") if "HashMap" in p else EMPTY)
    return R(c.st, UNIT)


@fn("Vec.reserve", "Vec.shrink_to_fit", "Vec.reserve_exact", "HashSet.reserve")
def f_reserve(c):
    return R(c.st, UNIT)


@fn("Vec.capacity")
def f_capacity(c):
    # a number of the allocator's choosing, at least the length
    x = mk("res", "capacity", c.eng.new(), c.st.ks)
    c.st.assume(le(slen(on_value(c)[2]), x))
    return R(c.st, x)


@fn("slice.partition_point", "slice.par_partition_point")
def f_ppoint(c):
    root, path, v = on_value(c)
    q = refs_to(c.st, c.eng, c.args[0], False)
    r = search(c, it_seq(q), c.args[1], False, neg=True)
    if r is None:
        return None
    return [("ret", s, i if lab == "some" else slen(v)) for lab, s, i, x in r]


@fn("slice.chunks", "slice.chunks_exact", "slice.rchunks")
def f_chunks(c):
    root, path, v = on_value(c)
    k = c.args[1]
    if k.op != "int" or k.a[0] < 1 or c.name == "rchunks":
        return None
    n = slen(v)
    b = fresh_bv()
    lo = mul(b, k)
    m = c.eng.idiv(c.st, n if c.name == "chunks_exact" else addc(n, k.a[0] - 1), k)
    hi = addc(lo, k.a[0])
    if c.name == "chunks":
        hi = imin(hi, n)
    return R(c.st, it_seq(norm_comp(m, b, E.ref(root, E.compose(path, ("sub", lo, hi)), False))))


@fn("Vec.truncate")
def f_truncate(c):
    root, path, v = on_value(c)
    n = slen(v)
    out = []
    for s, c1 in c.eng.branch(c.st, le(c.args[1], n)):
        if c1:
            c.eng.write(s, root, path, E.slice_f(s.facts, v, ZERO, c.args[1]))
        out.append(("ret", s, UNIT))
    return out


@fn("Vec.resize")
def f_resize(c):
    root, path, v = on_value(c)
    n = slen(v)
    m = c.args[1]
    out = []
    for s, c1 in c.eng.branch(c.st, le(m, n)):
        c.eng.write(s, root, path, E.slice_f(s.facts, v, ZERO, m) if c1 else cat(v, rep(c.args[2], sub(m, n))))
        out.append(("ret", s, UNIT))
    return out


@fn("Vec.append")
def f_append(c):
    eng = c.eng
    root, path, v = on_value(c)
    r2, p2, w = on_value(c, 1)
    eng.write(c.st, root, path, cat(v, w))
    eng.write(c.st, r2, p2, EMPTY)
    return R(c.st, UNIT)


@fn("Vec.extend_from_slice")
def f_extend_slice(c):
    root, path, v = on_value(c)
    c.eng.write(c.st, root, path, cat(v, c.eng.load(c.st, c.args[1])))
    return R(c.st, UNIT)


@fn("Vec.insert")
def f_insert(c):
    root, path, v = on_value(c)
    n = slen(v)
    i = c.args[1]
    oks, pan = require(c.eng, c.st, le(i, n), "insert: index out of range", c.site)
    for s in oks:
        c.eng.write(s, root, path, cat(E.slice_f(s.facts, v, ZERO, i), lit(c.args[2]), E.slice_f(s.facts, v, i, n)))
        pan.append(("ret", s, UNIT))
    return pan


@fn("Vec.remove", "Vec.swap_remove")
def f_remove(c):
    root, path, v = on_value(c)
    n = slen(v)
    i = c.args[1]
    oks, pan = require(c.eng, c.st, lt(i, n), c.name + ": index out of range", c.site)
    for s in oks:
        if v.op == "lit" and i.op != "int":
            for k in range(min(len(v.a), 4)):
                if s.facts.entails(eqi(i, I(k))):
                    i = I(k)
        x = E.at_f(s.facts, v, i)
        if v.op == "lit" and i.op == "int" and c.name == "swap_remove":
            w = list(v.a)
            if 0 <= i.a[0] < len(w):
                w[i.a[0]] = w[-1]
            w = lit(*w[:-1])
        elif c.name == "remove":
            w = cat(E.slice_f(s.facts, v, ZERO, i), E.slice_f(s.facts, v, addc(i, 1), n))
        else:
            w = mk("swaprem", v, i)
        c.eng.write(s, root, path, w)
        pan.append(("ret", s, x))
    return pan


@fn("Vec.drain")
def f_drain(c):
    root, path, v = on_value(c)
    n = slen(v)
    i = range_agg(c.args[1], c.ty(1))
    r = idx_range(c.eng, c.st, i, n, c.site)
    if r is None:
        return None
    rs, pan = r
    for s, a, b in rs:
        F_ = s.facts
        q = E.slice_f(F_, v, a, b)
        c.eng.write(s, root, path, cat(E.slice_f(F_, v, ZERO, a), E.slice_f(F_, v, b, n)))
        pan.append(("ret", s, it_seq(q)))
    return pan


@fn("Vec.split_off")
def f_split_off(c):
    root, path, v = on_value(c)
    n = slen(v)
    i = c.args[1]
    oks, pan = require(c.eng, c.st, le(i, n), "split_off: out of range", c.site)
    for s in oks:
        q = E.slice_f(s.facts, v, i, n)
        c.eng.write(s, root, path, E.slice_f(s.facts, v, ZERO, i))
        pan.append(("ret", s, q))
    return pan


@fn("Vec.retain", "Vec.retain_mut")
def f_retain(c):
    eng, st = c.eng, c.st
    root, path, v = on_value(c)
    p = pfilter(eng, st, v, c.args[1]) if c.name == "retain" else None
    if p is not None:
        eng.write(st, root, path, p)
        return R(st, UNIT)
    keep = ("H", eng.new())
    st.mem[keep] = EMPTY
    b = fresh_bv()
    it = it_seq(norm_comp(slen(v), b, E.ref(root, E.compose(path, ("ix", b)), True)))

    def step(s, r):
        out = []
        for lab, s2, w in eng.call_value(s, c.args[1], [r], c.site, c.depth):
            if lab != "ret":
                out.append((lab, s2, w))
                continue
            for s3, yes in eng.branch(s2, w):
                if yes:
                    s3.mem[keep] = cat(eng.mget(s3, keep), lit(eng.load(s3, r)))
                out.append(("next", s3, None))
        return out
    outs = []
    for lab, s, x in consume(eng, st, it, step, c.site, "retain"):
        if lab == "end":
            eng.write(s, root, path, eng.mget(s, keep))
            outs.append(("ret", s, UNIT))
        else:
            outs.append((lab, s, x))
    return outs


@fn("Vec.dedup", "Vec.dedup_by", "Vec.dedup_by_key")
def f_dedup(c):
    eng, st = c.eng, c.st
    root, path, v = on_value(c)
    if c.name == "dedup":
        w = mk("dedup", v)
    else:
        def elem(s, b):
            r = ("H", eng.new())
            s.mem[r] = mk("el", b)
            return E.ref(r, (), True)
        if c.name == "dedup_by":
            f = comparator(eng, st, c.args[1], elem)
        else:
            b = fresh_bv()
            s = st.fork()
            k = peval(eng, s, c.args[1], [elem(s, b)])
            f = mk("bykey", close("lam", ZERO, b, k)) if k is not None else mk("unk", "key", eng.new(), st.ks)
        w = mk("dedupby", v, f)
        # |a, b| a == b is plain dedup
        if f.op == "lam":
            bb, (body,) = open_(f)
            if body is peq(mk("el", bb), mk("el", acc(bb))):
                w = mk("dedup", v)
    eng.write(st, root, path, w)
    return R(st, UNIT)


@fn("Vec.as_slice", "Vec.as_mut_slice", "slice.as_mut", "slice.as_ref", "Box.as_ref", "Box.as_mut")
def f_as_slice(c):
    return R(c.st, c.args[0])


# hash sets and maps
@fn("HashSet.new", "HashSet.with_capacity", "BTreeSet.new")
def f_set_new(c):
    return R(c.st, SEMPTY)


@fn("HashMap.new", "HashMap.with_capacity")
def f_map_new(c):
    return R(c.st, mk("mempty"))


@fn("HashSet.insert", "BTreeSet.insert")
def f_set_insert(c):
    eng = c.eng
    root, path, v = on_value(c)
    x = c.args[1]
    was = isin(x, v)
    eng.write(c.st, root, path, sins(v, x))
    return R(c.st, bnot(was))


@fn("HashSet.remove", "BTreeSet.remove")
def f_set_remove(c):
    root, path, v = on_value(c)
    x = c.eng.load(c.st, c.args[1])
    was = isin(x, v)
    c.eng.write(c.st, root, path, mk("srem", v, x))
    return R(c.st, was)


@fn("HashSet.contains", "BTreeSet.contains")
def f_set_contains(c):
    _, _, v = on_value(c)
    x, _ = peel(c.eng, c.st, c.args[1], c.ty(1)) if tyk(c.ty(1)) == "ref" else (c.eng.load(c.st, c.args[1]), None)
    t = c.deref_ty()
    return R(c.st, isin(x, v))


@fn("HashSet.len", "HashMap.len", "HashSet.is_empty", "HashMap.is_empty")
def f_set_len(c):
    _, _, v = on_value(c)
    n = mk("card", v)
    return R(c.st, n if c.name == "len" else eq0(n))


@fn("HashSet.iter")
def f_set_iter(c):
    _, _, v = on_value(c)
    return R(c.st, it_seq(vals_as_refs(c.eng, c.st, mk("elems", v))))


@fn("HashMap.values_mut", "HashMap.values")
def f_values(c):
    root, path, v = on_value(c)
    keys = mk("mkeys", v)
    b = fresh_bv()
    return R(c.st, it_seq(norm_comp(mk("len", keys), b, E.ref(root, path + (("mapv", at(keys, b)),), c.name.endswith("mut")))))


@fn("HashMap.iter_mut", "HashMap.iter")
def f_map_entries(c):
    return R(c.st, map_entries(c.eng, c.st, c.args[0], c.name.endswith("mut")))


@fn("HashMap.keys")
def f_map_keys(c):
    _, _, v = on_value(c)
    return R(c.st, it_seq(vals_as_refs(c.eng, c.st, mk("mkeys", v))))


@fn("HashMap.get", "HashMap.get_mut")
def f_map_get(c):
    root, path, v = on_value(c)
    k = c.eng.load(c.st, c.args[1])
    has = mk("haskey", k, v)
    out = []
    for s, c1 in c.eng.branch(c.st, has):
        out.append(("ret", s, some(E.ref(root, path + (("mapv", k),), c.name.endswith("mut"))) if c1 else NONE))
    return out


@fn("HashMap.contains_key")
def f_map_has(c):
    _, _, v = on_value(c)
    return R(c.st, mk("haskey", c.eng.load(c.st, c.args[1]), v))


@fn("HashMap.insert")
def f_map_insert(c):
    root, path, v = on_value(c)
    c.eng.write(c.st, root, path, mk("mput", v, c.args[1], c.args[2]))
    return R(c.st, mk("unk", "map.insert", c.eng.new(), c.st.ks))


@fn("HashMap.entry")
def f_entry(c):
    root, path = c.eng.deref(c.st, c.args[0])
    return R(c.st, mk("agg", "Entry", 0, E.ref(root, path, True), c.args[1]))


@fn("Entry.or_insert_with", "Entry.or_default", "Entry.or_insert")
def f_or_insert(c):
    eng, st = c.eng, c.st
    e = c.args[0]
    r, k = e.a[2], e.a[3]
    root, path = r.a[0], r.a[1]
    m = eng.read(st, root, path)
    has = mk("haskey", k, m)
    if m.op == "mempty":
        has = FALSE
    out = []
    if c.name == "or_insert_with":
        ds = eng.call_value(st, c.args[1], [], c.site, c.depth)
    elif c.name == "or_insert":
        ds = R(st, c.args[1])
    else:
        t = c.dty["t"] if tyk(c.dty) == "ref" else {}
        ds = default_of(eng, st, t, c.site, c.depth)
    for lab, s, d in ds:
        if lab != "ret":
            out.append((lab, s, d))
            continue
        cur = map_get(s, eng.read(s, root, path), k)
        if cur.op == "mget" and cur.a[0].op == "mempty":
            cur = d
        v = ite(has, cur, d)
        eng.write(s, root, path, mk("mput", m, k, v))
        out.append(("ret", s, E.ref(root, path + (("mapv", k),), True)))
    return out


# Option / Result
def opt_map(c, adt, on_some, on_none):
    out = []
    for s, var, x in cases(c.eng, c.st, c.args[0], adt):
        out += on_some(s, x) if var else on_none(s, x)
    return out


@fn("Option.unwrap", "Option.expect", "Option.unwrap_unchecked")
def f_unwrap(c):
    return opt_map(c, OPT, lambda s, x: R(s, x), lambda s, x: [P(s, "unwrap on None", c.site)])


@fn("Result.unwrap", "Result.expect")
def f_runwrap(c):
    out = []
    for s, var, x in cases(c.eng, c.st, c.args[0], RES):
        out += R(s, x) if var == 0 else [P(s, "unwrap on Err", c.site)]
    return out


@fn("Option.map")
def f_omap(c):
    def g(s, x):
        return [("ret", s2, some(v)) if l == "ret" else (l, s2, v) for l, s2, v in c.call(c.args[1], [x], s)]
    return opt_map(c, OPT, g, lambda s, x: R(s, NONE))


@fn("Option.and_then")
def f_and_then(c):
    return opt_map(c, OPT, lambda s, x: c.call(c.args[1], [x], s), lambda s, x: R(s, NONE))


@fn("Option.filter")
def f_ofilter(c):
    def g(s, x):
        out = []
        for l, s2, v in c.call(c.args[1], [E.ref(c.eng.heap(s, x))], s):
            if l != "ret":
                out.append((l, s2, v))
                continue
            for s3, yes in c.eng.branch(s2, v):
                out.append(("ret", s3, some(x) if yes else NONE))
        return out
    return opt_map(c, OPT, g, lambda s, x: R(s, NONE))


@fn("Option.copied", "Option.cloned")
def f_copied(c):
    return opt_map(c, OPT, lambda s, x: R(s, some(c.eng.load(s, x))), lambda s, x: R(s, NONE))


@fn("Option.unwrap_or")
def f_unwrap_or(c):
    return opt_map(c, OPT, lambda s, x: R(s, x), lambda s, x: R(s, c.args[1]))


@fn("Option.unwrap_or_else")
def f_unwrap_or_else(c):
    return opt_map(c, OPT, lambda s, x: R(s, x), lambda s, x: c.call(c.args[1], [], s))


@fn("Option.unwrap_or_default")
def f_unwrap_or_default(c):
    return opt_map(c, OPT, lambda s, x: R(s, x), lambda s, x: default_of(c.eng, s, c.dty, c.site, c.depth))


@fn("Option.map_or")
def f_map_or(c):
    return opt_map(c, OPT, lambda s, x: c.call(c.args[2], [x], s), lambda s, x: R(s, c.args[1]))


@fn("Option.map_or_else")
def f_map_or_else(c):
    return opt_map(c, OPT, lambda s, x: c.call(c.args[2], [x], s), lambda s, x: c.call(c.args[1], [], s))


@fn("Option.is_some_and", "Option.is_none_or")
def f_is_some_and(c):
    d = c.name == "is_none_or"
    return opt_map(c, OPT, lambda s, x: c.call(c.args[1], [x], s), lambda s, x: R(s, B(d)))


@fn("Option.ok_or", "Option.ok_or_else")
def f_ok_or(c):
    def none(s, x):
        if c.name == "ok_or":
            return R(s, err(c.args[1]))
        return [("ret", s2, err(v)) if l == "ret" else (l, s2, v) for l, s2, v in c.call(c.args[1], [], s)]
    return opt_map(c, OPT, lambda s, x: R(s, ok(x)), none)


@fn("Option.or", "Option.or_else")
def f_or(c):
    return opt_map(c, OPT, lambda s, x: R(s, some(x)), lambda s, x: R(s, c.args[1]) if c.name == "or" else c.call(c.args[1], [], s))


@fn("Option.is_some", "Option.is_none")
def f_is_some(c):
    v = c.eng.load(c.st, c.args[0])
    out = []
    for s, var, x in cases(c.eng, c.st, v, OPT):
        out.append(("ret", s, B((var == 1) == (c.name == "is_some"))))
    return out


@fn("Result.is_ok", "Result.is_err")
def f_is_ok(c):
    v = c.eng.load(c.st, c.args[0])
    return [("ret", s, B((var == 0) == (c.name == "is_ok"))) for s, var, x in cases(c.eng, c.st, v, RES)]


@fn("Result.ok", "Result.err")
def f_rok(c):
    out = []
    for s, var, x in cases(c.eng, c.st, c.args[0], RES):
        want = 0 if c.name == "ok" else 1
        out.append(("ret", s, some(x) if var == want else NONE))
    return out


@fn("Option.as_ref", "Option.as_mut", "Option.as_deref")
def f_oas_ref(c):
    root, path, v = on_value(c)
    out = []
    for s, var, x in cases(c.eng, c.st, v, OPT):
        out.append(("ret", s, some(E.ref(root, path + (("f", 0, (OPT, 1, 1)),), c.name == "as_mut")) if var else NONE))
    return out


@fn("Option.take", "Option.replace", "Option.insert", "Option.get_or_insert")
def f_otake(c):
    root, path, v = on_value(c)
    if c.name == "take":
        c.eng.write(c.st, root, path, NONE)
        return R(c.st, v)
    if c.name == "replace":
        c.eng.write(c.st, root, path, some(c.args[1]))
        return R(c.st, v)
    if c.name == "insert":
        c.eng.write(c.st, root, path, some(c.args[1]))
        return R(c.st, E.ref(root, path + (("f", 0, (OPT, 1, 1)),), True))
    return None


@fn("bool.then", "bool.then_some")
def f_then(c):
    out = []
    for s, yes in c.eng.branch(c.st, c.args[0]):
        if not yes:
            out.append(("ret", s, NONE))
        elif c.name == "then_some":
            out.append(("ret", s, some(c.args[1])))
        else:
            out += [("ret", s2, some(v)) if l == "ret" else (l, s2, v) for l, s2, v in c.call(c.args[1], [], s)]
    return out


# numbers
@fn("num.saturating_sub")
def f_satsub(c):
    a, b = c.args
    out = []
    for s, c1 in c.eng.branch(c.st, le(a, b)):
        out.append(("ret", s, ZERO if c1 else sub(a, b)))
    return out


@fn("num.checked_sub")
def f_chksub(c):
    a, b = c.args
    out = []
    for s, c1 in c.eng.branch(c.st, le(b, a)):
        out.append(("ret", s, some(sub(a, b)) if c1 else NONE))
    return out


@fn("num.checked_add")
def f_chkadd(c):
    return R(c.st, some(add(*c.args)))


@fn("num.saturating_add", "num.wrapping_add")
def f_satadd(c):
    return R(c.st, add(*c.args))


@fn("num.wrapping_sub")
def f_wrapsub(c):
    a, b = c.args
    out = []
    for s, c1 in c.eng.branch(c.st, le(b, a)):
        out.append(("ret", s, sub(a, b) if c1 else mk("wrapped", a, b)))
    return out


@fn("num.abs_diff")
def f_absdiff(c):
    a, b = c.args
    out = []
    for s, c1 in c.eng.branch(c.st, le(a, b)):
        out.append(("ret", s, sub(b, a) if c1 else sub(a, b)))
    return out


@fn("num.rem_euclid", "num.div_euclid")
def f_rem(c):
    a, b = c.args
    if float_ty(c.dty):
        return None
    oks, pan = require(c.eng, c.st, bnot(eq0(b)), "division by zero", c.site)
    for s in oks:
        for s2, v in (c.eng.rem(s, a, b) if c.name == "rem_euclid" else [(s, c.eng.idiv(s, a, b))]):
            pan.append(("ret", s2, v))
    return pan


@fn("num.checked_rem", "num.checked_div", "num.is_multiple_of")
def f_chkrem(c):
    a, b = c.args
    if c.name != "is_multiple_of" and tyk(((c.dty or {}).get("a") or [None])[0]) != "uint":
        return None
    out = []
    for s, z in c.eng.branch(c.st, eq0(b)):
        if c.name == "is_multiple_of":
            for s2, v in ([(s, a)] if z else c.eng.rem(s, a, b)):
                out.append(("ret", s2, eqi(v, ZERO)))
        elif z:
            out.append(("ret", s, NONE))
        elif c.name == "checked_rem":
            out += [("ret", s2, some(v)) for s2, v in c.eng.rem(s, a, b)]
        else:
            out.append(("ret", s, some(c.eng.idiv(s, a, b))))
    return out


@fn("num.checked_mul")
def f_chkmul(c):
    return R(c.st, some(mul(*c.args)))


@fn("num.div_ceil")
def f_divceil(c):
    a, b = c.args
    if tyk(c.dty) != "uint":
        return None
    oks, pan = require(c.eng, c.st, bnot(eq0(b)), "division by zero", c.site)
    return pan + [("ret", s, c.eng.idiv(s, addc(add(a, b), -1), b)) for s in oks]


@fn("num.pow")
def f_pow(c):
    a, b = c.args
    if b.op == "int" and 0 <= b.a[0] <= 4:
        r = ONE
        for _ in range(b.a[0]):
            r = mul(r, a)
        return R(c.st, r)
    return None


@fn("f64.floor", "f64.ceil", "f64.round", "f64.trunc", "f64.sqrt", "f64.exp", "f64.ln", "f64.abs", "f64.powi", "f64.powf", "f64.exp2", "f64.log10", "f64.signum",
    "f64.fract", "f64.cbrt", "f64.tanh", "f64.exp_m1", "f64.ln_1p", "f64.log2", "f64.hypot", "f64.copysign", "f64.rem_euclid", "f64.div_euclid", "f64.atan2",
    "f64.round_ties_even", "f64.sinh", "f64.cosh", "f64.asin", "f64.acos", "f64.atan", "f64.next_up", "f64.next_down")
def f_fun(c):
    nm = c.name
    if nm == "powi" and c.args[1].op == "int" and c.args[1].a[0] == 2:
        return R(c.st, fbin("fmul", c.args[0], c.args[0]))
    return R(c.st, mk("f" + nm, *c.args))


@fn("f64.recip")
def f_recip(c):
    return R(c.st, fbin("fdiv", F(1.0), c.args[0]))


@fn("f64.mul_add")
def f_muladd(c):
    return R(c.st, mk("fma", *c.args))


@fn("f64.to_bits")
def f_bits(c):
    # equal bits: neither implies nor follows from equal numbers (zeros, NaN)
    return R(c.st, mk("fbits", c.args[0]))


@fn("f64.is_nan")
def f_isnan(c):
    x = c.args[0]
    return R(c.st, bnot(fcmp("feq", x, x)))


@fn("f64.is_sign_negative")
def f_issn(c):
    return R(c.st, mk("issignneg", c.args[0]))


@fn("f64.is_sign_positive")
def f_issp(c):
    return R(c.st, bnot(mk("issignneg", c.args[0])))


@fn("f64.is_finite")
def f_isfinite(c):
    return R(c.st, mk("isfinite", c.args[0]))


@fn("f64.is_infinite")
def f_isinf(c):
    return R(c.st, mk("isinf", c.args[0]))


@fn("f64.clamp")
def f_fclamp(c):
    x, lo, hi = c.args
    oks, pan = require(c.eng, c.st, fcmp("fle", lo, hi), "clamp: min > max or NaN", c.site)
    for s in oks:
        for s1, a in c.eng.branch(s, fcmp("flt", x, lo)):
            if a:
                pan.append(("ret", s1, lo))
                continue
            for s2, b in c.eng.branch(s1, fcmp("flt", hi, x)):
                pan.append(("ret", s2, hi if b else x))
    return pan


@fn("f64.min", "f64.max")
def f_fmin(c):
    a, b = c.args
    return R(c.st, mk("f" + c.name, *sorted((a, b), key=lambda t: t.id)))


@fn("f64.total_cmp", "f64.partial_cmp")
def f_total(c):
    a, b = c.eng.load(c.st, c.args[0]), c.eng.load(c.st, c.args[1])
    if c.name == "partial_cmp":
        return partial_cmp(c.eng, c.st, a, b, {"k": "float", "n": "f64"}, c.site, c.depth)
    return R(c.st, mk("totalcmp", a, b))


# ranges
@fn("RangeInclusive.new", "std::ops::RangeInclusive::new")
def f_ri_new(c):
    return R(c.st, mk("agg", RANGEI, 0, c.args[0], c.args[1]))


@fn("RangeInclusive.start", "RangeInclusive.end")
def f_ri_get(c):
    root, path, v = on_value(c)
    v = range_agg(v, c.deref_ty())
    i = 0 if c.name == "start" else 1
    return R(c.st, E.ref(c.eng.heap(c.st, v.a[2 + i]), (), False))


@fn("Range.contains", "RangeInclusive.contains", "RangeBounds.contains")
def f_r_contains(c):
    _, _, v = on_value(c)
    t = c.deref_ty()
    v = range_agg(v, t)
    x, xt = peel(c.eng, c.st, c.args[1], c.ty(1))
    et = (t["a"][0] if tyk(t) == "adt" and t.get("a") else None) or xt
    lo, hi = v.a[2], v.a[3]
    incl = v.a[0] == RANGEI
    if float_ty(et) or lo.op == "fl" or hi.op == "fl":
        return R(c.st, band(fcmp("fle", lo, x), fcmp("fle" if incl else "flt", x, hi)))
    return R(c.st, band(le(lo, x), le(x, hi) if incl else lt(x, hi)))


TRAITS[("RangeBounds", "contains")] = f_r_contains


@fn("Range.is_empty", "RangeInclusive.is_empty")
def f_r_empty(c):
    _, _, v = on_value(c)
    v = range_agg(v, c.deref_ty())
    return R(c.st, le(v.a[3], v.a[2]) if v.a[0] == RANGE else lt(v.a[3], v.a[2]))


TRAITS[("ExactSizeIterator", "len")] = lambda c: ex_len(c)


def ex_len(c):
    _, _, v = on_value(c)
    if is_seq(v):
        return R(c.st, sub(v.a[4], v.a[3]))
    v = range_agg(v, c.deref_ty())
    if v.op == "agg" and v.a[0] == RANGE:
        out = []
        for s, c1 in c.eng.branch(c.st, le(v.a[2], v.a[3])):
            out.append(("ret", s, sub(v.a[3], v.a[2]) if c1 else ZERO))
        return out
    return None


# iterator constructors
@fn("std::iter::once", "iter.once")
def f_once(c):
    return R(c.st, it_seq(lit(c.args[0])))


@fn("std::iter::empty", "iter.empty")
def f_empty(c):
    return R(c.st, it_seq(EMPTY))


@fn("std::iter::repeat_n", "rayon::iter::repeatn", "repeat.repeatn", "iter.repeatn", "iter.repeat_n", "rayon::iter::repeat_n")
def f_repeatn(c):
    return R(c.st, it_seq(rep(c.args[0], c.args[1])))


@fn("std::iter::repeat", "iter.repeat")
def f_repeat(c):
    return R(c.st, mk("agg", "it.repeat", 0, c.args[0]))


@fn("std::iter::repeat_with", "iter.repeat_with")
def f_repeat_with(c):
    # items are produced by calling the closure
    return R(c.st, mk("agg", "it.with", 0, c.args[0]))


@fn("std::iter::zip", "iter.zip")
def f_zip(c):
    out = []
    for s, it in to_iter(c.eng, c.st, c.args[0], c.ty(0), c.site):
        c2 = Ctx(c.eng, c.fr, s, c.ca, "Iterator", "zip", None, [it, c.args[1]], [None, c.ty(1)], c.site, c.dty, c.depth)
        out += iter_op(c2)
    return out


# memory
@fn("std::mem::swap", "mem.swap")
def f_mem_swap(c):
    eng = c.eng
    r1, p1, a = on_value(c, 0)
    r2, p2, b = on_value(c, 1)
    eng.write(c.st, r1, p1, b)
    eng.write(c.st, r2, p2, a)
    return R(c.st, UNIT)


@fn("std::mem::replace", "mem.replace")
def f_mem_replace(c):
    r, p, v = on_value(c)
    c.eng.write(c.st, r, p, c.args[1])
    return R(c.st, v)


@fn("std::mem::take", "mem.take")
def f_mem_take(c):
    r, p, v = on_value(c)
    t = c.deref_ty()
    out = []
    for lab, s, d in default_of(c.eng, c.st, t, c.site, c.depth):
        c.eng.write(s, r, p, d)
        out.append((lab, s, v))
    return out


@fn("std::mem::drop", "mem.drop")
def f_mem_drop(c):
    drop(c.eng, c.st, c.args[0], c.site[0])
    return R(c.st, UNIT)


@fn("Box.new", "std::boxed::Box::new", "boxed.box_new")
def f_box_new(c):
    return R(c.st, mk("agg", "Box", 0, c.args[0]))


@fn("RefCell.new", "Mutex.new", "RwLock.new")
def f_refcell_new(c):
    return R(c.st, mk("agg", "RefCell", 0, c.args[0]))


@fn("RefCell.borrow", "RefCell.borrow_mut", "RefCell.try_borrow", "RefCell.try_borrow_mut", "Mutex.lock", "Mutex.try_lock", "RwLock.read", "RwLock.write", "RwLock.try_read", "RwLock.try_write")
def f_refcell_borrow(c):
    root, path = c.eng.deref(c.st, c.args[0])
    lock = "borrow" not in c.name
    excl = "mut" in c.name or "lock" in c.name or "write" in c.name
    inner = E.ref(root, path + (("f", 0, ("RefCell", 0, 1)),), excl)
    gid = I(c.eng.new())
    place = E.ref(root, path, False)
    kind = "mut" if excl else "shared"
    c.st.emit("borrow", c.site, kind, place, gid)
    g = mk("agg", "guard", 0, mk("const", "kind", kind), inner, gid)
    return R(c.st, ok(g) if lock or "try" in c.name else g)


@fn("RefCell.get_mut")
def f_refcell_get_mut(c):
    root, path = c.eng.deref(c.st, c.args[0])
    return R(c.st, E.ref(root, path + (("f", 0, ("RefCell", 0, 1)),), True))


@fn("RefCell.into_inner")
def f_refcell_into(c):
    v = c.args[0]
    return R(c.st, fld(v, 0, "RefCell", 0, 1))


@fn("RefCell.replace")
def f_refcell_replace(c):
    root, path = c.eng.deref(c.st, c.args[0])
    p = path + (("f", 0, ("RefCell", 0, 1)),)
    v = c.eng.read(c.st, root, p)
    c.eng.write(c.st, root, p, c.args[1])
    gid = I(c.eng.new())
    place = E.ref(root, path, False)
    c.st.emit("borrow", c.site, "mut", place, gid)
    c.st.emit("release", c.site[0], None, gid)
    return R(c.st, v)


@fn("Pool.new")
def f_pool_new(c):
    c.st.emit("pool", c.site, c.args[1])
    return R(c.st, mk("agg", "Pool", 0, c.args[1]))


@fn("Pool.pull")
def f_pool_pull(c):
    eng = c.eng
    pool = eng.load(c.st, c.args[0])
    r = ("H", eng.new())
    rng = mk("res", "pool.rng", eng.new(), c.st.ks, pool)
    c.st.mem[r] = rng
    c.st.emit("pull", c.site, pool, c.args[1], rng)
    return R(c.st, mk("agg", "poolguard", 0, E.ref(r, (), True)))


@fn("rayon::current_num_threads", "rayon_core.current_num_threads", "rayon_core::current_num_threads", "rayon.current_num_threads")
def f_threads(c):
    return R(c.st, mk("const", "usize", "threads"))


@fn("Uniform.new", "Uniform.new_inclusive")
def f_uniform(c):
    lo, hi = c.args
    if c.name == "new_inclusive":
        oks, pan = require(c.eng, c.st, le(lo, hi), "Uniform: empty range", c.site)
        return pan + [("ret", s, mk("agg", "UniformI", 0, lo, hi)) for s in oks]
    oks, pan = require(c.eng, c.st, lt(lo, hi), "Uniform: empty range", c.site)
    return pan + [("ret", s, mk("agg", "Uniform", 0, lo, hi)) for s in oks]


@fn("std::rt::begin_panic", "panicking.panic", "panicking.panic_fmt", "panicking.assert_failed", "panicking.panic_display",
    "core::panicking::panic", "std::rt::panic_fmt", "core::panicking::panic_fmt", "panicking.panic_explicit", "panicking.unreachable_display", "panicking.panic_bounds_check", "rt.panic_fmt", "rt.begin_panic", "option.expect_failed", "panicking.panic_const")
def f_panic(c):
    return [P(c.st, "explicit panic", c.site)]


@fn("Ordering.is_lt", "Ordering.is_le", "Ordering.is_gt", "Ordering.is_ge", "Ordering.is_eq", "Ordering.is_ne")
def f_ord_is(c):
    d = c.eng.discr(c.st, c.args[0], {"k": "adt", "p": ORD})
    n = c.name
    v = {"is_lt": le(d, I(-1)), "is_le": le(d, ZERO), "is_gt": le(ONE, d), "is_ge": le(ZERO, d), "is_eq": eq0(d), "is_ne": bnot(eq0(d))}[n]
    return R(c.st, v)


@fn("Ordering.reverse")
def f_ord_rev(c):
    v = c.args[0]
    d = c.eng.discr(c.st, v, {"k": "adt", "p": ORD})
    out = []
    for s, a in c.eng.branch(c.st, eqi(d, I(-1))):
        if a:
            out.append(("ret", s, GREATER))
            continue
        for s2, b in c.eng.branch(s, eq0(d)):
            out.append(("ret", s2, EQUAL if b else LESS))
    return out


@fn("Ordering.then", "Ordering.then_with")
def f_ord_then(c):
    d = c.eng.discr(c.st, c.args[0], {"k": "adt", "p": ORD})
    out = []
    for s, a in c.eng.branch(c.st, eq0(d)):
        if not a:
            out.append(("ret", s, c.args[0]))
        elif c.name == "then":
            out.append(("ret", s, c.args[1]))
        else:
            out += c.call(c.args[1], [], s)
    return out


# ------------------------------------------------------------------ hooks
def hook_result(eng, st, short, args, vals, res):
    return R(st, res)


@fn("std::ptr::eq", "std::ptr::addr_eq", "ptr.eq")
def f_ptr_eq(c):
    """identity of references: says nothing about values that are merely equal"""
    a, b = c.args[:2]
    if a is b:
        return R(c.st, TRUE)
    x, y = sorted((a, b), key=lambda t: t.id)
    return R(c.st, mk("ptreq", x, y))
