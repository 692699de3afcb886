"""Loop summaries: loop-carried locations, closed forms of their recurrences, inductive bounds.

A loop is summarised at a symbolic iteration number kappa.  Loop-carried leaves start as symbols
phi(..., kappa); their values at the back edge give recurrences.  Where a recurrence has a closed
form the symbol is replaced by it; bounds are found by testing candidate inequalities for
inductiveness (start with all candidates, drop those that fail, repeat).  What cannot be solved stays
a symbol standing for any value, so a summary never claims more than the loop guarantees."""
from terms import *
from facts import Facts, implied
import engine as E


def root_id(root):
    return root[1] if root[0] in ("L", "H") else None


def diff(v0, v1, path, out, depth=0):
    """paths of leaves at which v1 differs from v0"""
    if v0 is v1:
        return
    if v1.op == "ite" and depth < 8 and (v0.op == "agg" or v0.op != "ite"):
        # alternatives of the same record: field by field
        sh = shape(v1)
        if sh is not None and sh[1] == 0 and sh[2] and sh[0] not in (OPT, RES, ORD, "Box") and (v0.op != "agg" or (v0.a[0], v0.a[1], len(v0.a) - 2) == sh):
            name, var, n = sh
            for i in range(n):
                diff(fld(v0, i, name, var, n), fld(v1, i, name, var, n), path + (("f", i, (name, var, n)),), out, depth + 1)
            return
    if v1.op == "agg" and depth < 8:
        name, var = v1.a[0], v1.a[1]
        n = len(v1.a) - 2
        if v0.op == "agg" and v0.a[0] == name and v0.a[1] == var and len(v0.a) == len(v1.a) and n:
            for i in range(n):
                e = ("box",) if name == "Box" else ("f", i, (name, var, n))
                diff(v0.a[2 + i], v1.a[2 + i], path + (e,), out, depth + 1)
            return
        if v0.op != "agg" and var == 0 and n and name not in (OPT, RES, ORD, "Box") and v0.op not in ("ite",):
            for i in range(n):
                diff(fld(v0, i, name, var, n), v1.a[2 + i], path + (("f", i, (name, var, n)),), out, depth + 1)
            return
    out.add(path)


def shape(t):
    """(name, variant, fields) shared by all alternatives of a conditional record"""
    if t.op == "ite":
        a, b = shape(t.a[1]), shape(t.a[2])
        return a if a == b else None
    if t.op == "agg" and isinstance(t.a[0], str):
        return (t.a[0], t.a[1], len(t.a) - 2)
    return None


def decided(F, x):
    if x in F.lits:
        return True
    if bnot(x) in F.lits:
        return False
    return F.entails(x, False)


def merge(cases, conds=None):
    """cases: [(Facts, new literals, value)] -> one value (decision tree) or None"""
    v0 = cases[0][2]
    if all(c[2] is v0 for c in cases):
        return v0
    tried = set()
    for _, lits, _ in cases:
        for l in lits:
            for x in (l,) + (tuple(l.a) if l.op in ("or", "and") else ()):
                if x in tried or bnot(x) in tried or x.op == "forall":
                    continue
                tried.add(x)
                yes = [c for c in cases if decided(c[0], x)]
                nx = bnot(x)
                no = [c for c in cases if c not in yes and decided(c[0], nx)]
                if yes and no and len(yes) + len(no) == len(cases):
                    a = merge(yes, conds)
                    b = merge(no, conds) if a is not None else None
                    if a is None or b is None:
                        continue
                    if conds is not None:
                        conds.add(x)
                    return ite(x, a, b)
    return None


def new_lits(F, base):
    return [l for l in F.order if l not in base.lits]


def back_cond(cases):
    pass


class Summary:
    pass


def kap_of(uid, ks):
    return mk("kappa", uid, *ks)


SHORT = 4


def short_seq(t, depth=0):
    """does an iterator value run over a sequence of a small constant number of items?"""
    if not is_t(t) or t.op != "agg" or depth > 4:
        return False
    if t.a[0] == "it.seq":
        n = sub(t.a[4], t.a[3])
        return n.op == "int" and 0 < n.a[0] <= SHORT
    if t.a[0] == "std::ops::Range" and len(t.a) == 4:
        n = sub(t.a[3], t.a[2])
        return n.op == "int" and 0 < n.a[0] <= SHORT
    return isinstance(t.a[0], str) and t.a[0].startswith("it.") and any(short_seq(x, depth + 1) for x in t.a[2:])


def unroll(eng, st0, body):
    """all outcomes of a loop that ends after a few turns, None when it may not"""
    todo, res = [st0.fork()], []
    uid = eng._uid
    for i in range(SHORT + 2):
        nxt = []
        for s in todo:
            for lab, x, p in body(s):
                if x.facts.bad:
                    continue
                if lab == "back":
                    nxt.append(x)
                else:
                    res.append((lab, x, p))
        if not nxt:
            return res
        if len(nxt) > 32:
            break
        todo = nxt
    eng._uid = uid
    return None


def summarise(eng, st0, body, site, frame=None, it=None):
    if frame is not None:
        short = any(r[0] == "L" and r[1] == frame and (short_seq(v) or eng.unroll_lits and v.op == "lit" and 0 < len(v.a) <= SHORT) for r, v in st0.mem.items())
    else:
        short = it is not None and short_seq(it)
    if short:
        r = unroll(eng, st0, body)
        if r is not None:
            return r
    eng.nloops += 1
    uid = eng.new()
    ks0 = st0.ks
    kap = kap_of(uid, ks0)
    ev0 = len(st0.ev)
    base_facts = st0.facts
    leaves = {}   # (root, path) -> (phi, init)
    closed = {}   # phi -> closed form in kap
    invs = []     # list of literals over phis
    order = []

    def begin(use_closed=True):
        s = st0.fork()
        s.ks = ks0 + (kap,)
        m = closed if use_closed else {}
        for key in order:
            phi, init = leaves[key]
            eng.write(s, key[0], key[1], m.get(phi, phi))
        for l in invs:
            s.assume(subst(l, closed) if use_closed else l)
        return s

    top = [uid]

    def run():
        # every pass names the symbols it draws alike
        eng._uid = uid
        s = begin()
        outs = [(lab, x, p) for lab, x, p in body(s) if not x.facts.bad]
        top[0] = max(top[0], eng._uid)
        eng._uid = top[0]
        return outs

    # ---- which locations change
    for rnd in range(14):
        eng.quick += 1
        try:
            outs = run()
        finally:
            eng.quick -= 1
        backs = [x for lab, x, p in outs if lab == "back"]
        if not backs and not order:
            if not eng.quick:
                outs = run()
            if any(lab == "back" for lab, _, _ in outs):
                continue
            # not a loop under these facts: straight-line
            res = []
            for lab, x, p in outs:
                m = {kap: ZERO}
                y = eng.subst_state(x, m, ev0)
                y.ks = ks0
                res.append((lab, y, subst(p, m) if lab == "ret" else p))
            return res
        found = set()
        for x in backs:
            for root, v1 in x.mem.items():
                rid = root_id(root)
                if root not in st0.mem:
                    if rid is not None:
                        continue
                    if root[0] == "D" and occurs(root[1], lambda t: t is kap or t.op == "phi"):
                        continue
                    if root[0] == "D" and contains_new(root[1], uid):
                        continue
                elif rid is not None and rid > uid:
                    continue
                s0 = begin(False)
                v0 = eng.mget(s0, root)
                if v0 is v1:
                    continue
                ps = set()
                diff(v0, v1, (), ps)
                for p in ps:
                    found.add((root, p))
        new = [k for k in found if k not in leaves]
        # a leaf below or above an existing one: keep the shorter
        add_ = []
        for k in new:
            if any(k[0] == o[0] and len(o[1]) <= len(k[1]) and k[1][:len(o[1])] == o[1] for o in leaves):
                continue
            for o in [o for o in leaves if o[0] == k[0] and len(o[1]) > len(k[1]) and o[1][:len(k[1])] == k[1]]:
                del leaves[o]
                order.remove(o)
            add_.append(k)
        add_ = [k for k in add_ if not any(o is not k and o[0] == k[0] and len(o[1]) < len(k[1]) and k[1][:len(o[1])] == o[1] for o in add_)]
        if not add_:
            break
        for k in sorted(add_, key=repr):
            init = eng.read(st0, k[0], k[1])
            if init.op == "uninit":
                continue
            leaves[k] = (mk("phi", uid, len(leaves) + 1000 * rnd, kap), init)
            order.append(k)
    else:
        raise E.Limit("loop-carried locations of " + site)

    phis = {leaves[k][0]: leaves[k][1] for k in order}
    init_sub = dict(phis)
    init_sub[kap] = ZERO

    def backs_of(outs):
        r = []
        for lab, x, p in outs:
            if lab == "back":
                r.append((x, {leaves[k][0]: eng.read(x, k[0], k[1]) for k in order}))
        return r

    # ---- candidate invariants and closed forms
    outs = run()
    bk = backs_of(outs)
    for rnd in range(0 if eng.quick else 3):
        prog = solve(eng, phis, closed, bk, kap, base_facts, st0)
        cand = candidates(eng, phis, closed, bk, outs, kap, base_facts)
        cand = [c for c in cand if c not in invs]
        cand = [c for c in cand if base_facts.entails(subst(c, init_sub))]
        if cand:
            keep = list(invs)
            invs.extend(cand)
            for hr in range(8):
                outs = run()
                bk = backs_of(outs)
                bad = []
                for c in invs:
                    if c in keep:
                        continue
                    for x, up in bk:
                        m = dict(up)
                        m[kap] = addc(kap, 1)
                        for f, t in closed.items():
                            m[f] = subst(t, {kap: addc(kap, 1)})
                        if not x.facts.entails(subst(c, m)):
                            bad.append(c)
                            break
                if not bad:
                    break
                invs = [c for c in invs if c not in bad]
            else:
                invs = keep
                outs = run()
                bk = backs_of(outs)
        elif prog:
            outs = run()
            bk = backs_of(outs)
        else:
            break
    if len(prune(invs)) < len(invs):
        invs = prune(invs)
    # invs was rebound inside: make the closure see the final list
    # ---- exits
    kvar = mk("kap", uid, ks0)
    ph = tuple(tup_phi(leaves[k][0], leaves[k][1], closed.get(leaves[k][0])) for k in order)
    mk_ = {kap: kvar}
    bs = []
    for x, up in bk:
        nl = tuple(new_lits(x.facts, base_facts))
        bs.append(subst((nl, x.ev[ev0:], tuple(up[leaves[k][0]] for k in order)), mk_))
    ph = subst(ph, mk_)
    allf = []
    if bk:
        ls = [new_lits(x.facts, base_facts) for x, _ in bk]
        common = [l for l in ls[0] if all(l in y for y in ls[1:])]
        allf = [l for l in prune(common) if not base_facts.entails(l)]
        rest = [[l for l in y if l not in common] for y in ls]
        rest = merged(rest)
        if len(rest) > 1 and all(len(r) <= 3 for r in rest) and len(rest) <= 4:
            allf.append(bor(*[band(*r) for r in rest]))
    b = fresh_bv()
    total_facts = []
    for l in allf:
        if occurs(l, lambda t: t is kap):
            total_facts.append(forall(kap, b, subst(l, {kap: b})))
        else:
            total_facts.append(bor(eq0(kap), l))
    res = []
    looked = searching(outs, bk, kap, base_facts, phis, closed, ev0)
    for lab, x, p in outs:
        if lab == "back":
            continue
        if looked:
            r = looked_for(eng, x, lab, p, kap, ks0, *looked)
            if r is not None:
                res.append(r)
            continue
        for f in total_facts:
            x.assume(f)
        for l in allf:
            # what held in the last round, if there was one
            if l.op == "le0" and (dict(lin_parts(l.a[0])[1]).get(kap) or 0) > 0:
                if x.facts.entails(subst(l, {kap: mk("int", -1)})):
                    x.assume(subst(l, {kap: addc(kap, -1)}))
        if x.facts.bad:
            continue
        ev = ("loop", site, uid, kvar, kap, ph, tuple(bs), ks0)
        x.ev = st0.ev + (ev,) + x.ev[ev0:]
        x.ks = ks0
        N = trip(x.facts, kap, base_facts)
        if N is not None:
            m = {kap: N}
            p = subst(p, m) if lab == "ret" and is_t(p) else p
            x = eng.subst_state(x, m, 0)
            if N is ZERO:
                m = {subst(f, {kap: ZERO}): i for f, i in phis.items()}
                p = subst(p, m) if lab == "ret" and is_t(p) else p
                x = eng.subst_state(x, m, 0)
            x.ks = ks0
            if x.facts.bad:
                continue
        res.append((lab, x, p))
    if bk and not res and not eng.quick:
        eng.stuck.append(site)
    return res


def searching(outs, bk, kap, base, phis, closed, ev0):
    """(N, C) for a loop that does nothing but look for the first of N positions with the condition C"""
    if len(bk) != 1 or len(bk[0][0].ev) != ev0:
        return None
    lits = new_lits(bk[0][0].facts, base)
    bounds = []
    for l in lits:
        if l.op == "le0":
            c, it = lin_parts(l.a[0])
            if dict(it).get(kap) == 1:
                N = addc(sub(kap, l.a[0]), 1)
                if not contains(N, kap) and l is lt(kap, N):
                    bounds.append((l, N))
    for l, N in bounds:
        f = base.copy()
        f.add(l)
        if not all(f.entails(x) for x, _ in bounds):
            continue
        rest = [x for x in lits if not f.entails(x)]
        C = bnot(band(*[x for x in rest if not any(x in implied(y) for y in rest)]))
        if C.op == "bool" or not occurs(C, lambda t: t is kap) or volatile(C, kap, phis):
            continue
        if occurs((C, N), lambda t: t in phis or t.op in ("isum", "fold", "fcomp", "flatc")) or not occurs(C, lambda t: t.op in ("peq", "in", "inseq")):
            continue
        ok = True
        for lab, x, p in outs:
            if lab == "back":
                continue
            if len(x.ev) != ev0:
                ok = False
            elif not (x.facts.entails(eqi(kap, N)) or x.facts.entails(lt(kap, N)) and x.facts.entails(C)):
                ok = False
            if not ok:
                break
        if ok:
            return N, C
    return None


def looked_for(eng, x, lab, p, kap, ks0, N, C):
    b = fresh_bv()
    cond = subst(C, {kap: b})
    mem_ = None
    if cond.op == "peq":
        for a, v in (cond.a, cond.a[::-1]):
            if not contains(v, b) and contains(a, b):
                mem_ = inseq(v, norm_comp(N, b, a))
    found = x.facts.entails(lt(kap, N))
    i = close("first", N, b, cond) if found else N
    x = eng.subst_state(x, {kap: i}, 0)
    x.ks = ks0
    if found:
        x.assume(forall(i, b, bnot(cond)))
    else:
        x.assume(forall(N, b, bnot(cond)))
    if mem_ is not None:
        x.assume(mem_ if found else bnot(mem_))
    if x.facts.bad:
        return None
    return lab, x, subst(p, {kap: i}) if lab == "ret" and is_t(p) else p


def prune(lits):
    """drop inequalities that a stronger one of the same shape makes redundant"""
    best = {}
    for l in lits:
        if l.op == "le0":
            c, it = lin_parts(l.a[0])
            if it not in best or best[it] < c:
                best[it] = c
    return [l for l in lits if l.op != "le0" or best[lin_parts(l.a[0])[1]] == lin_parts(l.a[0])[0]]


def merged(rest):
    """alternatives (lists of literals) with those joined which differ in one literal's sign only,
    and without literals which the others of the alternative imply"""
    out = [frozenset(r) for r in rest]
    again = len(out) <= 16
    while again:
        again = False
        for i, p in enumerate(out):
            for q in out[i + 1:]:
                a, b = p - q, q - p
                if not a or not b:
                    new = p & q
                elif len(a) == 1 and len(b) == 1 and bnot(next(iter(a))) is next(iter(b)):
                    new = p & q
                else:
                    continue
                out = [x for x in out if x is not p and x is not q] + [new]
                again = True
                break
            if again:
                break
    res = []
    for p in out:
        ls = sorted(p, key=lambda t: t.id)
        for l in list(ls):
            if len(ls) > 1 and l.op == "le0":
                from facts import Facts
                f = Facts()
                for y in ls:
                    if y is not l:
                        f.add(y)
                if not f.bad and f.entails(l):
                    ls.remove(l)
        res.append(ls)
    return res


def contains_new(t, uid):
    return occurs(t, lambda x: x.op in E.FRESH and any(isinstance(y, int) and y > uid for y in x.a))


def tup_phi(phi, init, cl):
    return (phi, init, cl)


def trip(F, kap, base):
    for l in list(F.order):
        if l in base.lits:
            continue
        if l.op in ("le0", "eq0"):
            c, it = lin_parts(l.a[0])
            k = dict(it).get(kap)
            if k in (1, -1):
                # k*kap + rest (<=|=) 0
                rest = sub(l.a[0], scale(kap, k))
                N = rest if k == -1 else scale(rest, -1)
                if contains(N, kap):
                    continue
                if l.op == "eq0" or F.entails(eqi(kap, N)):
                    return N
    if F.entails(eq0(kap)):
        return ZERO
    return None


def match_store(u, phi):
    """u = phi with one position replaced: (index, value) or None"""
    if u.op == "store" and u.a[0] is phi:
        return u.a[1], u.a[2]
    if u.op == "ite":
        c, a, b = u.a
        ma = match_store(a, phi) if a is not phi else None
        mb = match_store(b, phi) if b is not phi else None
        if ma is None and mb is None:
            return None
        if ma is None and a is phi:
            return mb[0], ite(c, at(phi, mb[0]), mb[1])
        if mb is None and b is phi:
            return ma[0], ite(c, ma[1], at(phi, ma[0]))
        if ma is None or mb is None or ma[0] is not mb[0]:
            return None
        return ma[0], ite(c, ma[1], mb[1])
    return None


def match_append(u, phi):
    """u = phi ++ s with s free of phi: s or None"""
    if u is phi:
        return EMPTY
    if u.op == "cat" and u.a[0] is phi:
        s = cat(*u.a[1:])
        return None if contains(s, phi) else s
    if u.op == "ite":
        a, b = match_append(u.a[1], phi), match_append(u.a[2], phi)
        if a is None or b is None or contains(u.a[0], phi):
            return None
        return ite(u.a[0], a, b)
    return None


def match_insert(u, phi):
    if u is phi:
        return EMPTY
    if u.op == "sins" and u.a[0] is phi and not contains(u.a[1], phi):
        return lit(u.a[1])
    if u.op == "sext" and u.a[0] is phi and not contains(u.a[1], phi):
        return u.a[1]
    if u.op == "ite" and not contains(u.a[0], phi):
        a, b = match_insert(u.a[1], phi), match_insert(u.a[2], phi)
        if a is None or b is None:
            return None
        return ite(u.a[0], a, b)
    return None


def solve(eng, phis, closed, bk, kap, base, st0):
    """extend `closed`; True when something was solved"""
    prog = False
    if not bk:
        return False
    for _ in range(3):
        again = False
        for phi, init in phis.items():
            if phi in closed:
                continue
            cases = [(x.facts, new_lits(x.facts, base), up[phi]) for x, up in bk]
            r = solve1(phi, init, cases, kap, phis, closed, not eng.no_fold)
            if r is not None and eng.no_fold == 2 and r is not init:
                d = sub(r, init)
                if not (d.op != "int" and lin_parts(d)[0] == 0 and len(lin_parts(d)[1]) == 1 and lin_parts(d)[1][0][0] is kap):
                    r = None
            if r is not None:
                closed[phi] = r
                again = prog = True
        if not again:
            break
    return prog


def solve1(phi, init, cases, kap, phis, closed, folds=True):
    b = fresh_bv()
    K = {kap: b}
    if all(v is phi for _, _, v in cases):
        return init
    # additive
    ds = [sub(v, phi) for _, _, v in cases]
    if not any(contains(d, phi) for d in ds):
        d = ds[0] if all(x is ds[0] for x in ds) else merge([(c[0], c[1], x) for c, x in zip(cases, ds)])
        if d is not None:
            d = subst(d, closed)
        if d is not None and not contains(d, phi) and not unsolved(d, phis, phi):
            return add(init, isum(kap, b, subst(d, K)))
    u = merge(cases)
    if u is None:
        return None
    u = subst(u, closed)
    if unsolved(u, phis, phi):
        return None
    s = match_append(u, phi)
    if s is not None:
        return cat(init, norm_flatc(kap, b, subst(s, K)))
    s = match_insert(u, phi)
    if s is not None:
        return sext(init, norm_flatc(kap, b, subst(s, K)))
    ms = match_store(u, phi)
    if ms is not None:
        i, x = ms
        c = sub(i, kap)
        x2 = subst(x, {at(phi, i): at(init, i)})
        if not contains(x2, phi) and not contains(i, phi):
            n = slen(init)
            if not contains(c, kap):
                return cat(slice_(init, ZERO, c), norm_comp(kap, b, subst(x2, K)), slice_(init, i, n))
            c2 = add(i, kap)
            if not contains(c2, kap):
                return cat(slice_(init, ZERO, addc(i, 1)), rev(norm_comp(kap, b, subst(x2, K))), slice_(init, addc(c2, 1), n))
        if i.op == "fidx" and i.a[1] is kap and not contains(i.a[0], phi) and not contains(i.a[0], kap) and not contains(x2, phi) and slen(init) is i.a[0].a[0]:
            # the elements that meet the condition are changed one after the other
            j, v = fresh_bv(), mk("in0", "$each")
            q = i.a[0]
            rank = lambda k: mk("cnt", k, b, inst(q, b)[0])
            done = band(inst(q, v)[0], lt(rank(v), kap))
            now = subst(subst(x2, {i: v}), {kap: rank(v)})
            if not contains(now, kap):
                return norm_comp(slen(init), j, subst(ite(done, now, at(init, v)), {v: j}))
        return None
    if u.op == "swapd" and u.a[0] is phi:
        for i, k in (u.a[1:], u.a[:0:-1]):
            lo, hi = sub(i, kap), add(k, kap)
            if any(contains(t, phi) or contains(t, kap) for t in (lo, hi)) or not all(f.entails(lt(i, k)) for f, _, _ in cases):
                continue
            # positions exchanged from both ends
            e = addc(hi, 1)
            m1, m2 = add(lo, kap), sub(e, kap)
            return cat(slice_(init, ZERO, lo), rev(slice_(init, m2, e)), slice_(init, m1, m2), rev(slice_(init, lo, m1)), slice_(init, e, slen(init)))
        return None
    if not contains(u, phi):
        if not occurs(u, lambda t: t in phis and t not in closed or t.op == "phi" and t not in phis and contains(t, kap)):
            prev = subst(u, {kap: addc(kap, -1)})
            # a value that follows the same formula from the start
            return ite(eq0(kap), init, prev)
        return None
    if u.op in ("cat", "store", "sins", "srem", "mput", "slice", "comp", "fcomp", "swapd", "agg", "post", "ref"):
        return None
    if occurs(u, lambda t: t.op == "at" and t.a[0] is phi or t.op in ("len", "slice", "in") and contains(t, phi)):
        return None
    if occurs(u, lambda t: t is not phi and t in phis and t not in closed):
        return None
    if not folds or not pure_of(u):
        return None
    return norm_fold(kap, b, subst(u, {phi: acc(b), kap: b}), init)


def unsolved(t, phis, phi):
    return occurs(t, lambda x: x in phis and x is not phi)


def pure_of(u):
    return True


def sext(s, q):
    if q is EMPTY:
        return s
    if q.op == "lit":
        for x in q.a:
            s = sins(s, x)
        return s
    return mk("sext", s, q)


def candidates(eng, phis, closed, bk, outs, kap, base):
    lits = []
    inv = {}
    for f, t in closed.items():
        pass
    src = []
    for lab, x, p in outs:
        src.append(x)
    seen = set()
    out = []

    def put(l):
        if l.op == "bool" or l in seen or not relevant(l):
            return
        seen.add(l)
        out.append(l)

    def relevant(l):
        return occurs(l, lambda t: t is kap or t in phis)

    for x in src:
        for l in new_lits(x.facts, base):
            ys = [l] + (list(l.a) if l.op in ("or", "and") else [])
            for y in ys:
                y = y.a[0] if y.op == "not" else y
                if y.op not in ("le0", "eq0"):
                    continue
                t = y.a[0]
                if not relevant(t) or volatile(t, kap, phis):
                    continue
                if y.op == "le0":
                    put(le0(t))
                    put(le0(addc(t, -1)))
                    put(bnot(y))
                    put(le0(sub(ZERO, t)))
                else:
                    put(le0(t))
                    put(le0(scale(t, -1)))
                    put(le0(addc(t, 1)))
                    put(le0(addc(scale(t, -1), 1)))
    for phi, init in phis.items():
        if phi in closed:
            continue
        us = [up[phi] for _, up in bk]
        if any(u.op in ("store", "cat", "swapd", "slice", "comp", "lit", "remove", "swaprem", "fcomp", "perm") for u in us):
            put(eqi(slen(phi), slen(init)))
            put(le(slen(init), slen(phi)))
            put(le(slen(phi), slen(init)))
        elif init.op in ("rep", "cat", "lit", "slice", "comp", "store", "fcomp", "phi") and any(u.op == "phi" for u in us) and not isinstance(init, bool):
            put(eqi(slen(phi), slen(init)))
        elif init.op in ("int", "lin", "len", "min", "max", "first", "draw"):
            put(le(init, phi))
            put(le(phi, init))
        elif init.op == "bool":
            put(phi)
            put(bnot(phi))
        elif us and all(u is init for u in us):
            put(peq(phi, init))
    return out


def volatile(t, kap, phis):
    """mentions symbols drawn inside the iteration (their values mean nothing at the loop head)"""
    return occurs(t, lambda x: x.op in E.FRESH and x not in phis and any(isinstance(y, tuple) and kap in y for y in x.a))
