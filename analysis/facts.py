"""Path facts: a conjunction of literals with a small entailment procedure (membership, linear
integer arithmetic by Fourier-Motzkin elimination, unit resolution, instantiation of bounded
universal facts).  Incomplete, never unsound: `entails` answers True only when it follows."""
from math import gcd
from terms import *

SIGNED = ("sint",)  # atom operators that may be negative


def _norm(c, d):
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        c = -((-c) // g)
        d = {x: k // g for x, k in d.items()}
    return c, d


def infeasible(cons, limit=600):
    """cons: list of (c, {atom: coef}) meaning c + sum <= 0 over the integers (rational check with
    gcd tightening).  True if no solution."""
    seen = {}
    work = []
    for c, d in cons:
        if not d:
            if c > 0:
                return True
            continue
        c, d = _norm(c, d)
        key = tuple(sorted((x.id, k) for x, k in d.items()))
        if key in seen and seen[key] >= c:
            continue
        seen[key] = c
        work.append((c, d))
    while True:
        atoms = {}
        for c, d in work:
            for x, k in d.items():
                p = atoms.setdefault(x, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not atoms:
            return False
        # pick atom with the least product
        x = min(atoms, key=lambda a: (atoms[a][0] * atoms[a][1] - atoms[a][0] - atoms[a][1], a.id))
        pos = [w for w in work if w[1].get(x, 0) > 0]
        neg = [w for w in work if w[1].get(x, 0) < 0]
        rest = [w for w in work if x not in w[1]]
        seen = {}
        for c, d in rest:
            seen[tuple(sorted((y.id, k) for y, k in d.items()))] = c
        new = []
        for cp, dp in pos:
            for cn, dn in neg:
                a, b = dp[x], -dn[x]
                d = {}
                for y, k in dp.items():
                    d[y] = d.get(y, 0) + k * b
                for y, k in dn.items():
                    d[y] = d.get(y, 0) + k * a
                d = {y: k for y, k in d.items() if k}
                c = cp * b + cn * a
                if not d:
                    if c > 0:
                        return True
                    continue
                c, d = _norm(c, d)
                key = tuple(sorted((y.id, k) for y, k in d.items()))
                if key in seen and seen[key] >= c:
                    continue
                seen[key] = c
                new.append((c, d))
        # drop dominated duplicates
        best = {}
        for c, d in rest + new:
            key = tuple(sorted((y.id, k) for y, k in d.items()))
            if key not in best or best[key][0] < c:
                best[key] = (c, d)
        work = list(best.values())
        if len(work) > limit:
            return False


def split_infeasible(cons, depth=0):
    """infeasible, with case distinction on min/max atoms"""
    if infeasible(cons):
        return True
    if depth >= 3:
        return False
    for c, d in cons:
        for x in d:
            if x.op == "ite":
                key = (x.id,)
                if key in _split_done:
                    continue
                _split_done.add(key)
                try:
                    ok = True
                    for y, c0 in ((x.a[1], x.a[0]), (x.a[2], bnot(x.a[0]))):
                        ex = []
                        for t in (sub(x, y), sub(y, x)) + cond_lin(c0):
                            c1, i1 = lin_parts(t)
                            ex.append((c1, dict(i1)))
                            ex += [(0, {z: -1}) for z, _ in i1 if not is_signed(z)]
                        if not split_infeasible(cons + ex, depth + 1):
                            ok = False
                            break
                    if ok:
                        return True
                finally:
                    _split_done.discard(key)
            if x.op in ("min", "max"):
                a, b = x.a
                key = (x.id,)
                if key in _split_done:
                    continue
                _split_done.add(key)
                try:
                    ok = True
                    for y, z in ((a, b), (b, a)):
                        t = sub(x, y)
                        c1, i1 = lin_parts(t)
                        o = sub(z, y) if x.op == "max" else sub(y, z)
                        c2, i2 = lin_parts(o)
                        ex = [(c1, dict(i1)), (-c1, {q: -k for q, k in i1}), (c2, dict(i2))]
                        if not split_infeasible(cons + ex, depth + 1):
                            ok = False
                            break
                    if ok:
                        return True
                finally:
                    _split_done.discard(key)
    return False


def cond_lin(c):
    """linear terms t (t <= 0) implied by the condition"""
    if c.op == "le0":
        return (c.a[0],)
    if c.op == "eq0":
        return (c.a[0], scale(c.a[0], -1))
    if c.op == "and":
        return tuple(t for x in c.a for t in cond_lin(x))
    return ()


_split_done = set()


class Facts:
    __slots__ = ("lits", "order", "bad", "_c", "_inst")

    def __init__(self, lits=(), order=()):
        self.lits = set(lits)
        self.order = list(order)
        self.bad = False
        self._c = {}
        self._inst = set()

    def copy(self):
        f = Facts(self.lits, self.order)
        f.bad = self.bad
        f._inst = set(self._inst)
        return f

    def __iter__(self):
        return iter(self.order)

    # ---- adding
    def add(self, l):
        """assume l; sets bad when it is contradictory (syntactically or arithmetically)"""
        if self.bad or l is TRUE:
            return self
        if l is FALSE:
            self.bad = True
            return self
        if l.op == "and":
            for x in l.a:
                self.add(x)
            return self
        if l.op == "ite" and l.a[0].op != "bool":
            # c ? a : b  as boolean
            self.add(band(bor(bnot(l.a[0]), l.a[1]), bor(l.a[0], l.a[2])))
            return self
        if l in self.lits:
            return self
        n = bnot(l)
        if n in self.lits:
            self.bad = True
            return self
        self._c = {}
        if l.op == "or":
            xs = [x for x in l.a if not self.entails(bnot(x))]
            if len(xs) != len(l.a):
                return self.add(bor(*xs))
            if any(x in self.lits for x in l.a):
                return self
        self.lits.add(l)
        self.order.append(l)
        for x in implied(l):
            self.add(x)
        if l.op in ("le0", "eq0") and self._lin_bad():
            self.bad = True
            return self
        if l.op == "not" and l.a[0].op == "eq0" and self.entails(l.a[0]):
            self.bad = True
            return self
        # unit resolution
        for o in list(self.order):
            if o.op == "or" and o in self.lits:
                xs = [x for x in o.a if bnot(x) not in self.lits]
                if len(xs) < len(o.a):
                    self.lits.discard(o)
                    self.order.remove(o)
                    self.add(bor(*xs))
        # disequality sharpening: a<=b and a!=b gives a<b
        if l.op == "not" and l.a[0].op == "eq0":
            t = l.a[0].a[0]
            if self.entails(le0(t)):
                self.add(le0(addc(t, 1)))
            elif self.entails(le0(scale(t, -1))):
                self.add(le0(addc(scale(t, -1), 1)))
        elif l.op == "le0":
            for o in list(self.order):
                if o.op == "not" and o.a[0].op == "eq0":
                    t = o.a[0].a[0]
                    if t is l.a[0]:
                        self.add(le0(addc(t, 1)))
                    elif scale(t, -1) is l.a[0]:
                        self.add(le0(addc(l.a[0], 1)))
        return self

    # ---- arithmetic
    def _cons(self, extra):
        cons = []
        for t in self.order:
            if t.op == "le0":
                c, it = lin_parts(t.a[0])
                cons.append((c, dict(it)))
            elif t.op == "eq0":
                c, it = lin_parts(t.a[0])
                cons.append((c, dict(it)))
                cons.append((-c, {x: -k for x, k in it}))
        for t in extra:
            c, it = lin_parts(t)
            cons.append((c, dict(it)))
        # relevance from the extra constraints
        rel = set()
        for t in extra:
            rel |= {x for x, _ in lin_parts(t)[1]}
        if extra:
            chg = True
            used = [False] * len(cons)
            while chg:
                chg = False
                for i, (c, d) in enumerate(cons):
                    if not used[i] and (not d or any(x in rel for x in d)):
                        used[i] = True
                        chg = True
                        rel |= set(d)
            cons = [k for k, u in zip(cons, used) if u]
        atoms = set()
        for c, d in cons:
            atoms |= set(d)
        done = set()
        todo = list(atoms)
        while todo:
            x = todo.pop()
            if x in done:
                continue
            done.add(x)
            if not is_signed(x):
                cons.append((0, {x: -1}))
            for y in atom_axioms(x, self):
                c, it = lin_parts(y)
                cons.append((c, dict(it)))
                todo += [z for z, _ in it]
        return cons

    def _lin_bad(self):
        return infeasible(self._cons([]))

    def le(self, t):
        """t <= 0 ?"""
        r = self._c.get(t)
        if r is None:
            r = split_infeasible(self._cons([sub(ONE, t)]))
            self._c[t] = r
        return r

    # ---- entailment
    def entails(self, l, fa=True):
        if self._entails(l, fa):
            return True
        if l.op in ("le0", "eq0", "not", "peq", "in", "inseq") and len(ALTS) < 3:
            # both ways of an alternative inside the goal
            t = alternative(l)
            if t is not None:
                c = t.a[0]
                ALTS.append(c)
                try:
                    for k, x in ((c, t.a[1]), (bnot(c), t.a[2])):
                        f = self.copy()
                        f.add(k)
                        if not f.bad and not f.entails(subst(l, {t: x}), fa):
                            return False
                    return True
                finally:
                    ALTS.pop()
        return False

    def _entails(self, l, fa=True):
        if self.bad or l is TRUE or l in self.lits:
            return True
        if l is FALSE:
            return False
        o = l.op
        if o == "and":
            return all(self.entails(x, fa) for x in l.a)
        if o == "or":
            if any(self.entails(x, fa) for x in l.a):
                return True
            # resolve: assume the negations of all but one
            for i, x in enumerate(l.a):
                if x.op in ("le0", "eq0") or (x.op == "not" and x.a[0].op == "eq0"):
                    f = self.copy()
                    for j, y in enumerate(l.a):
                        if j != i:
                            f.add(bnot(y))
                    if f.bad or f.entails(x):
                        return True
            return False
        if o == "le0":
            return self.le(l.a[0])
        if o == "eq0":
            t = l.a[0]
            return self.le(t) and self.le(scale(t, -1))
        if o == "not":
            x = l.a[0]
            if x.op == "eq0":
                t = x.a[0]
                return self.le(addc(t, 1)) or self.le(addc(scale(t, -1), 1))
            if x.op == "peq":
                # a != b because they differ in some known literal
                a, b = x.a
                for p in self.order:
                    neg = p.op == "not"
                    c = p.a[0] if neg else p
                    if c.op in ("in", "inseq"):
                        y = c.a[0]
                        z = b if y is a else a if y is b else None
                        if z is not None:
                            q = mk(c.op, z, c.a[1])
                            if (q if neg else bnot(q)) in self.lits:
                                return True
        return fa and self._forall(l)

    def _forall(self, l):
        # a goal that needs itself is not proved
        if l in GOALS or len(GOALS) > 6:
            return False
        GOALS.append(l)
        try:
            return self._forall1(l)
        finally:
            GOALS.pop()

    def _forall1(self, l):
        hd = head(l)
        cands = None
        for f in self.order:
            if f.op != "forall" or hd not in heads(f.a[2]):
                continue
            n = f.a[0]
            if cands is None:
                cands = candidates_for(f, l)
            for j in cands:
                if self.entails(lt(j, n)):
                    (b,) = inst(f, j)
                    if b is l or (b.op == "and" and l in b.a):
                        return True
                    if b.op == "or":
                        xs = [x for x in b.a if x is not l]
                        if len(xs) < len(b.a) and all(self.entails(bnot(x)) for x in xs):
                            return True
        return False


GOALS = []
ALTS = []
_alts = {}


def alternative(t):
    """an if-then-else inside t, outside symbols and binders, whose condition holds none itself"""
    if t in _alts:
        return _alts[t]
    r = None
    if t.op in ("res", "post", "draw", "phi", "call") or t.op in BINDERS:
        r = None
    else:
        todo = list(t.a)
        while todo and r is None:
            x = todo.pop()
            if isinstance(x, tuple):
                todo += list(x)
            elif is_t(x):
                r = alternative(x)
        if r is None and t.op == "ite":
            r = t
    _alts[t] = r
    return r


def head(l):
    return "!" + l.a[0].op if l.op == "not" else l.op


_heads = {}


def heads(b):
    r = _heads.get(b)
    if r is None:
        r = {head(b)}
        if b.op in ("or", "and"):
            r |= {head(x) for x in b.a}
        _heads[b] = r
    return r


def candidates_for(f, l):
    """index terms at which the universal fact might match l"""
    out = []
    for x in subterms(l):
        if x.op == "at":
            out.append(x.a[1])
        elif x.op in ("draw", "res", "post", "unk", "phi", "fidx"):
            for y in x.a:
                if is_t(y):
                    out.append(y)
                elif isinstance(y, tuple):
                    out += [z for z in y if is_t(z)]
        elif x.op in ("fidx", "first", "kappa", "argmin", "argmax"):
            out.append(x)
    r = []
    for x in out:
        if x not in r:
            r.append(x)
    return r


def is_signed(x):
    return x.op in SIGNED


def atom_axioms(x, facts):
    """linear terms t with t <= 0 that hold for the atom"""
    o = x.op
    if o == "len":
        s = x.a[0]
        if s.op in ("dedup", "dedupby"):
            base = slen(s.a[0])
            yield sub(x, base)
            if s.op in ("dedup", "dedupby"):
                # non-empty stays non-empty
                if base.op == "int" and base.a[0] > 0:
                    yield sub(ONE, x)
                elif le0(sub(ONE, base)) in facts.lits or bnot(eq0(base)) in facts.lits:
                    yield sub(ONE, x)
    elif o == "mod":
        a, n = x.a
        yield sub(x, a)
        if n.op == "int" and n.a[0] > 0 or le0(sub(ONE, n)) in facts.lits or bnot(eq0(n)) in facts.lits:
            yield addc(sub(x, n), 1)
    elif o == "idiv":
        a, n = x.a
        yield sub(x, a)
        if n.op == "int" and n.a[0] > 0:
            yield sub(scale(x, n.a[0]), a)
            yield addc(sub(a, scale(x, n.a[0])), 1 - n.a[0])
    elif o == "tri":
        # tri(k) = k*(k-1)/2
        t = add(sub(scale(x, 2), mul(x.a[0], x.a[0])), x.a[0])
        yield t
        yield scale(t, -1)
    elif o == "cnt":
        yield sub(x, x.a[0])
    elif o == "fidx":
        # only an element that exists has a position
        if lt(x.a[1], slen(x.a[0])) in facts.lits:
            yield addc(sub(x, x.a[0].a[0]), 1)
            yield sub(x.a[1], x)
    elif o == "min":
        yield sub(x, x.a[0])
        yield sub(x, x.a[1])
    elif o == "max":
        yield sub(x.a[0], x)
        yield sub(x.a[1], x)
    elif o == "mul" and len(x.a) == 2:
        # n*n >= n for unsigned n ; a*b >= a if b >= 1
        a, b = x.a
        if a is b:
            yield sub(a, x)
        else:
            if le0(sub(ONE, b)) in facts.lits:
                yield sub(a, x)
            if le0(sub(ONE, a)) in facts.lits:
                yield sub(b, x)


def numbers(*ts):
    """what takes part in a comparison that holds is not NaN"""
    return [fcmp("feq", t, t) for t in ts if t.op != "fl"]


def signs(a, b):
    """x < x - y only if y < 0, x - y < x only if y > 0 (rounding is monotonic)"""
    zero, r = F(0.0), []
    if b.op == "fsub" and b.a[0] is a:
        r.append(fcmp("flt", b.a[1], zero))
    if a.op == "fsub" and a.a[0] is b:
        r.append(fcmp("flt", zero, a.a[1]))
    for x, y, up in ((a, b, True), (b, a, False)):
        if y.op == "fadd":
            for i in (0, 1):
                if y.a[i] is x:
                    r.append(fcmp("flt", zero, y.a[1 - i]) if up else fcmp("flt", y.a[1 - i], zero))
    return r


def implied(l):
    o = l.op
    if o == "flt":
        a, b = l.a
        return [fcmp("fle", a, b), bnot(fcmp("flt", b, a)), bnot(fcmp("fle", b, a)), bnot(fcmp("feq", a, b))] + numbers(a, b) + signs(a, b)
    if o == "fle":
        return [bnot(fcmp("flt", l.a[1], l.a[0]))] + numbers(*l.a)
    if o == "feq":
        a, b = l.a
        if a is b:
            return []
        return numbers(a, b) + [fcmp("fle", a, b), fcmp("fle", b, a), bnot(fcmp("flt", a, b)), bnot(fcmp("flt", b, a))]
    if o == "not" and l.a[0].op == "fle":
        return [bnot(fcmp("flt", *l.a[0].a)), bnot(fcmp("feq", *l.a[0].a))]
    if o == "isvar":
        return []
    return []
