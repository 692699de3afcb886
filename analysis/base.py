"""Shared machinery of the property checks: running functions through the abstract interpreter,
comparing abstract values under facts, and collecting obligations."""
import os
import sys
import json
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump as _dump      # noqa: E402
import mir                # noqa: E402
import engine             # noqa: E402
from engine import at_f, slice_f  # noqa: E402
from facts import Facts   # noqa: E402
from terms import *       # noqa: E402,F401,F403

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EA = "algorithms::EvolutionAlgorithm"
EM = "model::EvolutionModel"
SM = "operators::selection::SelectionMechanism"
POP = "population::Population::<I>::"


class Missing(Exception):
    """an anchor the property names is not there any more"""


class Out:
    __slots__ = ("lab", "st", "val", "eng")

    def __init__(self, lab, st, val, eng):
        self.lab, self.st, self.val, self.eng = lab, st, val, eng

    @property
    def F(self):
        return self.st.facts

    def deref(self, name):
        """final value behind the reference parameter `name`"""
        return self.eng.read(self.st, ("D", mk("in0", name)))

    def evs(self, *kinds):
        return [e for e in self.st.ev if e[0] in kinds]


def contexts():
    """the crate as built with debug assertions, and also without them where that makes a difference"""
    yield Ctx()
    if _dump.debug_dependent():
        yield Ctx(release=True)


class Ctx:
    def __init__(self, release=False):
        self.dump = _dump.dump(release=release)
        self.p = mir.Program(self.dump)
        self.analysed = {}     # function -> times entered
        self.npaths = 0
        self.nloops = 0
        self.runs = 0
        self._cache = {}

    def fn(self, path):
        f = self.p.get(path)
        if f is None:
            raise Missing(path)
        return f

    def engine(self, **cfg):
        return engine.Engine(self.p, **cfg)

    def sym(self, path, sub=None, args=None, st=None, eng=None, assume=(), **cfg):
        f = self.fn(path)
        key = None
        if st is None and eng is None and not assume:
            key = (path, repr(sub), tuple(args) if args else None, repr(sorted((k, sorted(map(str, v)) if isinstance(v, (set, list, tuple)) else str(v)) for k, v in cfg.items())))
            if key in self._cache:
                return self._cache[key]
        e = eng or self.engine(**cfg)
        st = st or engine.new_state()
        for l in assume:
            st.assume(l)
        if args is None:
            args = [mk("in0", f.locals[i + 1].get("n") or "a%d" % i) for i in range(f.argc)]
        outs = [Out(lab, s, v, e) for lab, s, v in e.run(f.path, st, args, sub)]
        if not outs:
            raise engine.Limit("no outcome of " + path)
        self.runs += 1
        self.npaths += len(outs)
        for k, n in e.visited.items():
            self.analysed[k] = self.analysed.get(k, 0) + n
        self.nloops += e.nloops
        if key:
            self._cache[key] = outs
        return outs

    def argnames(self, path):
        f = self.fn(path)
        return [f.locals[i + 1].get("n") or "a%d" % i for i in range(f.argc)]

    def arg(self, path, i):
        return self.argnames(path)[i]

    def where(self, path):
        f = self.p.get(path)
        if f is None:
            return path
        return "%s (%s)" % (f.path, (f.d.get("span") or "?"))

    # ---- observation of values through public accessors
    def observe(self, st, path, val, sub=None, owned=False, **cfg):
        """value of the accessor `path` on the value `val`; None unless it has one plain outcome"""
        e = self.engine(**cfg)
        s = st.fork()
        if owned:
            a = val
        else:
            a = engine.ref(("O", "obs%d" % e.new()), (), False)
            s.mem[a.a[0]] = val
        outs = e.run(self.fn(path).path, s, [a], sub)
        for k, n in e.visited.items():
            self.analysed[k] = self.analysed.get(k, 0) + n
        self.runs += 1
        rets = [o for o in outs if o[0] == "ret"]
        return [Out(lab, s2, (e.load(s2, v) if v is not None and is_t(v) and v.op == "ref" and lab == "ret" else v), e) for lab, s2, v in outs]

    def observe1(self, st, path, val, sub=None, owned=False, **cfg):
        outs = self.observe(st, path, val, sub, owned, **cfg)
        outs = [o for o in outs if o.lab == "ret"]
        if len(outs) == 1:
            return outs[0].val
        return None


# ------------------------------------------------------------------------- term utilities
IMPRECISE = ("unk", "uninit", "phi", "narrow32")


def imprecise(*ts):
    """does a value contain parts the interpreter gave up on?"""
    def pred(x):
        return x.op in IMPRECISE or x.op == "fold" and overwriting(x)
    for t in ts:
        if is_t(t):
            if occurs(t, pred):
                return True
        elif isinstance(t, (tuple, list)):
            if imprecise(*t):
                return True
        elif isinstance(t, Facts):
            if imprecise(*t.order):
                return True
    return False


_ow = {}


def overwriting(t):
    """is what a loop leaves behind a flag, or an item kept in some rounds and replaced in others?
    Nothing general is known of such values (unlike of sums, least and greatest values)"""
    r = _ow.get(t)
    if r is None:
        acc = lambda x: occurs(x, lambda y: y.op == "acc")

        def choice(x):
            return x.op == "ite" and any(y.op in ("agg", "bool") and not acc(y) for y in x.a[1:])

        def go(x):
            if isinstance(x, tuple):
                return any(go(y) for y in x)
            return is_t(x) and x.op not in BINDERS and (choice(x) or any(go(y) for y in x.a))
        r = _ow[t] = go(t.a[2:3])
    return r


def closed_cond(c):
    """condition without variables of enclosing binders"""
    return not has_bv(c)


_hb = {}


def has_bv(t, bound=frozenset()):
    """does t contain a variable of an enclosing binder?"""
    if not (mask_bv(t)):
        return False
    k = (t, bound)
    r = _hb.get(k)
    if r is not None:
        return r
    if t.op == "bv":
        r = t not in bound
    else:
        bs = bound | {t.a[1]} if t.op in BINDERS else bound
        r = False
        for i, x in enumerate(t.a):
            if t.op in BINDERS and i == 1:
                continue
            for y in (x if isinstance(x, tuple) else (x,)):
                if is_t(y) and has_bv(y, bound if t.op in BINDERS and i == 0 else bs):
                    r = True
                    break
            if r:
                break
    _hb[k] = r
    return r


_mb = {}


def mask_bv(t):
    r = _mb.get(t)
    if r is None:
        r = t.op == "bv" or any((is_t(x) and mask_bv(x)) or (isinstance(x, tuple) and any(is_t(y) and mask_bv(y) or isinstance(y, tuple) for y in x)) for x in t.a)
        _mb[t] = r
    return r


_sk = [0]


def skolem(n="k"):
    _sk[0] += 1
    return mk("in0", "$%s%d" % (n, _sk[0]))


def find_ite(t, F, seen=None):
    """an undecided if-then-else condition (or min/max) inside t that does not depend on binders"""
    if seen is None:
        seen = set()
    if not is_t(t):
        if isinstance(t, tuple):
            for x in t:
                c = find_ite(x, F, seen)
                if c is not None:
                    return c
        return None
    if t in seen:
        return None
    seen.add(t)
    if t.op in ("res", "post", "draw", "phi", "call"):
        return None     # a symbol of its own
    if t.op == "ite" and not has_bv(t.a[0]):
        inner = find_ite(t.a[0], F, seen)
        if inner is not None:
            return inner
        return t.a[0]
    if t.op in ("min", "max") and len(t.a) == 2 and not has_bv(t):
        return le(t.a[0], t.a[1])
    for x in t.a:
        if is_t(x) or isinstance(x, tuple):
            c = find_ite(x, F, seen)
            if c is not None:
                return c
    return None


def rb(op, na):
    if op == "lin":
        r = I(na[0])
        for x, c in na[1]:
            r = add(r, scale(x, c))
        return r
    return rebuild(op, na)


def resolve(F, t, c):
    """t with the condition c decided by F"""
    def go(x, memo):
        if not is_t(x):
            if isinstance(x, tuple):
                return tuple(go(y, memo) for y in x)
            return x
        if x in memo:
            return memo[x]
        r = x
        if x.op == "ite":
            cc = go(x.a[0], memo)
            if cc is TRUE or (not has_bv(cc) and F.entails(cc)):
                r = go(x.a[1], memo)
            elif cc is FALSE or (not has_bv(cc) and F.entails(bnot(cc))):
                r = go(x.a[2], memo)
            else:
                r = ite(cc, go(x.a[1], memo), go(x.a[2], memo))
        elif x.op in ("min", "max") and len(x.a) == 2:
            a, b = go(x.a[0], memo), go(x.a[1], memo)
            if F.entails(le(a, b)):
                r = a if x.op == "min" else b
            elif F.entails(le(b, a)):
                r = b if x.op == "min" else a
            else:
                r = imin(a, b) if x.op == "min" else imax(a, b)
        elif x.op in BINDERS:
            if any(y.op == "ite" for y in subterms(x)):
                b = fresh_bv()
                n, bodies = go(x.a[0], memo), inst(x, b)
                new = tuple(go(y, memo) for y in bodies)
                if n is not x.a[0] or new != tuple(bodies):
                    r = rebuild_binder(x.op, n, b, list(new))
        else:
            na = tuple(go(y, memo) if (is_t(y) or isinstance(y, tuple)) else y for y in x.a)
            if na != x.a:
                r = rb(x.op, na)
        memo[x] = r
        return r
    return go(t, {})


def splits(F, *ts, limit=64):
    """case split on the undecided conditions inside the terms: yields (facts, terms)"""
    out = []
    todo = [(F, tuple(ts))]
    while todo:
        f, xs = todo.pop()
        if f.bad:
            continue
        xs = tuple(resolve(f, x, None) for x in xs)
        c = None
        for x in xs:
            c = find_ite(x, f)
            if c is not None:
                break
        if c is None or len(out) + len(todo) > limit or f.entails(c) or f.entails(bnot(c)):
            out.append((f, xs))     # (a decided condition that resolve could not take away stays)
            continue
        for l in (c, bnot(c)):
            g = f.copy()
            g.add(l)
            settle(g, c)
            if not g.bad:
                todo.append((g, xs))
    return out


def settle(g, c):
    """facts that speak of an alternative that has just been decided"""
    for l in list(g.order):
        if not g.bad and occurs(l, lambda t: t.op == "ite" and t.a[0] is c):
            r = resolve(g, l, None)
            if r is not l:
                g.add(r)


def numbers(F):
    """the facts with every comparison of floats read as one of numbers (none is NaN)"""
    f = F.copy()
    for l in F.order:
        if l.op == "not" and l.a[0].op in ("fle", "flt"):
            x, y = l.a[0].a
            f.add(fcmp("flt" if l.a[0].op == "fle" else "fle", y, x))
    return f


def decided(f):
    """the facts, with the alternatives inside them settled as far as the facts themselves do"""
    g = f.copy()
    for l in f.order:
        if l.op != "forall" and occurs(l, lambda t: t.op == "ite"):
            m = simp(f, l)
            if m is not l:
                g.add(m)
    return g


def simp(F, t):
    """push facts into element and slice accesses"""
    memo = {}

    def go(x):
        if not is_t(x):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        if x.op in BINDERS or x.op in ("bv", "int", "in0"):
            memo[x] = x
            return x
        na = tuple(go(y) if (is_t(y) or isinstance(y, tuple)) else y for y in x.a)
        r = x if na == x.a else rb(x.op, na)
        if r.op == "at":
            r = at_f(F, r.a[0], r.a[1])
        elif r.op == "slice":
            r = slice_f(F, r.a[0], r.a[1], r.a[2])
        elif r.op == "ite":
            if F.entails(r.a[0]):
                r = r.a[1]
            elif F.entails(bnot(r.a[0])):
                r = r.a[2]
        memo[x] = r
        return r
    return go(t)


SEQ_OPS = {"cat", "lit", "rep", "slice", "comp", "store", "swapd", "rev", "fcomp", "flatc", "splice", "perm"}


def same(F, a, b, depth=0):
    """are the two abstract values equal under the facts? (sound: True means equal)"""
    if a is b or F.bad:
        return True
    if not is_t(a) or not is_t(b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(same(F, x, y, depth + 1) for x, y in zip(a, b))
        return a == b
    if depth > 12:
        return False
    if a.op in ("lin", "int") or b.op in ("lin", "int"):
        return F.entails(eqi(a, b))
    if a.op == "agg" and b.op == "agg":
        return len(a.a) == len(b.a) and a.a[:2] == b.a[:2] and all(same(F, x, y, depth + 1) for x, y in zip(a.a[2:], b.a[2:]))
    sa, sb = simp(F, a), simp(F, b)
    if sa is sb:
        return True
    cs = splits(F, sa, sb, limit=32)
    if len(cs) > 1 or (cs and (cs[0][1][0] is not sa or cs[0][1][1] is not sb)):
        return all(same(f, x, y, depth + 1) for f, (x, y) in cs)
    a, b = sa, sb
    if a.op in SEQ_OPS or b.op in SEQ_OPS:
        if same_seq(F, a, b, depth):
            return True
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("fcomp", "flatc", "forall", "fold", "bv", "in0"):
        if a.op in BINDERS:
            return same_binder(F, a, b, depth)
        if all(same(F, x, y, depth + 1) for x, y in zip(a.a, b.a)):
            return True
    if a.op == b.op and a.op in BINDERS:
        if same_binder(F, a, b, depth):
            return True
    if F.entails(peq(a, b)) or F.entails(eqi(a, b)):
        return True
    return False


def same_binder(F, a, b, depth):
    try:
        v = skolem()
        xs, ys = inst(a, v), inst(b, v)
    except Exception:
        return False
    if len(xs) != len(ys):
        return False
    n, m = a.a[0], b.a[0]
    if not same(F, n, m, depth + 1):
        return False
    f = F.copy()
    f.add(lt(v, n))
    return all(same(f, x, y, depth + 1) for x, y in zip(xs, ys))


def same_seq(F, a, b, depth=0):
    """sequences: equal lengths and equal elements at an arbitrary index"""
    la, lb = slen(a), slen(b)
    if la is not lb and not F.entails(eqi(la, lb)):
        return False
    k = skolem()
    f = F.copy()
    f.add(lt(k, la))
    f.add(lt(k, lb))
    if f.bad:
        return True
    xa, xb = elem(f, a, k), elem(f, b, k)
    return all_cases(f, xa, xb, depth)


def all_cases(F, xs, ys, depth):
    for f1, x in xs:
        for f2, y in ys:
            f = f1.copy()
            for l in f2.order:
                f.add(l)
            if f.bad:
                continue
            if x is y:
                continue
            if x.op == "at" and y.op == "at" and same(f, x.a[0], y.a[0], depth + 3) and f.entails(eqi(x.a[1], y.a[1])):
                continue
            if x.op in ("at",) and y.op in ("at",):
                return False
            if not same(f, x, y, depth + 2):
                return False
    return True


def elem(F, s, i, fuel=40):
    """the element of sequence s at index i as a list of cases [(facts, value)]"""
    out = []
    todo = [(F, s, i)]
    while todo and fuel:
        fuel -= 1
        f, s, i = todo.pop()
        if f.bad:
            continue
        if s.op == "ite":
            for c, x in ((s.a[0], s.a[1]), (bnot(s.a[0]), s.a[2])):
                g = f.copy()
                g.add(c)
                todo.append((g, x, i))
            continue
        if s.op == "store":
            b, j, v = s.a
            g = f.copy()
            g.add(eqi(i, j))
            if not g.bad:
                out.append((g, v))
            g = f.copy()
            g.add(bnot(eqi(i, j)))
            todo.append((g, b, i))
            continue
        if s.op == "swapd":
            b, x, y = s.a
            g = f.copy()
            g.add(eqi(i, x))
            todo.append((g, b, y))
            g = f.copy()
            g.add(bnot(eqi(i, x)))
            h = g.copy()
            g.add(eqi(i, y))
            todo.append((g, b, x))
            h.add(bnot(eqi(i, y)))
            todo.append((h, b, i))
            continue
        if s.op == "cat":
            pos = ZERO
            for x in s.a:
                end = add(pos, slen(x))
                g = f.copy()
                g.add(le(pos, i))
                g.add(lt(i, end))
                if not g.bad:
                    todo.append((g, x, sub(i, pos)))
                pos = end
            continue
        if s.op == "slice":
            todo.append((f, s.a[0], add(s.a[1], i)))
            continue
        if s.op == "rev":
            todo.append((f, s.a[0], sub(sub(slen(s.a[0]), ONE), i)))
            continue
        if s.op == "lit" and i.op != "int":
            for k, x in enumerate(s.a):
                g = f.copy()
                g.add(eqi(i, I(k)))
                if not g.bad:
                    out.append((g, x))
            continue
        r = at(s, i)
        if r.op == "at" and r.a[0] is s and r.a[1] is i:
            out.append((f, r))
        elif r.op == "at":
            todo.append((f, r.a[0], r.a[1]))
        elif r.op == "ite":
            for f2, (v,) in splits(f, r):
                out.append((f2, v))
        else:
            out.append((f, r))
    if todo:
        out += [(f, at(s, i)) for f, s, i in todo]
    return out


# ------------------------------------------------------------------------- rearrangements
def intervals(F, V, s):
    """V as a multiset of index intervals of s (None when it is not one)"""
    if V is s:
        return [(ZERO, slen(s))]
    o = V.op
    if o == "slice" and V.a[0] is s:
        return [(V.a[1], V.a[2])]
    if o == "slice":
        x = slice_f(F, *V.a)
        if x is not V:
            return intervals(F, x, s)
        return None
    if o in ("rev", "perm", "sort", "sortby"):
        return intervals(F, V.a[0], s)
    if o == "swapd":
        b, i, j = V.a
        if F.entails(lt(i, slen(b))) and F.entails(lt(j, slen(b))):
            return intervals(F, b, s)
        return None
    if o == "lit":
        r = []
        for x in V.a:
            x = simp(F, x)
            if x.op != "at" or x.a[0] is not s:
                return None
            r.append((x.a[1], addc(x.a[1], 1)))
        return r
    if o == "comp":
        v = skolem()
        f = F.copy()
        f.add(lt(v, V.a[0]))
        el = simp(f, inst(V, v)[0])
        if el.op != "at" or el.a[0] is not s:
            return None
        off = sub(el.a[1], v)
        if not contains(off, v):
            return [(off, add(off, V.a[0]))]
        off = add(el.a[1], v)
        if not contains(off, v):
            return [(addc(sub(off, V.a[0]), 1), addc(off, 1))]
        return None
    if o == "cat":
        r = []
        for x in V.a:
            y = intervals(F, x, s)
            if y is None:
                return None
            r += y
        return r
    if o == "store":
        # a chain of stores that permutes the contents of the written positions
        ps, vs = [], []
        b = V
        while b.op == "store":
            if not any(F.entails(eqi(b.a[1], p)) for p in ps):
                ps.append(b.a[1])
                vs.append(b.a[2])
            b = b.a[0]
        qs = []
        for v in vs:
            v = simp(F, v)
            if v.op != "at" or not same(F, v.a[0], b):
                return None
            qs.append(v.a[1])
        for i, p in enumerate(ps):
            for q in ps[:i]:
                if not F.entails(bnot(eqi(p, q))):
                    return None
        for p in ps:
            k = next((k for k, q in enumerate(qs) if F.entails(eqi(p, q))), None)
            if k is None:
                return None
            qs.pop(k)
        return intervals(F, b, s)
    return None


def tiles(F, iv, lo, hi):
    """do the intervals cover [lo,hi) exactly once?"""
    iv = [(a, b) for a, b in iv if not F.entails(eqi(a, b))]
    cur = lo
    while True:
        if not iv:
            return F.entails(eqi(cur, hi))
        k = next((k for k, (a, b) in enumerate(iv) if F.entails(eqi(a, cur)) and F.entails(le(a, b))), None)
        if k is None:
            return False
        cur = iv.pop(k)[1]


def rearranged(F, V, s, seen=()):
    """is V a rearrangement of s under the facts?"""
    if same(F, V, s):
        return True
    for f, (v,) in splits(F, V):
        iv = intervals(f, v, s)
        if iv is None or not tiles(f, iv, ZERO, slen(s)):
            return False
    return True


# ------------------------------------------------------------------------- reports
class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = []      # (status, rule, where, detail, key)
        self.notes = []
        self.assumptions = []

    def add(self, status, rule, where, detail="", key=None):
        self.obl.append((status, rule, where, detail, key or "%s|%s" % (rule, where)))

    def need(self, good, rule, where, detail="", vals=(), key=None, strict=False):
        """one obligation: `good` or a violation; undecided if the values involved were not precise"""
        if good:
            self.add("ok", rule, where, detail, key)
        elif not strict and imprecise(*vals):
            self.add("undecided", rule, where, detail, key)
        else:
            self.add("violation", rule, where, detail, key)
        return good

    def undecided(self, rule, where, detail=""):
        self.add("undecided", rule, where, detail)

    def violation(self, rule, where, detail="", key=None):
        self.add("violation", rule, where, detail, key)

    def ok(self, rule, where, detail=""):
        self.add("ok", rule, where, detail)


class Soft:
    """a report whose failed obligations count as undecided, for code shapes the rules do not follow precisely"""

    def __init__(self, R):
        self.R = R

    def need(self, good, rule, where, detail="", vals=(), key=None, strict=False):
        if good:
            self.R.add("ok", rule, where, detail, key)
        else:
            self.R.add("undecided", rule, where, detail, key)
        return good

    def violation(self, rule, where, detail="", key=None):
        self.R.add("undecided", rule, where, detail, key)

    def __getattr__(self, a):
        return getattr(self.R, a)
