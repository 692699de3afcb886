"""Value terms of the abstract domain: hash-consed, normalised at construction.

Integers are linear forms over atoms, Booleans are literals over normalised comparisons, sequences
(vectors, slices) are built from a small algebra (cat/lit/rep/slice/comp/store/...).  Two program
fragments that compute the same value in different ways should get the same term."""
from math import gcd


class Term:
    __slots__ = ("op", "a", "id", "_bv", "_m", "_r")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    key = (op,) + a
    t = Term._tab.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.a = a
        Term._n += 1
        t.id = Term._n
        t._bv = None
        t._m = None
        t._r = None
        Term._tab[key] = t
    return t


def is_t(x):
    return isinstance(x, Term)


# ---------------------------------------------------------------- printing
_INFIX = {"fadd": "+.", "fsub": "-.", "fmul": "*.", "fdiv": "/.", "flt": "<.", "fle": "<=.", "feq": "==.", "peq": "=="}


def show(t, d=0):
    if not is_t(t):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    r = lambda x: show(x, d + 1)
    if o == "int":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "fl":
        return repr(a[0])
    if o == "lin":
        s = []
        for at, c in a[1]:
            s.append((("+" if c > 0 else "-") if s or c < 0 else "") + ("" if abs(c) == 1 else str(abs(c)) + "*") + r(at))
        if a[0]:
            s.append(("+" if a[0] > 0 else "-") + str(abs(a[0])))
        return "(" + "".join(s) + ")"
    if o == "le0":
        return r(a[0]) + "<=0"
    if o == "eq0":
        return r(a[0]) + "==0"
    if o == "not":
        return "!" + r(a[0])
    if o in _INFIX and len(a) == 2:
        return "(" + r(a[0]) + " " + _INFIX[o] + " " + r(a[1]) + ")"
    if o == "in0":
        return str(a[0])
    if o == "fld":
        return r(a[0]) + "." + str(a[1])
    if o in ("draw", "res", "unk") and len(a) > 2 and isinstance(a[1], int):
        return "%s%s#%d%s" % ("?" if o == "unk" else "", a[0], a[1], "[" + ",".join(r(x) for x in a[2]) + "]" if a[2] else "")
    if o in ("kappa", "kap"):
        return ("k" if o == "kappa" else "K") + str(a[0])
    if o == "phi":
        return "phi%d.%d[%s]" % (a[0], a[1], r(a[2]))
    if o == "bv":
        return "b" + str(a[0])
    if o == "at":
        return r(a[0]) + "[" + r(a[1]) + "]"
    if o == "slice":
        return r(a[0]) + "[" + r(a[1]) + ".." + r(a[2]) + "]"
    if o == "len":
        return "len(" + r(a[0]) + ")"
    if o == "agg":
        n = a[0].split("::")[-1] if isinstance(a[0], str) else str(a[0])
        return n + ("#" + str(a[1]) if a[1] else "") + "{" + ",".join(r(x) for x in a[2:]) + "}"
    if o == "ref":
        return "&" + str(a[0]) + "".join("." + ("/".join(show(y, d + 1) for y in x) if isinstance(x, tuple) else show(x, d + 1)) for x in a[1])
    return o + "(" + ",".join(r(x) for x in a) + ")"


# ---------------------------------------------------------------- generic helpers
_SYM = frozenset(("bv", "in0", "phi", "kappa", "kap", "draw", "res", "post", "unk", "acc", "fidx", "sint"))


def mask(t):
    """Bloom filter over the symbols inside t"""
    if not is_t(t):
        r = 0
        if isinstance(t, tuple):
            for x in t:
                r |= mask(x)
        return r
    r = t._m
    if r is None:
        r = 0
        for x in t.a:
            if is_t(x):
                y = x._m
                r |= mask(x) if y is None else y
            elif isinstance(x, tuple):
                r |= mask(x)
        if t.op in _SYM:
            r |= 1 << (t.id % 509)
        t._m = r
    return r


_NOROOTS = frozenset()


def roots(t):
    """memory locations referred to inside t"""
    if not is_t(t):
        r = _NOROOTS
        if isinstance(t, tuple):
            for x in t:
                if is_t(x) or isinstance(x, tuple):
                    y = roots(x)
                    if y:
                        r = r | y
        return r
    r = t._r
    if r is None:
        r = _NOROOTS
        for x in t.a:
            if is_t(x) or isinstance(x, tuple):
                y = roots(x)
                if y:
                    r = r | y
        if t.op in ("ref", "boxref"):
            r = r | {t.a[0]}
        t._r = r
    return r


def subst(t, m, memo=None, ks=None):
    """Replace atoms (keys of m) bottom-up, re-normalising."""
    if memo is None:
        memo = {}
    if ks is None:
        ks = tuple({mask(k) for k in m})
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo, ks) for x in t)
    if not is_t(t):
        return t
    mt = t._m
    if mt is None:
        mt = mask(t)
    for k in ks:
        if mt & k == k:
            break
    else:
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("int", "bool", "fl", "const", "in0", "unit"):
        r = t
    elif t.op == "lin":
        r = I(t.a[0])
        for at, c in t.a[1]:
            r = add(r, scale(subst(at, m, memo, ks), c))
    elif t.op in BINDERS:
        b = t.a[1]
        nn = subst(t.a[0], m, memo, ks)
        if b in m:
            m2 = {k: v for k, v in m.items() if k is not b}
            nb = subst(t.a[2:], m2)
        else:
            m2 = m
            nb = subst(t.a[2:], m, memo, ks)
        if nb == t.a[2:]:
            r = t if nn is t.a[0] else rebuild_binder(t.op, nn, b, nb)
        elif height(nb) >= b.a[0]:
            # a binder moved inside: rename so that nothing is captured
            v = fresh_bv()
            nb = subst(subst(t.a[2:], {b: v}), m2)
            r = rebuild_binder(t.op, nn, v, nb)
        else:
            r = rebuild_binder(t.op, nn, b, nb)
    else:
        na = tuple([subst(x, m, memo, ks) for x in t.a])
        r = t if na == t.a else rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild_binder(op, n, v, bodies):
    if op == "comp":
        return norm_comp(n, v, bodies[0])
    if op == "fcomp":
        return norm_fcomp(n, v, *bodies)
    if op == "fold":
        return norm_fold(n, v, *bodies)
    if op == "forall":
        return forall(n, v, bodies[0])
    if op == "isum":
        return isum(n, v, bodies[0])
    if op == "cnt":
        return cnt(n, v, bodies[0])
    if op == "flatc":
        return norm_flatc(n, v, bodies[0])
    return close(op, n, v, *bodies)


def occurs(t, pred, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return any(occurs(x, pred, memo) for x in t)
    if not is_t(t):
        return False
    if t in memo:
        return memo[t]
    memo[t] = False
    r = bool(pred(t)) or any(occurs(x, pred, memo) for x in t.a)
    memo[t] = r
    return r


def contains(t, s):
    k = mask(s)
    if mask(t) & k != k:
        return False
    return occurs(t, lambda x: x is s)


def subterms(t, out=None):
    if out is None:
        out = {}
    if isinstance(t, tuple):
        for x in t:
            subterms(x, out)
    elif is_t(t) and t not in out:
        out[t] = True
        for x in t.a:
            subterms(x, out)
    return out


BINDERS = ("comp", "fcomp", "forall", "fold", "flatc", "isum", "cnt", "first", "lam", "argmin", "argmax")  # op(n, bv, body...)


def height(t):
    """Greatest level bound inside t (free bound-variables do not count)."""
    if isinstance(t, tuple):
        return max([height(x) for x in t] or [0])
    if not is_t(t):
        return 0
    if t._bv is None:
        h = max([height(x) for x in t.a] or [0])
        if t.op in BINDERS:
            h = max(h, t.a[1].a[0])
        t._bv = h
    return t._bv


_fv = [10 ** 6]


def fresh_bv():
    _fv[0] += 1
    return mk("bv", _fv[0])


def bv_at(level):
    return mk("bv", level)


def close(op, n, var, *bodies):
    """op(n, b, bodies[var := b]) with the canonical binder level"""
    lvl = 1 + max([height(x) for x in bodies] or [0])
    b = bv_at(lvl)
    if b is not var:
        bodies = tuple(subst(x, {var: b}) for x in bodies)
    return mk(op, n, b, *bodies)


def open_(t):
    """(fresh variable, bodies) of a binder term"""
    v = fresh_bv()
    return v, tuple(subst(x, {t.a[1]: v}) for x in t.a[2:])


def inst(t, x):
    """instantiate the binder of t with x: tuple of bodies"""
    return tuple(subst(y, {t.a[1]: x}) for y in t.a[2:])


# ---------------------------------------------------------------- integers
def I(n):
    return mk("int", n)


ZERO = I(0)
ONE = I(1)


def _lin(t):
    if t.op == "int":
        return t.a[0], ()
    if t.op == "lin":
        return t.a
    return 0, ((t, 1),)


def _mklin(c, items):
    items = tuple(sorted(((x, k) for x, k in items if k), key=lambda p: p[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b):
    ca, ia = _lin(a)
    cb, ib = _lin(b)
    d = dict(ia)
    for x, k in ib:
        d[x] = d.get(x, 0) + k
    return _mklin(ca + cb, d.items())


def scale(a, n):
    c, it = _lin(a)
    return _mklin(c * n, [(x, k * n) for x, k in it])


def sub(a, b):
    return add(a, scale(b, -1))


def addc(a, n):
    return add(a, I(n))


def mul(a, b):
    if a.op == "int":
        return scale(b, a.a[0])
    if b.op == "int":
        return scale(a, b.a[0])
    # distribute over linear forms so that n*(n+1) has one normal form
    ca, ia = _lin(a)
    cb, ib = _lin(b)
    r = I(ca * cb)
    for x, k in ia:
        r = add(r, scale(x, k * cb))
        for y, l in ib:
            r = add(r, scale(_mulat(x, y), k * l))
    for y, l in ib:
        r = add(r, scale(y, l * ca))
    return r


def _mulat(x, y):
    xs = list(x.a) if x.op == "mul" else [x]
    ys = list(y.a) if y.op == "mul" else [y]
    return mk("mul", *sorted(xs + ys, key=lambda t: t.id))


def const_of(t):
    return t.a[0] if t.op == "int" else None


def lin_parts(t):
    return _lin(t)


# ---------------------------------------------------------------- booleans
TRUE = mk("bool", True)
FALSE = mk("bool", False)


def B(x):
    return TRUE if x else FALSE


def le0(t):
    """t <= 0"""
    c, it = _lin(t)
    if not it:
        return B(c <= 0)
    g = 0
    for _, k in it:
        g = gcd(g, abs(k))
    if g > 1:
        c = -((-c) // g)  # ceil(c/g)
        t = _mklin(c, [(x, k // g) for x, k in it])
    return mk("le0", t)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(addc(sub(a, b), 1))


def eq0(t):
    c, it = _lin(t)
    if not it:
        return B(c == 0)
    g = 0
    for _, k in it:
        g = gcd(g, abs(k))
    if c % g:
        return FALSE
    if c and all((k > 0) == (c > 0) and x.op in ("bv", "slen") for x, k in it):
        return FALSE        # indices and lengths are not negative
    s = 1 if it[0][1] > 0 else -1
    t = _mklin(s * c // g, [(x, s * k // g) for x, k in it])
    return mk("eq0", t)


def eqi(a, b):
    return eq0(sub(a, b))


def bnot(t):
    if t.op == "bool":
        return B(not t.a[0])
    if t.op == "not":
        return t.a[0]
    if t.op == "le0":
        return le0(sub(ONE, t.a[0]))
    if t.op == "and":
        return bor(*[bnot(x) for x in t.a])
    if t.op == "or":
        return band(*[bnot(x) for x in t.a])
    return mk("not", t)


def band(*xs):
    s = []
    for x in xs:
        for y in (x.a if x.op == "and" else (x,)):
            if y is FALSE:
                return FALSE
            if y is not TRUE and y not in s:
                s.append(y)
    for y in s:
        if bnot1(y) in s:
            return FALSE
    if not s:
        return TRUE
    return s[0] if len(s) == 1 else mk("and", *sorted(s, key=lambda t: t.id))


def bnot1(y):
    return bnot(y) if y.op not in ("and", "or") else None


def bor(*xs):
    s = []
    for x in xs:
        for y in (x.a if x.op == "or" else (x,)):
            if y is TRUE:
                return TRUE
            if y is not FALSE and y not in s:
                s.append(y)
    for y in s:
        if bnot1(y) in s:
            return TRUE
    if not s:
        return FALSE
    return s[0] if len(s) == 1 else mk("or", *sorted(s, key=lambda t: t.id))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a.op in _BOOLY and b.op in _BOOLY:
        return bor(band(c, a), band(bnot(c), b))
    if c.op == "le0":
        # integer minimum / maximum
        d = sub(a, b)
        t = c.a[0]
        if t is d or t is addc(d, 1):
            return imin(a, b)
        d = scale(d, -1)
        if t is d or t is addc(d, 1):
            return imax(a, b)
    if c.op == "eq0" and c.a[0] in (sub(a, b), sub(b, a)):
        return b
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if c.op == "le0" and c.a[0].id > bnot(c).a[0].id:
        return mk("ite", bnot(c), b, a)
    return mk("ite", c, a, b)


_BOOLY = ("bool", "not", "and", "or", "le0", "eq0", "flt", "fle", "feq", "peq", "in", "inseq", "forall")


def imin(a, b):
    d = sub(a, b)
    if d.op == "int":
        return a if d.a[0] <= 0 else b
    if b.id < a.id:
        a, b = b, a
    return mk("min", a, b)


def imax(a, b):
    d = sub(a, b)
    if d.op == "int":
        return a if d.a[0] >= 0 else b
    # numbers are natural, differences need not be
    if a is ZERO and not negative(b):
        return b
    if b is ZERO and not negative(a):
        return a
    if b.id < a.id:
        a, b = b, a
    return mk("max", a, b)


def negative(t):
    c, it = _lin(t)
    return c < 0 or any(k < 0 for _, k in it)


def acc(v):
    return mk("acc", v)


def norm_fold(n, v, body, init):
    """value of  a := init; for v in 0..n { a := body(acc(v), v) }"""
    if n is ZERO:
        return init
    if n is ONE:
        return subst(body, {acc(v): init, v: ZERO})
    if body is acc(v):
        return init
    a = acc(v)
    c, it = _lin(body)
    if any(x is a and k == 1 for x, k in it):
        rest_ = sub(body, a)
        if not contains(rest_, a):
            return add(init, isum(n, v, rest_))
    return close("fold", n, v, body, init)


def forall(n, v, body):
    if n is ZERO or body is TRUE:
        return TRUE
    if body.op == "and":
        return band(*[forall(n, v, x) for x in body.a])
    if n is ONE:
        return subst(body, {v: ZERO})
    if not contains(body, v):
        return bor(eq0(n), body)
    if body.op == "not" and body.a[0].op == "peq":
        a, b = body.a[0].a
        for x, y in ((a, b), (b, a)):
            if not contains(y, v):
                return bnot(inseq(y, comp_of(n, x, v)))
    return close("forall", n, v, body)


def tri(x):
    """x*(x-1)/2"""
    c, it = _lin(x)
    r = ZERO
    if not it:
        return I(c * (c - 1) // 2)
    while c > 0:
        x = addc(x, -1)
        r = add(r, x)
        c -= 1
    while c < 0:
        r = sub(r, x)
        x = addc(x, 1)
        c += 1
    return add(r, mk("tri", x))


def isum(n, v, body):
    """sum of body over v in 0..n"""
    if n is ZERO:
        return ZERO
    c, it = _lin(body)
    r = scale(n, c)
    for x, k in it:
        if x is v:
            r = add(r, scale(tri(n), k))
        elif not contains(x, v):
            r = add(r, scale(mul(n, x), k))
        elif x.op == "ite" and x.a[1].op == "int" and x.a[2].op == "int":
            a, b = x.a[1].a[0], x.a[2].a[0]
            r = add(r, scale(add(scale(n, b), scale(cnt(n, v, x.a[0]), a - b)), k))
        elif n is ONE:
            r = add(r, scale(subst(x, {v: ZERO}), k))
        else:
            r = add(r, scale(close("isum", n, v, x), k))
    return r


def cnt(n, v, cond):
    """number of v in 0..n with cond"""
    if cond is TRUE or n is ZERO:
        return n
    if cond is FALSE:
        return ZERO
    if not contains(cond, v):
        return ite(cond, n, ZERO)
    if n is ONE:
        return ite(subst(cond, {v: ZERO}), ONE, ZERO)
    if cond.op == "not":
        return sub(n, cnt(n, v, cond.a[0]))
    return close("cnt", n, v, cond)


def norm_fcomp(n, v, cond, body):
    """[body | v in 0..n, cond]"""
    if n is ZERO or cond is FALSE:
        return EMPTY
    if cond is TRUE:
        return norm_comp(n, v, body)
    return close("fcomp", n, v, cond, body)


def single(s):
    """the element of a sequence that has one element in every case"""
    if s.op == "lit" and len(s.a) == 1:
        return s.a[0]
    if s.op == "ite":
        a = single(s.a[1])
        b = single(s.a[2]) if a is not None else None
        if b is not None:
            return ite(s.a[0], a, b)
    return None


def norm_flatc(n, v, body):
    """concatenation of the sequences body(0)..body(n-1)"""
    if n is ZERO:
        return EMPTY
    if n is ONE:
        return subst(body, {v: ZERO})
    x = single(body)
    if x is not None:
        return norm_comp(n, v, x)
    if body is EMPTY:
        return EMPTY
    if body.op == "ite":
        c, a, b = body.a
        if b is EMPTY and a.op == "lit" and len(a.a) == 1:
            return norm_fcomp(n, v, c, a.a[0])
        if a is EMPTY and b.op == "lit" and len(b.a) == 1:
            return norm_fcomp(n, v, bnot(c), b.a[0])
    return close("flatc", n, v, body)


def peq(a, b):
    if a is b:
        return TRUE
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return band(*[peq(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op in ("int", "lin") or b.op in ("int", "lin"):
        return eqi(a, b)
    if a.op == "bool" and b.op == "bool":
        return B(a is b)
    if a.op == "const" and b.op == "const":
        return B(a is b)
    if a.op == "bool":
        return b if a is TRUE else bnot(b)
    if b.op == "bool":
        return a if b is TRUE else bnot(a)
    if b.id < a.id:
        a, b = b, a
    return mk("peq", a, b)


# ---------------------------------------------------------------- floats
def F(x):
    return mk("fl", float(x))


def fbin(op, a, b):
    if a.op == "fl" and b.op == "fl":
        try:
            x, y = a.a[0], b.a[0]
            v = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
            return F(v)
        except (ZeroDivisionError, OverflowError):
            pass
    if op == "fadd":
        if a.op == "fl" and a.a[0] == 0.0:
            return b
        if b.op == "fl" and b.a[0] == 0.0:
            return a
    if op == "fsub" and b.op == "fl" and b.a[0] == 0.0:
        return a
    if op == "fmul":
        if a.op == "fl" and a.a[0] == 1.0:
            return b
        if b.op == "fl" and b.a[0] == 1.0:
            return a
    if op == "fdiv" and b.op == "fl" and b.a[0] == 1.0:
        return a
    if op in ("fadd", "fmul") and b.id < a.id:
        a, b = b, a
    return mk(op, a, b)


def fcmp(op, a, b):
    """op in flt fle feq"""
    if a.op == "fl" and b.op == "fl":
        x, y = a.a[0], b.a[0]
        return B({"flt": x < y, "fle": x <= y, "feq": x == y}[op])
    if op == "feq" and b.id < a.id:
        a, b = b, a
    if op == "flt" and a is b:
        return FALSE
    if op == "flt" and a.op == "fsub" and is_fzero(b):
        # the sign of an IEEE difference is exact
        return fcmp(op, *a.a)
    if op == "flt" and b.op == "fsub" and is_fzero(a):
        return fcmp(op, b.a[1], b.a[0])
    return mk(op, a, b)


def is_fzero(t):
    return t.op == "fl" and t.a[0] == 0


def i2f(t):
    if t.op == "int":
        return F(float(t.a[0]))
    return mk("i2f", t)


def f2i(t):
    if t.op == "fl":
        v = t.a[0]
        if v != v or v < 0:
            return ZERO
        if v < 2 ** 63:
            return I(int(v))
    if t.op in ("ffloor", "ftrunc"):
        # truncation of a non-negative floored value; `as usize` saturates negatives to 0
        return mk("f2i", t.a[0])
    if t.op == "i2f":
        return t.a[0]
    return mk("f2i", t)


# ---------------------------------------------------------------- aggregates
UNIT = mk("agg", "()", 0)


def agg(name, variant, *fs):
    # eta: rebuilding exactly the fields of one value gives that value back
    if fs and all(is_t(f) and f.op == "fld" and f.a[1] == i and f.a[0] is fs[0].a[0] and f.a[2:] == (name, variant, len(fs)) for i, f in enumerate(fs)):
        return fs[0].a[0]
    return mk("agg", name, variant, *fs)


def tup(*fs):
    return agg("()", 0, *fs)


def fld(t, i, name="?", variant=0, n=0):
    if t.op == "agg":
        return t.a[2 + i] if 2 + i < len(t.a) else mk("fld", t, i, name, variant, n)
    if t.op == "ite":
        return ite(t.a[0], fld(t.a[1], i, name, variant, n), fld(t.a[2], i, name, variant, n))
    return mk("fld", t, i, name, variant, n)


OPT = "std::option::Option"
RES = "std::result::Result"
NONE = mk("agg", OPT, 0)


def some(x):
    return mk("agg", OPT, 1, x)


def ok(x):
    return mk("agg", RES, 0, x)


def err(x):
    return mk("agg", RES, 1, x)


ORD = "std::cmp::Ordering"
LESS = mk("agg", ORD, 0)
EQUAL = mk("agg", ORD, 1)
GREATER = mk("agg", ORD, 2)


# ---------------------------------------------------------------- sequences
def lit(*xs):
    return mk("lit", *xs)


EMPTY = mk("lit")


def slen(s):
    o = s.op
    if o == "lit":
        return I(len(s.a))
    if o == "cat":
        r = ZERO
        for x in s.a:
            r = add(r, slen(x))
        return r
    if o == "rep":
        return s.a[1]
    if o == "slice":
        return sub(s.a[2], s.a[1])
    if o in ("store", "swapd", "rev", "sort", "perm"):
        return slen(s.a[0])
    if o == "comp":
        return s.a[0]
    if o == "fcomp":
        return cnt(s.a[0], s.a[1], s.a[2])
    if o == "flatc":
        return isum(s.a[0], s.a[1], slen(s.a[2]))
    if o == "insert":
        return addc(slen(s.a[0]), 1)
    if o in ("remove", "swaprem"):
        return addc(slen(s.a[0]), -1)
    if o == "havoc":  # same length, unknown contents: havoc(seq, id)
        return slen(s.a[0])
    if o == "ite":
        a, b = slen(s.a[1]), slen(s.a[2])
        if a is b:
            return a
    return mk("len", s)


def rep(v, n):
    if n is ZERO:
        return EMPTY
    return mk("rep", v, n)


def comp_of(n, body, var):
    return norm_comp(n, var, body)


def norm_comp(n, b, body):
    if n is ZERO:
        return EMPTY
    if not contains(body, b):
        return rep(body, n)
    # comp(n, s[c+j]) = slice(s, c, c+n)
    if body.op == "at" and not contains(body.a[0], b):
        off = sub(body.a[1], b)
        if not contains(off, b):
            return slice_(body.a[0], off, add(off, n))
    if n is ONE:
        return lit(subst(body, {b: ZERO}))
    return close("comp", n, b, body)


def cat(*xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == "cat" else (x,)):
            if y is EMPTY or slen(y) is ZERO and y.op in ("slice", "rep", "comp"):
                continue
            if out:
                p = out[-1]
                if p.op == "lit" and y.op == "lit":
                    out[-1] = lit(*(p.a + y.a))
                    continue
                if p.op == "slice" and y.op == "slice" and p.a[0] is y.a[0] and p.a[2] is y.a[1]:
                    out[-1] = slice_(p.a[0], p.a[1], y.a[2])
                    continue
                if p.op == "rep" and y.op == "rep" and p.a[0] is y.a[0]:
                    out[-1] = rep(p.a[0], add(p.a[1], y.a[1]))
                    continue
                if y.op == "lit" and p.op == "slice" and len(y.a) == 1 and y.a[0].op == "at" and y.a[0].a[0] is p.a[0] and y.a[0].a[1] is p.a[2]:
                    out[-1] = slice_(p.a[0], p.a[1], addc(p.a[2], 1))
                    continue
            out.append(y)
    if not out:
        return EMPTY
    if len(out) == 3:
        # a sequence with one position overwritten
        p, e, q = out
        if p.op == "slice" and q.op == "slice" and p.a[0] is q.a[0] and p.a[1] is ZERO and q.a[1] is addc(p.a[2], 1) and q.a[2] is slen(q.a[0]):
            if e.op == "lit" and len(e.a) == 1:
                return store(p.a[0], p.a[2], e.a[0])
            if e.op == "slice" and e.a[2] is addc(e.a[1], 1):
                return store(p.a[0], p.a[2], at(e.a[0], e.a[1]))
    return out[0] if len(out) == 1 else mk("cat", *out)


def slice_(s, a, b):
    if a is b:
        return EMPTY
    if a is ZERO and b is slen(s):
        return s
    if s.op == "slice":
        return slice_(s.a[0], add(s.a[1], a), add(s.a[1], b))
    if s.op == "rep":
        return rep(s.a[0], sub(b, a))
    if s.op == "lit" and a.op == "int" and b.op == "int" and 0 <= a.a[0] <= b.a[0] <= len(s.a):
        return lit(*s.a[a.a[0]:b.a[0]])
    if s.op == "comp":
        bvv, (body,) = open_(s)
        if a is ZERO:
            return norm_comp(b, bvv, body)
        nb = subst(body, {bvv: add(a, bvv)})
        return norm_comp(sub(b, a), bvv, nb)
    if s.op == "cat":
        # whole segments only
        pos = ZERO
        cuts = [ZERO]
        for x in s.a:
            pos = add(pos, slen(x))
            cuts.append(pos)
        if a in cuts and b in cuts:
            i, j = cuts.index(a), cuts.index(b)
            if i <= j:
                return cat(*s.a[i:j])
    return mk("slice", s, a, b)


def at(s, i):
    o = s.op
    if o == "lit" and i.op == "int" and 0 <= i.a[0] < len(s.a):
        return s.a[i.a[0]]
    if o == "rep":
        return s.a[0]
    if o == "slice":
        return at(s.a[0], add(s.a[1], i))
    if o == "comp":
        return inst(s, i)[0]
    if o == "fcomp":
        return inst(s, mk("fidx", s, i))[1]
    if o == "swapd":
        if i is s.a[1]:
            return at(s.a[0], s.a[2])
        if i is s.a[2]:
            return at(s.a[0], s.a[1])
    if o == "store" and s.a[1] is i:
        return s.a[2]
    if o == "rev":
        return at(s.a[0], sub(addc(slen(s.a[0]), -1), i))
    if o == "ite":
        return ite(s.a[0], at(s.a[1], i), at(s.a[2], i))
    if o == "cat":
        # decide by constant offsets
        pos = ZERO
        for x in s.a:
            d = sub(i, pos)
            if d.op == "int":
                n = slen(x)
                if d.a[0] >= 0 and n.op == "int" and d.a[0] < n.a[0]:
                    return at(x, d)
                if d.a[0] >= 0 and x is s.a[-1]:
                    return at(x, d)
                if d.a[0] < 0:
                    break
            pos = add(pos, slen(x))
    return mk("at", s, i)


def store(s, i, v):
    if v.op == "at" and v.a[0] is s and v.a[1] is i:
        return s
    if s.op == "lit" and i.op == "int" and 0 <= i.a[0] < len(s.a):
        x = list(s.a)
        x[i.a[0]] = v
        return lit(*x)
    if s.op == "store" and s.a[1] is i:
        return store(s.a[0], i, v)
    if s.op == "store":
        b, j, w = s.a
        if w is at(b, i) and v is at(b, j):
            return swapd(b, i, j)
    return mk("store", s, i, v)


def swapd(s, i, j):
    if i is j:
        return s
    if s.op == "lit" and i.op == "int" and j.op == "int" and max(i.a[0], j.a[0]) < len(s.a):
        x = list(s.a)
        x[i.a[0]], x[j.a[0]] = x[j.a[0]], x[i.a[0]]
        return lit(*x)
    if j.id < i.id:
        i, j = j, i
    return mk("swapd", s, i, j)


def splice(s, a, b, r):
    """replace s[a..b] by r (same length)"""
    if s.op == "slice" and slice_(s, a, b) is r:
        return s
    n = slen(s)
    return cat(slice_(s, ZERO, a), r, slice_(s, b, n))


def rev(s):
    if s.op == "rev":
        return s.a[0]
    if s.op in ("rep",):
        return s
    if s.op == "lit":
        return lit(*reversed(s.a))
    return mk("rev", s)


# ---------------------------------------------------------------- sets (unordered)
SEMPTY = mk("sempty")


def sins(s, v):
    return s if s.op == "sins" and s.a[1] is v else mk("sins", s, v)


def isin(v, s):
    if s is SEMPTY:
        return FALSE
    if s.op == "sins":
        if s.a[1] is v:
            return TRUE
        return bor(peq(v, s.a[1]), isin(v, s.a[0]))
    if s.op == "srem":
        if s.a[1] is v:
            return FALSE
        return band(bnot(peq(v, s.a[1])), isin(v, s.a[0]))
    if s.op == "sext":
        q = s.a[1]
        r = inseq(v, q)
        return bor(r, isin(v, s.a[0]))
    return mk("in", v, s)


def inseq(v, q):
    """v occurs in sequence q"""
    if q.op == "lit":
        return bor(*[peq(v, x) for x in q.a])
    if q.op == "cat":
        return bor(*[inseq(v, x) for x in q.a])
    if q.op == "rep" and q.a[1].op == "int":
        return peq(v, q.a[0])
    if q.op in ("rev", "perm", "sort", "swapd", "dedup"):
        return inseq(v, q.a[0])
    return mk("inseq", v, q)


# ---------------------------------------------------------------- rebuild dispatch
_RB = {}


def rebuild(op, a):
    f = _RB.get(op)
    if f is not None:
        return f(*a)
    return mk(op, *a)


def _rb_mul(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = mul(r, x)
    return r


def discr_(t):
    if t.op == "agg" and isinstance(t.a[1], int):
        return I(t.a[1])
    if t.op == "ite":
        return ite(t.a[0], discr_(t.a[1]), discr_(t.a[2]))
    return mk("discr", t)


_RB.update({
    "discr": discr_,
    "le0": le0, "eq0": eq0, "not": bnot, "and": band, "or": bor, "ite": ite, "peq": peq, "mul": _rb_mul,
    "fadd": lambda a, b: fbin("fadd", a, b), "fsub": lambda a, b: fbin("fsub", a, b),
    "fmul": lambda a, b: fbin("fmul", a, b), "fdiv": lambda a, b: fbin("fdiv", a, b),
    "flt": lambda a, b: fcmp("flt", a, b), "fle": lambda a, b: fcmp("fle", a, b), "feq": lambda a, b: fcmp("feq", a, b),
    "i2f": i2f, "f2i": f2i, "agg": agg, "fld": fld, "len": slen, "rep": rep, 
    "cat": cat, "slice": slice_, "at": at, "store": store, "rev": rev, "in": isin, "inseq": inseq, "sins": sins, "tri": tri, "min": imin, "max": imax, "swapd": swapd,
})
