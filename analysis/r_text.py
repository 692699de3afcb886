"""P44 interpolation helpers, P45 printed statistics"""
import ast, re
from base import *
from r_alg import rpoly
from r_stats import obs, PS, count_of

# ---------------------------------------------------------------------------------- P44
def value_poly(t):
    """an expression over integers and floats as a polynomial over the reals"""
    r = {}
    for m, v in rpoly(t).items():
        ps = {(): v}
        for x in m:
            ps = times(ps, lin_poly(x.a[0]) if x.op == "i2f" else {(x,): 1})
        for k, c in ps.items():
            r[k] = r.get(k, 0) + c
    return {k: c for k, c in r.items() if c}


def times(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(sorted(a + b, key=id))
            r[k] = r.get(k, 0) + x * y
    return r


def lin_poly(t):
    if t.op == "int":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "lin":
        r = {(x,): k for x, k in t.a[1]}
        if t.a[0]:
            r[()] = t.a[0]
        return r
    return {(t,): 1}


def p44(ctx, R):
    path = "interpolate_f64"
    a, b, r = [mk("in0", x) for x in ctx.argnames(path)]
    want = {(a,): 1, tuple(sorted((b, r), key=id)): 1, tuple(sorted((a, r), key=id)): -1}
    for o in ctx.sym(path):
        unit(R, path, o, r, want, a, b, False)
    path = "interpolate_usize"
    a, b, r = [mk("in0", x) for x in ctx.argnames(path)]
    want = {(a,): 1, tuple(sorted((b, r), key=id)): 1, tuple(sorted((a, r), key=id)): -1}
    for o in ctx.sym(path):
        unit(R, path, o, r, want, a, b, True)


def unit(R, path, o, r, want, a, b, whole):
    f = o.F.copy()
    for l in (fcmp("fle", F(0.0), r), fcmp("fle", r, F(1.0))) + ((le(a, b),) if whole else ()):
        f.add(l)
    if f.bad:
        return
    if o.lab != "ret":
        R.need(False, "no-panic", path, "panics (%s) for a ratio in [0,1]" % (o.val,), (o.F,))
        return
    for g, (v,) in splits(f, o.val):
        if g.bad:
            continue
        for w in ends(g, want, a, b, r):
            x = v
            if whole:
                x = truncated(v)
                if x is None:
                    exact = same(g, v, a) and (w == {(a,): 1} or same(g, a, b)) or same(g, v, b) and (w == {(b,): 1} or same(g, a, b))
                    R.need(exact, "integer-part", path, "returns %s" % show(v)[:200], (v,))
                    continue
            R.need(value_poly(x) == w, "interpolation", path, "returns %s" % show(v)[:200], (v,))


def ends(g, want, a, b, r):
    """the polynomial wanted, where the ratio is known to be an end"""
    if g.entails(fcmp("feq", r, F(0.0))):
        return [{(a,): 1}]
    if g.entails(fcmp("feq", r, F(1.0))):
        return [{(b,): 1}]
    return [want]


def truncated(v):
    """the real expression of which v is the integer part; whole numbers may stand outside"""
    if v.op == "f2i":
        return v.a[0]
    if v.op != "lin":
        return None
    x = [(t, k) for t, k in v.a[1] if t.op == "f2i"]
    if len(x) != 1 or x[0][1] != 1:
        return None
    t = x[0][0]
    return fbin("fadd", i2f(sub(v, t)), t.a[0])


# ---------------------------------------------------------------------------------- P45
DISPLAY = "<stats::%s as std::fmt::Display>::fmt"
LABELS = ["Samples: ", "; Min: ", "; Max: ", "; Average: ", "; Variance: ", "; STD: "]
VALUES = ["count", "min", "max", "avg", "var", "std"]


def raw(t):
    m = re.search(r'b"(.*)"\s*$', str(t.a[1]), re.S) if t.op == "const" else None
    if not m:
        return None
    try:
        return ast.literal_eval('b"' + m.group(1) + '"')
    except Exception:
        return None


def template(bs, args):
    """the pieces a format template prints: text, or (argument, precision, other options?)"""
    out, i, nxt = [], 0, 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            return out if i == len(bs) else None
        if n < 0x80:
            out.append(bs[i:i + n].decode())
            i += n
            continue
        if n == 0x80:
            k = int.from_bytes(bs[i:i + 2], "little")
            out.append(bs[i + 2:i + 2 + k].decode())
            i += 2 + k
            continue
        flags = width = prec = None
        if n & 1:
            flags, i = int.from_bytes(bs[i:i + 4], "little"), i + 4
        if n & 2:
            width, i = int.from_bytes(bs[i:i + 2], "little"), i + 2
        if n & 4:
            prec, i = int.from_bytes(bs[i:i + 2], "little"), i + 2
        if n & 8:
            nxt, i = int.from_bytes(bs[i:i + 2], "little"), i + 2
        if nxt >= len(args) or n & 32 and (prec is None or prec >= len(args)):
            return None
        p = args[prec] if n & 32 else prec
        out.append((args[nxt], p, width is not None or n & 16))
        nxt += 1
    return None


def printed(o, fmt):
    """what an outcome writes to the formatter: pieces, or None when some of it is not understood"""
    made, out, precs = {}, [], []
    for e in o.st.ev:
        if e[0] == "borrow" or e[0] == "release":
            continue
        if e[0] != "opaque":
            return None, precs
        name, vals, r = e[2], e[4], e[5]
        if name.endswith("Formatter::precision"):
            precs.append(r)
        elif name.endswith("::from_str") and "Arguments" in name or name.endswith("from_str_nonconst"):
            made[r] = [vals[0]]
        elif "rt::Argument::" in name:
            made[r] = (name.rsplit("::", 1)[1], vals[0])
        elif name.endswith("fmt::Arguments::new"):
            bs = raw(vals[0])
            a = vals[1]
            if bs is None or a.op != "lit" or not all(x in made for x in a.a):
                return None, precs
            made[r] = template(bs, [made[x] for x in a.a])
            if made[r] is None:
                return None, precs
        elif name.endswith("Formatter::write_fmt"):
            ps = made.get(vals[1])
            if ps is None:
                return None, precs
            out += ps
        elif name.endswith("Formatter::write_str"):
            s = text_of(vals[1])
            if s is None:
                return None, precs
            out.append(s)
        else:
            return None, precs
    r = []
    for p in out:
        if is_t(p):
            p = text_of(p)
            if p is None:
                return None, precs
        if isinstance(p, str) and r and isinstance(r[-1], str):
            r[-1] += p
        else:
            r.append(p)
    return r, precs


def text_of(t):
    m = re.search(r'^"(.*)"$', str(t.a[1]), re.S) if t.op == "const" else None
    if not m:
        return None
    try:
        return ast.literal_eval('"' + m.group(1) + '"')
    except Exception:
        return None


def failed_write(o):
    """the path of a write that reported an error"""
    for e in o.st.ev:
        if e[0] == "opaque" and e[2].rsplit("::", 1)[1] in ("write_fmt", "write_str"):
            if o.F.entails(eqi(mk("discr", e[5]), ONE)):
                return True
    return False


def p45(ctx, R):
    for ty in ("PopulatedStats", "Stats"):
        path = DISPLAY % ty
        S = mk("deref", mk("in0", ctx.arg(path, 0)))
        pop = ty == "PopulatedStats"
        for o in ctx.sym(path):
            if o.F.bad or failed_write(o):
                continue
            if o.lab != "ret":
                R.need(False, "no-panic", path, "panics: %s" % (o.val,), (o.F,))
                continue
            ps, precs = printed(o, path)
            c = count_of(ctx, o.F, S, pop)
            if c is not None and not pop:
                if o.F.entails(eqi(c, ZERO)):
                    if ps is None:
                        R.undecided("empty-prints-nothing", path, "what is written was not understood")
                    else:
                        R.need(ps == [], "empty-prints-nothing", path, "prints %s without samples" % show_ps(ps), ())
                    continue
                if not o.F.entails(lt(ZERO, c)):
                    R.undecided("values", path, "one way for empty and for other statistics")
                    continue
            if ps is None:
                R.undecided("values", path, "what is written was not understood")
                continue
            texts, vals = [p for p in ps if isinstance(p, str)], [p for p in ps if not isinstance(p, str)]
            R.need(ps[::2] == LABELS and ps[1::2] == vals and len(vals) == 6, "labels", path, "prints %s" % show_ps(ps), ())
            if len(vals) != 6 or ps[::2] != LABELS:
                continue
            known = [q for q in precs if o.F.entails(eqi(mk("discr", q), ONE))]
            absent = [q for q in precs if o.F.entails(eqi(mk("discr", q), ZERO))]
            for (a, prec, other), acc in zip(vals, VALUES):
                kind, v = a
                R.need(kind == "new_display" and not other, "plain-format", path, "%s is printed with %s" % (acc, kind if not other else "a width or fill"), ())
                good = all(presents(f, v, x, pop) for f, x in obs(ctx, o.F, S, acc, pop))
                R.need(good, "values", path, "for the %s it prints %s" % (acc, show(v)[:200]), (v,))
                if acc == "count":
                    R.need(prec is None, "count-whole", path, "the count is printed with a precision", ())
                elif known:
                    want = prec is not None and isinstance(prec, tuple) and prec[0] == "from_usize" and any(prec[1] is fld(q, 0, OPT, 1, 1) or same(o.F, prec[1], fld(q, 0, OPT, 1, 1)) for q in known)
                    R.need(want, "precision", path, "the %s is not printed with the requested precision" % acc, ())
                elif absent:
                    R.need(prec is None, "precision", path, "the %s is printed with a precision although none is requested" % acc, ())
                else:
                    R.undecided("precision", path, "the requested precision is not looked at here")


def presents(f, v, x, pop):
    if f.bad:
        return True
    if not pop and x.op == "agg" and x.a[0] == OPT:
        if x.a[1] != 1:
            return False
        x = x.a[2]
    return same(f, v, x)


def show_ps(ps):
    return "".join(p if isinstance(p, str) else "{%s}" % show(p[0][1])[:40] for p in ps)[:300]


RULES = {"P44": p44, "P45": p45}
