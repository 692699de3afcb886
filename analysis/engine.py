"""Path-sensitive abstract interpreter over MIR.

State = memory (location root -> value term), path facts, event trace.  Local functions and closures
are inlined; calls the crate leaves to its user (model hooks, selection mechanisms, callbacks, the
random generator) become events with fresh result symbols; library calls are given by models.py.
Loops - MIR loops as well as iterator consumers - go through one summariser (`summarise`) that finds
the loop-carried locations, solves their recurrences in closed form where it can, infers inductive
bounds, and otherwise leaves a symbol that stands for every possible value."""
import sys
from terms import *
from facts import Facts
from mir import Program, ty_str, strip_generics

sys.setrecursionlimit(20000)


class Limit(Exception):
    """the analysis gave up (too many paths, unsupported construct)"""


FRESH = ("draw", "res", "post", "unk", "phi", "fidx")
TRUEF = TRUE


class State:
    __slots__ = ("mem", "facts", "ev", "ks")

    def __init__(self, mem, facts, ev, ks):
        self.mem, self.facts, self.ev, self.ks = mem, facts, ev, ks

    def fork(self):
        return State(dict(self.mem), self.facts.copy(), self.ev, self.ks)

    def assume(self, l):
        self.facts.add(l)
        return not self.facts.bad

    def emit(self, *e):
        self.ev = self.ev + (e,)


def new_state():
    return State({}, Facts(), (), ())


def ref(root, path=(), mut=False):
    return mk("ref", root, tuple(path), mut)


def compose(path, e):
    """append an element to a location path"""
    if path and path[-1][0] == "sub":
        s = path[-1]
        if e[0] == "ix":
            return path[:-1] + (("ix", add(s[1], e[1])),)
        if e[0] == "sub":
            return path[:-1] + (("sub", add(s[1], e[1]), add(s[1], e[2])),)
    return path + (e,)


# ------------------------------------------------------------------ fact-aware sequence access
def at_f(F, s, i, depth=0):
    r = at(s, i)
    if r.op == "ite" and depth < 6:
        return ite(r.a[0], at_f(F, r.a[1].a[0], r.a[1].a[1], depth + 1) if r.a[1].op == "at" else r.a[1],
                   at_f(F, r.a[2].a[0], r.a[2].a[1], depth + 1) if r.a[2].op == "at" else r.a[2])
    while r.op == "at" and depth < 40:
        depth += 1
        s, i = r.a
        if s.op == "store":
            if F.entails(eqi(i, s.a[1])):
                return s.a[2]
            if F.entails(bnot(eqi(i, s.a[1]))):
                r = at(s.a[0], i)
                continue
            return r
        if s.op == "swapd":
            b, x, y = s.a
            if F.entails(eqi(i, x)):
                r = at(b, y)
                continue
            if F.entails(eqi(i, y)):
                r = at(b, x)
                continue
            if F.entails(bnot(eqi(i, x))) and F.entails(bnot(eqi(i, y))):
                r = at(b, i)
                continue
            return r
        if s.op == "cat":
            pos = ZERO
            hit = None
            for k, x in enumerate(s.a):
                end = add(pos, slen(x))
                if F.entails(lt(i, end)) and F.entails(le(pos, i)):
                    hit = at(x, sub(i, pos))
                    break
                if k == len(s.a) - 1 and F.entails(le(pos, i)):
                    hit = at(x, sub(i, pos))
                    break
                pos = end
            if hit is None:
                return r
            r = hit
            continue
        if s.op == "lit" and i.op != "int" and len(s.a) <= 4:
            k = next((k for k in range(len(s.a)) if F.entails(eqi(i, mk("int", k)))), None)
            if k is not None:
                r = s.a[k]
                continue
        return r
    return r


def store_f(F, s, i, v):
    if v.op == "at" and v.a[0] is s and F.entails(eqi(v.a[1], i)):
        return s
    if s.op == "lit" and i.op == "int" and 0 <= i.a[0] < len(s.a):
        return store(s, i, v)
    if s.op == "cat":
        pos = ZERO
        for k, x in enumerate(s.a):
            end = add(pos, slen(x))
            if F.entails(le(pos, i)) and F.entails(lt(i, end)):
                return cat(*(s.a[:k] + (store_f(F, x, sub(i, pos), v),) + s.a[k + 1:]))
            pos = end
    if s.op == "store" and F.entails(eqi(i, s.a[1])):
        return store_f(F, s.a[0], i, v)
    return store(s, i, v)


def slice_f(F, s, a, b):
    r = slice_(s, a, b)
    if r.op == "slice" and r.a[0].op == "cat":
        s, a, b = r.a
        pos = ZERO
        cuts = [ZERO]
        for x in s.a:
            pos = add(pos, slen(x))
            cuts.append(pos)
        ia = next((k for k, c in enumerate(cuts) if F.entails(eqi(a, c))), None)
        ib = next((k for k, c in enumerate(cuts) if F.entails(eqi(b, c))), None)
        if ia is not None and ib is not None and ia <= ib:
            return cat(*s.a[ia:ib])
        # inside one segment
        for k, x in enumerate(s.a):
            if F.entails(le(cuts[k], a)) and F.entails(le(b, cuts[k + 1])):
                return slice_f(F, x, sub(a, cuts[k]), sub(b, cuts[k]))
        # general: cut the segments at a and b
        ka = next((k for k in range(len(s.a)) if F.entails(le(cuts[k], a)) and F.entails(le(a, cuts[k + 1]))), None)
        kb = next((k for k in range(len(s.a)) if F.entails(le(cuts[k], b)) and F.entails(le(b, cuts[k + 1]))), None)
        if ka is not None and kb is not None and ka < kb:
            return cat(slice_f(F, s.a[ka], sub(a, cuts[ka]), slen(s.a[ka])), *s.a[ka + 1:kb],
                       slice_f(F, s.a[kb], ZERO, sub(b, cuts[kb])))
    if r.op == "slice" and F.entails(eqi(r.a[1], r.a[2])):
        return EMPTY
    return r


class Frame:
    __slots__ = ("fn", "fid", "sub", "depth")

    def __init__(self, fn, fid, sub, depth):
        self.fn, self.fid, self.sub, self.depth = fn, fid, sub, depth

    def L(self, n):
        return ("L", self.fid, n)


WIDTH = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31}


def narrow_int(st, v, ty):
    """a cast to an integer type that cannot hold every value: below 32 bits the loss is reachable with ordinary
    sizes and counts and kept as a different value; at 32 bits it is left open"""
    n = ty.get("n")
    if n not in WIDTH or v.op == "int" and 0 <= v.a[0] < 2 ** WIDTH[n]:
        return v
    if WIDTH[n] < 31 and st.facts.entails(le(v, I(2 ** WIDTH[n] - 1))) and st.facts.entails(le(ZERO, v)):
        return v
    return mk("narrow" if WIDTH[n] < 31 else "narrow32", n, v)


def narrow_float(v, ty):
    return mk("f32", v) if ty.get("n") == "f32" and v.op != "fl" else v


class Engine:
    def __init__(self, prog, hooks=(), inline_default=(), max_paths=6000, opaque=()):
        self.p = prog
        self.hooks = set(hooks)
        self.opaque = set(opaque)   # local functions kept as uninterpreted pure functions
        self.inline_default = set(inline_default)
        self._uid = 0
        self._taken = set()
        self._at = {}
        self.max_paths = max_paths
        self.paths = 0
        self.closure_sub = {}
        self.fndefs = {}
        self.unmodelled = {}
        self.visited = {}   # function path -> number of times entered
        self.nloops = 0
        self.stuck = []     # loops without a way out
        self.unroll_lits = False
        self.no_fold = False   # leave recurrences without a closed form other than 'fold' as loop symbols; 2: all but counters
        self.quick = 0      # >0 while only looking for the locations a loop changes
        self.ncalls = 0
        self.cur_fn = None
        import models
        self.models = models

    def new(self):
        self._uid += 1
        while self._uid in self._taken:
            self._uid += 1
        return self._uid

    def new_at(self, st, site, what):
        """number of the symbol for what a call does here: exclusive paths through a loop body
        which make the same call share it, so that what is known of the round before (where
        the paths need not have been told apart) speaks of the same thing"""
        if not st.ks:
            return self.new()
        key = (what, site, st.ks, sum(1 for e in st.ev if len(e) > 1 and e[1] == site))
        n = self._at.get(key)
        if n is None:
            n = self._at[key] = self.new()
            self._taken.add(n)
        self._uid = max(self._uid, n)
        return n

    def fresh(self, st, op, name, *args):
        return mk(op, name, self.new(), st.ks, *args)

    # -------------------------------------------------------------- memory
    def default(self, root):
        if root[0] == "P":
            return mk("in0", root[1])
        if root[0] == "D":
            return mk("deref", root[1])
        return mk("uninit", str(root))

    def mget(self, st, root):
        v = st.mem.get(root)
        return self.default(root) if v is None else v

    def project(self, st, t, e):
        k = e[0]
        if t.op == "ite":
            # decide by facts, otherwise distribute
            if st.facts.entails(t.a[0]):
                return self.project(st, t.a[1], e)
            if st.facts.entails(bnot(t.a[0])):
                return self.project(st, t.a[2], e)
            return ite(t.a[0], self.project(st, t.a[1], e), self.project(st, t.a[2], e))
        if k == "f":
            return fld(t, e[1], *e[2])
        if k == "ix":
            return at_f(st.facts, t, e[1])
        if k == "sub":
            return slice_f(st.facts, t, e[1], e[2])
        if k == "box":
            return t.a[2] if t.op == "agg" and t.a[0] == "Box" else mk("unbox", t)
        if k == "mapv":
            return self.models.map_get(st, t, e[1])
        raise Limit("projection " + str(k))

    def read(self, st, root, path=()):
        t = self.mget(st, root)
        for e in path:
            t = self.project(st, t, e)
        return t

    def upd(self, st, t, path, v):
        if not path:
            return v
        e, rest = path[0], path[1:]
        k = e[0]
        if k == "f":
            name, var, n = e[2]
            if t.op == "agg":
                ch = list(t.a[2:])
                if len(ch) <= e[1]:
                    ch += [mk("uninit", "f")] * (e[1] + 1 - len(ch))
                name, var = t.a[0], t.a[1]
            else:
                ch = [fld(t, j, name, var, n) for j in range(n)]
            ch[e[1]] = self.upd(st, ch[e[1]], rest, v)
            return agg(name, var, *ch)
        if k == "ix":
            return store_f(st.facts, t, e[1], self.upd(st, at_f(st.facts, t, e[1]), rest, v))
        if k == "sub":
            a, b = e[1], e[2]
            F = st.facts
            return cat(slice_f(F, t, ZERO, a), self.upd(st, slice_f(F, t, a, b), rest, v), slice_f(F, t, b, slen(t)))
        if k == "box":
            inner = t.a[2] if t.op == "agg" and t.a[0] == "Box" else mk("unbox", t)
            return mk("agg", "Box", 0, self.upd(st, inner, rest, v))
        if k == "mapv":
            return self.models.map_put(st, t, e[1], self.upd(st, self.models.map_get(st, t, e[1]), rest, v))
        raise Limit("update " + str(k))

    def write(self, st, root, path, v):
        st.mem[root] = self.upd(st, self.mget(st, root), path, v) if path else v

    def deref(self, st, v):
        """(root, path) a reference-like value points to"""
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op == "boxref":
            return v.a[0], v.a[1] + (("box",),)
        if v.op == "agg" and v.a[0] == "Box":
            r = ("H", self.new())
            st.mem[r] = v
            return r, (("box",),)
        return ("D", v), ()

    def load(self, st, v):
        """value behind a reference"""
        if v.op == "ite":
            return ite(v.a[0], self.load(st, v.a[1]), self.load(st, v.a[2]))
        r, p = self.deref(st, v)
        return self.read(st, r, p)

    def heap(self, st, v):
        r = ("H", self.new())
        st.mem[r] = v
        return r

    # -------------------------------------------------------------- places and operands
    def place(self, fr, st, p):
        root, path = fr.L(p[0]), ()
        for e in p[1]:
            if e == "*":
                v = self.read(st, root, path)
                if v.op == "ite":
                    if st.facts.entails(v.a[0]):
                        v = v.a[1]
                    elif st.facts.entails(bnot(v.a[0])):
                        v = v.a[2]
                root, path = self.deref(st, v)
            elif "f" in e:
                path = compose(path, ("f", e["f"], (e.get("ad", "?"), e.get("v", 0), e.get("n", 0))))
            elif "i" in e:
                path = compose(path, ("ix", self.read(st, fr.L(e["i"]))))
            elif "ci" in e:
                n = slen(self.read(st, root, path))
                path = compose(path, ("ix", sub(n, I(e["ci"])) if e["fe"] else I(e["ci"])))
            elif "sub" in e:
                n = slen(self.read(st, root, path))
                path = compose(path, ("sub", I(e["sub"][0]), sub(n, I(e["sub"][1])) if e["fe"] else I(e["sub"][1])))
            elif "dc" in e:
                pass
            else:
                raise Limit("place projection %r" % (e,))
        return root, path

    def local_ty(self, fr, p):
        """static type of a place (None when unknown)"""
        t = fr.fn.locals[p[0]]["ty"]
        for e in p[1]:
            if e == "*":
                t = t.get("t") if t and t.get("k") in ("ref", "rawptr") else None
            elif isinstance(e, dict) and "f" in e:
                t = e.get("t")
            elif isinstance(e, dict) and "dc" in e:
                pass
            else:
                t = t.get("t") if t else None
        return t

    def const(self, fr, st, c):
        ty = c["ty"]
        if "callee" in c:
            ca = dict(c["callee"])
            ca["a"] = [self.p.norm_ty(x, fr.sub) for x in ca.get("a") or []]
            if ca.get("self"):
                ca["self"] = self.p.norm_ty(ca["self"], fr.sub)
            if ca.get("ctor"):
                return self.fndef(ca)
            return self.fndef(ca)
        if "promoted" in c:
            f = self.p.get(c["of"]) or fr.fn
            body = f.promoted[c["promoted"]]
            pf = PromFn(f, body)
            outs = self.run_body(pf, st, [], fr.sub, fr.depth + 1)
            rets = [o for o in outs if o[0] == "ret"]
            if len(rets) != 1:
                raise Limit("promoted constant")
            st.mem = rets[0][1].mem
            return rets[0][2]
        k = ty.get("k")
        v = c.get("v")
        if v is not None:
            if k == "bool":
                return B(v == "1")
            if k in ("int", "uint"):
                return I(int(v))
            if k == "float":
                x = v.lower()
                return F(float({"inf": "inf", "-inf": "-inf", "nan": "nan"}.get(x, x)))
            if k == "char":
                return mk("const", "char", v)
        if c.get("static") and c["static"] in self.p.fns and "mutability: Not" in self.p.fns[c["static"]].d.get("kind", ""):
            # a read-only static: a reference to the value its initialiser has
            root = ("S", c["static"])
            if root not in st.mem:
                v = self.constant_body(st, fr, self.p.fns[c["static"]])
                if v is not None:
                    st.mem[root] = v
            if root in st.mem:
                return ref(root, (), False)
        if c.get("uneval") in self.p.fns and k in ("adt", "tuple", "array", "ref") and not (k == "tuple" and not ty["a"]):
            v = self.constant_body(st, fr, self.p.fns[c["uneval"]])
            if v is not None:
                return v
        if k == "tuple" and not ty["a"]:
            return UNIT
        if k == "closure":
            self.closure_sub[ty["p"]] = fr.sub
            return mk("agg", ty["p"], 0)
        if c.get("s") is not None and k == "adt" and c["s"].split("::")[-1] == "None":
            return NONE
        return mk("const", ty_str(ty), c.get("s") or "?")

    def constant_body(self, st, fr, f):
        """value of a constant or read-only static of the crate, None if it has no plain value"""
        import json
        tys = json.dumps(f.locals[0].get("ty") if f.locals else None)
        if any(x in tys for x in ("Cell", "Mutex", "RwLock", "Atomic", "Lock", "Lazy")):
            return None
        try:
            outs = self.run_body(f, st, [], fr.sub, fr.depth + 1)
        except Limit:
            return None
        rets = [o for o in outs if o[0] == "ret"]
        if len(rets) != 1 or len(outs) != 1:
            return None
        st.mem = rets[0][1].mem
        return rets[0][2]

    def fndef(self, ca):
        import json
        key = json.dumps(ca, sort_keys=True)
        t = mk("fndef", key)
        self.fndefs[t] = ca
        return t

    def operand(self, fr, st, o):
        if "c" in o:
            return self.const(fr, st, o["c"])
        p = o.get("cp") or o.get("mv")
        if p is None:
            raise Limit("operand %r" % (o,))
        root, path = self.place(fr, st, p)
        if "cp" in o:
            t = self.local_ty(fr, p)
            if t and t.get("k") == "adt" and t["p"] == "std::boxed::Box":
                v = self.read(st, root, path)
                if v.op == "boxref":
                    return v
                return mk("boxref", root, path)
        return self.read(st, root, path)

    # -------------------------------------------------------------- rvalues: list of (state, value)
    def rvalue(self, fr, st, r):
        k = r["r"]
        if k == "use":
            return [(st, self.operand(fr, st, r["o"]))]
        if k == "ref":
            p = r["p"]
            root, path = self.place(fr, st, p)
            v = ref(root, path, bool(r["m"]))
            if root[0] == "D" and not path:
                # reborrow of an opaque reference is that reference
                return [(st, root[1])]
            return [(st, v)]
        if k == "raw":
            root, path = self.place(fr, st, r["p"])
            if root[0] == "D" and not path:
                return [(st, root[1])]
            return [(st, ref(root, path, True))]
        if k == "cast":
            v = self.operand(fr, st, r["o"])
            p = r["o"].get("cp") or r["o"].get("mv")
            if r["c"].startswith("IntToInt") and p is not None and (self.local_ty(fr, p) or {}).get("k") == "bool":
                return [(st, ite(v, ONE, ZERO))]
            return [(st, self.cast(st, r["c"], v, r.get("ty") or {}))]
        if k == "bin":
            a = self.operand(fr, st, r["a"])
            b = self.operand(fr, st, r["b"])
            return self.binop(st, r["op"], a, b, self.p.norm_ty(r.get("ty") or {}, fr.sub))
        if k == "un":
            o = r.get("o") or r.get("a")
            v = self.operand(fr, st, o)
            op = r["op"]
            if op == "Not":
                return [(st, bnot(v))] if (r.get("ty") or {}).get("k") == "bool" else [(st, mk("inot", v))]
            if op == "Neg":
                if (r.get("ty") or {}).get("k") == "float":
                    return [(st, F(-v.a[0]) if v.op == "fl" else mk("fneg", v))]
                return [(st, scale(v, -1))]
            if op == "PtrMetadata":
                if v.op == "ite":
                    return [(st, slen(self.load(st, v)))]
                root, path = self.deref(st, v)
                return [(st, slen(self.read(st, root, path)))]
            return [(st, mk("unop", op, v))]
        if k == "discr":
            root, path = self.place(fr, st, r["p"])
            t = self.read(st, root, path)
            return [(st, self.discr(st, t, self.p.norm_ty(r.get("ty") or {}, fr.sub)))]
        if k == "agg":
            xs = [self.operand(fr, st, o) for o in r["os"]]
            kd = r["kind"]
            if kd == "array":
                return [(st, lit(*xs))]
            if kd == "tuple":
                return [(st, tup(*xs) if xs else UNIT)]
            if kd == "adt":
                return [(st, agg(r["adt"], r["variant"], *xs))]
            if kd == "closure":
                self.closure_sub[r["closure"]] = fr.sub
                return [(st, mk("agg", r["closure"], 0, *xs))]
            return [(st, mk("unk", "agg", self.new(), st.ks))]
        if k == "repeat":
            v = self.operand(fr, st, r["o"])
            n = r["n"].split("_")[0]
            return [(st, rep(v, I(int(n))) if n.isdigit() else mk("unk", "repeat", self.new(), st.ks))]
        if k == "other" and r.get("s", "").startswith("Len("):
            raise Limit("Len rvalue")
        return [(st, mk("unk", r.get("s", k)[:40], self.new(), st.ks))]

    def discr(self, st, t, ty):
        p = ty.get("p") if ty.get("k") == "adt" else None
        if t.op == "agg":
            return I(t.a[1] - 1) if t.a[0] == ORD else I(t.a[1])
        if t.op == "ite":
            return ite(t.a[0], self.discr(st, t.a[1], ty), self.discr(st, t.a[2], ty))
        if p == ORD:
            d = mk("sint", t)
            st.assume(le(d, ONE))
            st.assume(le(I(-1), d))
            return d
        d = mk("discr", t)
        n = None
        if p in self.p.adts:
            n = len(self.p.adts[p]["variants"])
        elif p in (OPT, RES):
            n = 2
        if n:
            st.assume(le(d, I(n - 1)))
        return d

    def cast(self, st, c, v, ty):
        if c.startswith("IntToFloat"):
            return narrow_float(i2f(v), ty)
        if c.startswith("FloatToInt"):
            return narrow_int(st, f2i(v), ty)
        if c.startswith("FloatToFloat"):
            return narrow_float(v, ty)
        if c.startswith("IntToInt"):
            if v.op == "bool" or v.op in ("not", "le0", "eq0", "and", "or", "flt", "fle", "feq", "peq", "in"):
                return ite(v, ONE, ZERO)
            return narrow_int(st, v, ty)
        if "BoxDerefTransmute" in c or c == "Transmute":
            if v.op == "fld" and v.a[0].op == "boxref":
                b = v.a[0]
                return ref(b.a[0], b.a[1] + (("box",),), True)
            if v.op == "fld" and v.a[0].op == "agg" and v.a[0].a[0] == "Box":
                r = self.heap(st, v.a[0])
                return ref(r, (("box",),), True)
            return v
        return v

    def binop(self, st, op, a, b, ty):
        k = ty.get("k")
        if k == "float":
            m = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv"}.get(op)
            if m:
                return [(st, fbin(m, a, b))]
            m = {"Lt": lambda: fcmp("flt", a, b), "Gt": lambda: fcmp("flt", b, a), "Le": lambda: fcmp("fle", a, b),
                 "Ge": lambda: fcmp("fle", b, a), "Eq": lambda: fcmp("feq", a, b), "Ne": lambda: bnot(fcmp("feq", a, b))}.get(op)
            if m:
                return [(st, m())]
            return [(st, mk("fop", op, a, b))]
        if k == "bool":
            if op in ("Eq", "Ne"):
                e = bor(band(a, b), band(bnot(a), bnot(b)))
                return [(st, e if op == "Eq" else bnot(e))]
            if op == "BitAnd":
                return [(st, band(a, b))]
            if op == "BitOr":
                return [(st, bor(a, b))]
            if op == "BitXor":
                return [(st, bor(band(a, bnot(b)), band(bnot(a), b)))]
            return [(st, mk("bop", op, a, b))]
        if k in ("int", "uint", "char", None):
            uns = k != "int"
            if op in ("Add", "AddUnchecked"):
                return [(st, add(a, b))]
            if op in ("Sub", "SubUnchecked"):
                return [(st, sub(a, b))]
            if op in ("Mul", "MulUnchecked"):
                return [(st, mul(a, b))]
            if op == "AddWithOverflow":
                return [(st, tup(add(a, b), FALSE))]
            if op == "MulWithOverflow":
                return [(st, tup(mul(a, b), FALSE))]
            if op == "SubWithOverflow":
                return [(st, tup(sub(a, b), lt(a, b) if uns else FALSE))]
            if op == "Div":
                return [(st, self.idiv(st, a, b))]
            if op == "Rem":
                return self.rem(st, a, b)
            m = {"Lt": lambda: lt(a, b), "Gt": lambda: lt(b, a), "Le": lambda: le(a, b), "Ge": lambda: le(b, a),
                 "Eq": lambda: eqi(a, b), "Ne": lambda: bnot(eqi(a, b))}.get(op)
            if m:
                return [(st, m())]
            if op == "Shr" and b.op == "int":
                return [(st, self.idiv(st, a, I(2 ** b.a[0])))]
            if op == "Shl" and b.op == "int":
                return [(st, scale(a, 2 ** b.a[0]))]
            return [(st, mk("iop", op, a, b))]
        if op in ("Eq", "Ne"):
            e = peq(a, b)
            return [(st, e if op == "Eq" else bnot(e))]
        return [(st, mk("binop", op, a, b))]

    def idiv(self, st, a, b):
        if a.op == "int" and b.op == "int" and b.a[0] > 0:
            return I(a.a[0] // b.a[0])
        return ONE if a is b else mk("idiv", a, b)

    def rem(self, st, a, n):
        if a.op == "int" and n.op == "int" and n.a[0] > 0:
            return [(st, I(a.a[0] % n.a[0]))]
        F = st.facts
        if F.entails(lt(a, n)):
            return [(st, a)]
        if F.entails(lt(a, scale(n, 2))):
            out = []
            s1 = st.fork()
            if s1.assume(lt(a, n)):
                out.append((s1, a))
            if st.assume(le(n, a)):
                r = sub(a, n)
                out.append((st, ZERO if st.facts.entails(le(r, ZERO)) else r))
            return out
        return [(st, mk("mod", a, n))]

    # -------------------------------------------------------------- running functions
    def run(self, path, st, args, sub=None):
        f = self.p.get(path)
        if f is None:
            raise Limit("function %s not found" % path)
        return self.run_body(f, st, args, sub or {}, 0)

    def run_body(self, f, st, args, sub, depth):
        if depth > 60:
            raise Limit("inlining depth")
        fr = Frame(f, self.new(), sub, depth)
        self.visited[f.path] = self.visited.get(f.path, 0) + 1
        for i, a in enumerate(args):
            st.mem[fr.L(i + 1)] = a
        base = st.facts.copy()
        outs = []
        for lab, s, x in self.explore(fr, st, 0, None):
            if lab == "ret":
                self.collect(s, fr.fid, x)
                outs.append(("ret", s, x))
            elif lab == "panic":
                outs.append((lab, s, x))
            else:
                raise Limit("stray label " + lab)
        return self.join(outs, base) if depth and len(outs) > 1 else outs

    def collect(self, s, fid, x):
        """drop the locations a finished call leaves unreachable"""
        dead = {r for r in s.mem if r[0] in ("L", "H") and r[1] >= fid}
        if not dead:
            return
        todo = set(roots(x)) if is_t(x) else set()
        for r, v in s.mem.items():
            if r not in dead:
                todo |= roots(v)
                if r[0] == "D":
                    todo |= roots(r[1])
        while todo:
            r = todo.pop()
            if r in dead:
                dead.discard(r)
                todo |= roots(s.mem[r])
        for r in dead:
            del s.mem[r]

    def join(self, outs, base):
        """one outcome for the paths of a call that differ only in the value returned, provided the
        value's decision tree carries everything the paths know"""
        import loops
        rets = [o for o in outs if o[0] == "ret"]
        if len(rets) < 2:
            return outs
        groups = []
        for o in rets:
            for g in groups:
                if g[0][1].ev == o[1].ev and g[0][1].mem == o[1].mem:
                    g.append(o)
                    break
            else:
                groups.append([o])
        res = [o for o in outs if o[0] != "ret"]
        for g in groups:
            m = self.join_group(g, base) if 1 < len(g) <= 12 else None
            res += [m] if m else g
        return res

    def join_group(self, g, base):
        import loops
        cs = [(s.facts, loops.new_lits(s.facts, base), x) for _, s, x in g]
        conds = set()
        v = loops.merge(cs, conds)
        if v is None:
            return None
        common = [l for l in cs[0][1] if all(l in c[0].lits for c in cs)]
        F0 = base.copy()
        for l in common:
            F0.add(l)
        for F, new, _ in cs:
            F1 = F0.copy()
            for c in conds:
                if c in F.lits:
                    F1.add(c)
                elif bnot(c) in F.lits:
                    F1.add(bnot(c))
            for l in new:
                if l not in F1.lits and not F1.entails(l):
                    return None
        s = g[0][1].fork()
        s.facts = F0
        return ("ret", s, v)

    def explore(self, fr, st, start, loop):
        """run from block `start`; loop = (header, blocks) while summarising that loop"""
        out = []
        work = [(start, st, True)]
        loops = fr.fn.loops()
        while work:
            b, s, first = work.pop()
            if s.facts.bad:
                continue
            self.paths += 1
            if self.paths > self.max_paths * 50:
                raise Limit("too many paths")
            if loop and not (first and b == start):
                if b == loop[0]:
                    out.append(("back", s, None))
                    continue
                if b not in loop[1]:
                    out.append(("exit", s, b))
                    continue
            if b in loops and not (loop and b == loop[0]):
                for lab, s2, x in self.mir_loop(fr, s, b, loops[b]):
                    if lab == "exit":
                        work.append((x, s2, False))
                    else:
                        out.append((lab, s2, x))
                continue
            for kind, s2, x in self.block(fr, s, b):
                if kind == "goto":
                    work.append((x, s2, False))
                else:
                    out.append((kind, s2, x))
            if len(work) + len(out) > self.max_paths:
                raise Limit("too many paths in " + fr.fn.path)
        return out

    def mir_loop(self, fr, st, header, blocks):
        def body(s):
            return self.explore(fr, s, header, (header, blocks))
        t = fr.fn.blocks[header]["t"]
        return self.summarise(st, body, "%s@%s" % (fr.fn.path, t.get("sp", "?")), frame=fr.fid)

    def block(self, fr, st, b):
        """execute one basic block; list of ('goto',state,block) / ('ret',..) / ('panic',..)"""
        blk = fr.fn.blocks[b]
        states = [st]
        for s in blk["s"]:
            if "v" not in s:
                if "setdiscr" in s:
                    raise Limit("set discriminant")
                continue
            nxt = []
            for x in states:
                for y, v in self.rvalue(fr, x, s["v"]):
                    if y.facts.bad:
                        continue
                    root, path = self.place(fr, y, s["p"])
                    self.write(y, root, path, v)
                    nxt.append(y)
            states = nxt
        out = []
        for s in states:
            out += self.terminator(fr, s, blk["t"])
        return out

    def branch(self, st, cond):
        """[(state, bool)] split on a boolean term"""
        if cond is TRUE:
            return [(st, True)]
        if cond is FALSE:
            return [(st, False)]
        if cond.op == "ite":
            out = []
            for s, v in self.branch(st, cond.a[0]):
                out += self.branch(s, cond.a[1] if v else cond.a[2])
            return out
        if st.facts.entails(cond):
            return [(st, True)]
        if st.facts.entails(bnot(cond)):
            return [(st, False)]
        s2 = st.fork()
        out = []
        if st.assume(cond):
            out.append((st, True))
        if s2.assume(bnot(cond)):
            out.append((s2, False))
        return out

    def split_int(self, st, v):
        """resolve ite-valued integers"""
        if v.op != "ite":
            return [(st, v)]
        out = []
        for s, c in self.branch(st, v.a[0]):
            out += self.split_int(s, v.a[1] if c else v.a[2])
        return out

    def terminator(self, fr, st, t):
        k = t["k"]
        if k == "goto":
            return [("goto", st, t["t"])]
        if k == "return":
            return [("ret", st, self.mget(st, fr.L(0)))]
        if k == "unreachable":
            return []
        if k == "switch":
            out = []
            v0 = self.operand(fr, st, t["o"])
            ty = t.get("ty") or {}
            if ty.get("k") == "bool":
                for s, c in self.branch(st, v0):
                    val = "1" if c else "0"
                    tg = next((b for x, b in t["ts"] if x == val), t["else"])
                    out.append(("goto", s, tg))
                return out
            bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(ty.get("n"))
            for s, v in self.split_int(st, v0):
                rest = s
                alive = True
                for x, b in t["ts"]:
                    n = int(x)
                    if bits and n >= 1 << (bits - 1):
                        n -= 1 << bits
                    c = eqi(v, I(n))
                    r = self.branch(rest, c)
                    nxt = None
                    for s2, yes in r:
                        if yes:
                            out.append(("goto", s2, b))
                        else:
                            nxt = s2
                    if nxt is None:
                        alive = False
                        break
                    rest = nxt
                if alive:
                    out.append(("goto", rest, t["else"]))
            return out
        if k == "assert":
            cond = self.operand(fr, st, t["o"])
            want = cond if t["exp"] else bnot(cond)
            out = []
            for s, c in self.branch(st, want):
                if c:
                    out.append(("goto", s, t["t"]))
                else:
                    out.append(("panic", s, (t["msg"], t["sp"], fr.fn.path)))
            return out
        if k == "drop":
            root, path = self.place(fr, st, t["p"])
            v = self.read(st, root, path)
            self.models.drop(self, st, v, t["sp"])
            return [("goto", st, t["t"])]
        if k == "call":
            return self.call_term(fr, st, t)
        if k == "unwind":
            return []
        raise Limit("terminator " + k)

    def call_term(self, fr, st, t):
        args = [self.operand(fr, st, a) for a in t["args"]]
        tys = [self.p.norm_ty(x, fr.sub) for x in t["tys"]]
        f = t["f"]
        site = (t["sp"], fr.fn.path)
        self.ncalls += 1
        if "c" in f:
            ca = f["c"].get("callee")
            fv = self.const(fr, st, f["c"])
            outs = self.call_def(fr, st, self.fndefs.get(fv, ca), args, tys, site, self.p.norm_ty(t.get("dty") or {}, fr.sub))
        else:
            fv = self.operand(fr, st, f)
            outs = self.call_value(st, fv, args, site, fr.depth)
        res = []
        for lab, s, v in outs:
            if s.facts.bad:
                continue
            if lab == "panic":
                res.append(("panic", s, v))
                continue
            if t["t"] is None:
                res.append(("panic", s, ("diverging call", t["sp"], fr.fn.path)))
                continue
            root, path = self.place(fr, s, t["d"])
            self.write(s, root, path, v)
            res.append(("goto", s, t["t"]))
        return res

    # -------------------------------------------------------------- calls
    def call_value(self, st, f, args, site, depth=0, fr=None):
        """call a function value with a list of arguments"""
        if f.op == "ref":
            inner = self.load(st, f)
            if inner.op == "agg" and self.p.get(inner.a[0]):
                return self.call_closure(st, inner, f, args, site, depth)
            f = inner
        if f.op == "agg" and isinstance(f.a[0], str) and self.p.get(f.a[0]):
            return self.call_closure(st, f, None, args, site, depth)
        if f.op == "fndef":
            ca = self.fndefs[f]
            return self.call_def(None, st, ca, args, [None] * len(args), site, {}, depth)
        if f.op == "deref":
            f = f.a[0]
        vals = tuple(tup(*[self.snapshot(st, a) for a in args]).a[2:])
        r = self.fresh(st, "res", "callback", f, *vals)
        st.emit("callback", site, f, tuple(args), vals, r)
        return [("ret", st, r)]

    def snapshot(self, st, a):
        """the value an argument denotes at the moment of the call (references are followed)"""
        if a.op == "ref":
            return self.read(st, a.a[0], a.a[1])
        if a.op == "agg" and a.a[0] in (OPT, "()"):
            return mk("agg", a.a[0], a.a[1], *[self.snapshot(st, x) for x in a.a[2:]])
        return a

    def call_closure(self, st, clo, r, args, site, depth):
        f = self.p.get(clo.a[0])
        ty1 = f.locals[1]["ty"]
        if ty1.get("k") == "ref":
            if r is None:
                r = ref(self.heap(st, clo), (), True)
            env = r
        else:
            env = clo
        return self.run_body(f, st, [env] + list(args), self.closure_sub.get(clo.a[0], {}), depth + 1)

    def call_def(self, fr, st, ca, args, tys, site, dty, depth=None):
        depth = fr.depth if fr is not None else (depth or 0)
        sub = fr.sub if fr is not None else {}
        if ca.get("ctor"):
            # tuple struct / variant constructor used as a function
            return [("ret", st, self.models.ctor(self, ca, args))]
        tr, name = ca.get("trait"), ca.get("name")
        if tr:
            selfty = ca.get("self") or {}
            if tr in ("std::ops::FnMut", "std::ops::Fn", "std::ops::FnOnce"):
                tupv = args[1]
                n = None
                if tupv.op == "agg":
                    xs = list(tupv.a[2:])
                else:
                    t1 = tys[1] or {}
                    n = len(t1.get("a") or [])
                    xs = [fld(tupv, i, "()", 0, n) for i in range(n)]
                return self.call_value(st, args[0], xs, site, depth)
            m, u = self.p.find_method(tr, name, selfty)
            if m is not None:
                own = [g for g in m.generics if g not in u]
                s2 = dict(u)
                tail = (ca.get("a") or [])
                if own and len(tail) >= len(own):
                    for g, t in zip(own, tail[-len(own):]):
                        s2[g] = t
                return self.run_body(m, st, args, s2, depth + 1)
            if tr in self.p.traits:
                key = (tr, name)
                d = self.p.get(tr + "::" + name)
                if key in self.hooks and key not in self.inline_default:
                    return self.hook(st, tr, name, selfty, args, tys, site, dty)
                if d is not None:
                    s2 = dict(zip(d.generics, ca.get("a") or []))
                    return self.run_body(d, st, args, s2, depth + 1)
                return self.hook(st, tr, name, selfty, args, tys, site, dty)
            r = self.models.call_trait(self, fr, st, ca, tr, name, selfty, args, tys, site, dty, depth)
            if r is not None:
                return r
        if ca.get("rlocal") or (ca.get("local") and not tr):
            m = self.p.get(ca.get("res") or ca["fn"])
            if m is not None and m.path in self.opaque:
                vals = [self.snapshot(st, a) for a in args]
                for i, a in enumerate(args):
                    if a.op == "ref" and a.a[2]:
                        self.write(st, a.a[0], a.a[1], mk("call", "%s.%d" % (m.path, i), *vals))
                return [("ret", st, mk("call", m.path, *vals))]
            if m is not None:
                s2 = dict(zip(m.generics, ca.get("a") or []))
                return self.run_body(m, st, args, s2, depth + 1)
        r = self.models.call_fn(self, fr, st, ca, args, tys, site, dty, depth)
        if r is not None:
            return r
        nm = ca.get("res") or ca["fn"]
        self.unmodelled[nm] = self.unmodelled.get(nm, 0) + 1
        return self.opaque_call(st, "call:" + strip_generics(nm), args, tys, site)

    def opaque_call(self, st, name, args, tys, site):
        """nothing is known about the callee: fresh result, every &mut argument forgotten"""
        vals = tuple(self.snapshot(st, a) for a in args)
        r = self.fresh(st, "unk", name, *vals)
        for i, a in enumerate(args):
            if a.op == "ref" and a.a[2]:
                self.write(st, a.a[0], a.a[1], mk("unk", name + ".arg%d" % i, self.new(), st.ks, vals[i]))
        st.emit("opaque", site, name, tuple(args), vals, r)
        return [("ret", st, r)]

    def is_rng_ty(self, ty):
        if not ty:
            return False
        if ty.get("k") == "ref":
            return self.is_rng_ty(ty["t"])
        if ty.get("k") == "alias":
            return ty.get("name") == "Rng"
        if ty.get("k") == "param":
            return ty["n"] in ("R", "Rng", "RNG") or ty["n"] in self.p.rng_params()
        return False

    PURE = {("individual::Individual", "fitness"), ("individual::Individual", "is_valid")}

    def hook(self, st, tr, name, selfty, args, tys, site, dty):
        """a method the crate's user supplies"""
        short = tr.split("::")[-1] + "::" + name
        vals = tuple(self.snapshot(st, a) for a in args)
        if (tr, name) in self.PURE:
            return [("ret", st, mk(name, vals[0]))]
        if tr.endswith("EvolutionAlgorithm") and name == "model":
            # accessor: a part of the algorithm value
            return [("ret", st, mk("hookref", short, vals[0]))]
        if tr.endswith("EvolutionParameters") and name != "validate":
            return [("ret", st, mk("param", name, vals[0]))]
        r = mk("res", short, self.new_at(st, site, short), st.ks, *vals)
        for i, a in enumerate(args):
            t = tys[i] if i < len(tys) else None
            if a.op == "ref" and a.a[2] and not self.is_rng_ty(t) and (t is None or t.get("mut", True)):
                self.write(st, a.a[0], a.a[1], mk("post", short, self.new_at(st, site, (short, i)), st.ks, i, vals[i]))
            elif a.op != "ref" and t and t.get("k") == "ref" and t.get("mut") and not self.is_rng_ty(t):
                self.write(st, ("D", a), (), mk("post", short, self.new_at(st, site, (short, i)), st.ks, i, self.read(st, ("D", a))))
        res = r
        if dty and dty.get("k") == "tuple" and not dty.get("a"):
            res = UNIT
        st.emit("hook", site, short, tuple(args), vals, r)
        return self.models.hook_result(self, st, short, args, vals, res)

    # -------------------------------------------------------------- loops
    def subst_state(self, st, m, ev_from=0):
        """substitute symbols in a whole state"""
        keys = list(m)

        def hit(t):
            return occurs(t, lambda x: x in m)
        memo = {}
        mem = {}
        for r, v in st.mem.items():
            r2 = subst(r, m, memo) if r[0] == "D" and hit(r[1]) else r
            mem[r2] = subst(v, m, memo)
        F = Facts()
        F._inst = set(st.facts._inst)
        for l in st.facts.order:
            F.add(subst(l, m, memo))
        if st.facts.bad:
            F.bad = True
        ev = st.ev[:ev_from] + subst(st.ev[ev_from:], m, memo)
        return State(mem, F, ev, st.ks)

    def summarise(self, st0, body, site, frame=None, it=None):
        import loops
        return loops.summarise(self, st0, body, site, frame, it)


class PromFn:
    """a promoted constant as a function body"""

    def __init__(self, f, d):
        self.path = f.path + "{promoted}"
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = 0
        self.generics = []
        self.promoted = f.promoted
        self._loops = {}
        self.d = d

    def loops(self):
        return {}
