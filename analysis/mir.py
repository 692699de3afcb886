"""Program database over the MIR dump: functions, types, trait resolution, control flow."""
import re


def strip_generics(p):
    """`std::vec::Vec::<T, A>::len` -> `std::vec::Vec::len` (keeps `<impl X>` forms)"""
    out, i, n = [], 0, len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d, j = 0, i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Fn:
    def __init__(self, d):
        self.d = d
        self.path = d["path"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.generics = d.get("generics") or []
        self.promoted = d.get("promoted") or []
        self._loops = None

    def __repr__(self):
        return "Fn(%s)" % self.path

    @property
    def is_closure(self):
        return self.d["kind"] == "Closure"

    def loops(self):
        if self._loops is None:
            self._loops = find_loops(self.blocks)
        return self._loops


def succs(t):
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["t"]]
    if k == "call":
        return [t["t"]] if t["t"] is not None else []
    if k == "switch":
        return [b for _, b in t["ts"]] + [t["else"]]
    return []


def find_loops(blocks):
    """natural loops: header -> set of blocks (reducible control flow)"""
    n = len(blocks)
    # depth-first order, back edges by dominators
    order, seen, st = [], set(), [(0, iter(succs(blocks[0]["t"])))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(blocks[s]["t"]))))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(blocks[b]["t"]):
            preds[s].append(b)
    dom = {rpo[0]: rpo[0]}
    ch = True

    def inter(a, b):
        while a != b:
            while pos[a] > pos[b]:
                a = dom[a]
            while pos[b] > pos[a]:
                b = dom[b]
        return a

    while ch:
        ch = False
        for b in rpo[1:]:
            nd = None
            for p in preds[b]:
                if p in dom:
                    nd = p if nd is None else inter(p, nd)
            if dom.get(b) != nd:
                dom[b] = nd
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = dom[b]

    loops = {}
    for b in rpo:
        for s in succs(blocks[b]["t"]):
            if dominates(s, b):
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += preds[x]
    return loops


def ty_subst(t, m):
    if not isinstance(t, dict):
        return t
    if t.get("k") == "param" and t["n"] in m:
        return m[t["n"]]
    r = dict(t)
    if "a" in r:
        r["a"] = [ty_subst(x, m) for x in r["a"]]
    if "t" in r:
        r["t"] = ty_subst(r["t"], m)
    return r


def ty_unify(p, t, m):
    """bind the params of pattern p so that it equals t"""
    if p is None or t is None:
        return False
    if p.get("k") == "param":
        m.setdefault(p["n"], t)
        return True
    if p.get("k") != t.get("k"):
        return False
    if p["k"] == "adt":
        if p["p"] != t["p"]:
            return False
        return all(ty_unify(x, y, m) for x, y in zip(p["a"], t["a"]))
    if p["k"] in ("ref", "slice", "array", "rawptr"):
        return ty_unify(p["t"], t["t"], m)
    if p["k"] == "tuple":
        return len(p["a"]) == len(t["a"]) and all(ty_unify(x, y, m) for x, y in zip(p["a"], t["a"]))
    if p["k"] in ("int", "uint", "float"):
        return p["n"] == t["n"]
    return True


def ty_str(t):
    if t is None:
        return "?"
    k = t.get("k")
    if k == "adt":
        a = ",".join(ty_str(x) for x in t["a"])
        return t["p"].split("::")[-1] + ("<" + a + ">" if a else "")
    if k == "ref":
        return "&" + ("mut " if t["mut"] else "") + ty_str(t["t"])
    if k == "slice":
        return "[" + ty_str(t["t"]) + "]"
    if k == "tuple":
        return "(" + ",".join(ty_str(x) for x in t["a"]) + ")"
    return t.get("n") or t.get("s") or t.get("p") or k


class Program:
    def __init__(self, dump):
        self.dump = dump
        self.fns = {}
        for f in dump["fns"]:
            self.fns[f["path"]] = Fn(f)
        self.adts = {a["path"]: a for a in dump["adts"]}
        self.impls = dump["impls"]
        self.traits = {t["path"]: t for t in dump["traits"]}
        self.methods = {}  # (trait, name) -> [Fn]
        for f in self.fns.values():
            if f.d.get("impl_trait"):
                self.methods.setdefault((f.d["impl_trait"], f.d["name"]), []).append(f)
        self.assoc = {}
        for i in self.impls:
            for n, t in i.get("types") or []:
                self.assoc.setdefault((i["trait"], n), []).append((i["self"], t))

    def norm_ty(self, t, m=None):
        """substitute params and normalise projections whose self type has a local impl"""
        if not isinstance(t, dict):
            return t
        k = t.get("k")
        if k == "param":
            return m[t["n"]] if m and t["n"] in m else t
        r = dict(t)
        if "a" in r:
            r["a"] = [self.norm_ty(x, m) for x in r["a"]]
        if "t" in r:
            r["t"] = self.norm_ty(r["t"], m)
        if k == "alias" and r.get("name"):
            for pat, ty in self.assoc.get((r["trait"], r["name"]), []):
                u = {}
                if r["a"] and r["a"][0].get("k") == "adt" and ty_unify(pat, r["a"][0], u):
                    return self.norm_ty(ty, u)
        return r

    def find_method(self, trait, name, selfty):
        for f in self.methods.get((trait, name), []):
            u = {}
            if selfty.get("k") not in ("param", "alias", "dyn") and ty_unify(f.d["impl_self"], selfty, u):
                return f, u
        return None, None

    def rng_params(self):
        """names of type parameters bound to be random generators"""
        if not hasattr(self, "_rngs"):
            self._rngs = set()
            other = set()
            for f in self.fns.values():
                mine = {x[0].get("n") for x in f.d.get("preds") or [] if x[0].get("k") == "param" and x[1] in ("rand::Rng", "rand::RngCore", "rand_core::RngCore")}
                self._rngs |= mine
                other |= {x[0].get("n") for x in f.d.get("preds") or [] if x[0].get("k") == "param"} - mine
            self._rngs -= other
        return self._rngs

    def by_suffix(self, suf):
        r = [f for p, f in self.fns.items() if p.endswith(suf)]
        return r

    def get(self, path):
        f = self.fns.get(path)
        if f is None:
            # renamed generic parameters or implementation headers do not change what is meant
            if not hasattr(self, "_skel"):
                self._skel = {}
                for p, g in self.fns.items():
                    self._skel.setdefault(skeleton(p), []).append(g)
            c = self._skel.get(skeleton(path), [])
            if len(c) == 1:
                return c[0]
        return f


def skeleton(path):
    """the path without generic argument lists"""
    out, depth = [], 0
    for i, ch in enumerate(path):
        if ch == "<" and (depth or (i and (path[i - 1].isalnum() or path[i - 1] in "_:"))):
            depth += 1
        elif ch == ">" and depth and path[i - 1] != "-":
            depth -= 1
        elif not depth:
            out.append(ch)
    return "".join(out).replace("::::", "::")
