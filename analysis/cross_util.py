"""helpers for loops that build a genome gene by gene"""
from base import *


class Loop:
    def __init__(self, ev):
        _, self.site, self.uid, self.kvar, self.K, phis, backs, self.ks0 = ev[:8]
        self.phis = [p for p, _, _ in phis]
        self.inits = [i for _, i, _ in phis]
        self.closed = [c for _, _, c in phis]
        self.backs = [Back(self, b) for b in backs]

    def index(self, t):
        """which loop symbol a term is, at whatever iteration (None when it is none)"""
        if is_t(t) and t.op == "phi" and t.a[0] == self.uid:
            for i, p in enumerate(self.phis):
                if p.a[1] == t.a[1]:
                    return i
        return None


class Back:
    def __init__(self, loop, b):
        self.loop, (self.lits, self.ev, self.up) = loop, b

    def facts(self, F, *more):
        """facts that hold at the end of this way through the body"""
        f = F.copy()
        for l in tuple(more) + tuple(self.lits):
            f.add(l)
        return f

    def loops(self):
        return [Loop(e) for e in self.ev if e[0] == "loop"]


def loops_of(o):
    return [Loop(e) for e in o.st.ev if e[0] == "loop"]


def all_loops(o):
    out, todo = [], loops_of(o)
    while todo:
        l = todo.pop(0)
        if l.uid not in [x.uid for x in out]:
            out.append(l)
        for b in l.backs:
            todo += b.loops()
    return out


class Genes:
    """where genes come from: are all values a term can take genes of the given sequences?"""
    def __init__(self, o, seqs, genes=()):
        self.seqs, self.base = set(seqs), set(genes)
        self.loops = {l.uid: l for l in all_loops(o)}
        self.busy = set()

    def phi(self, t, f):
        l = self.loops.get(t.a[0])
        i = l.index(t) if l is not None else None
        if i is None:
            return False
        k = (l.uid, i, f.__name__)
        if k in self.busy:
            return True         # by induction over the iterations
        self.busy.add(k)
        try:
            return f(l.inits[i]) and all(f(b.up[i]) for b in l.backs)
        finally:
            self.busy.discard(k)

    def gene(self, t):
        if t in self.base:
            return True
        o = t.op
        if o == "ite":
            return self.gene(t.a[1]) and self.gene(t.a[2])
        if o == "at":
            return self.seq(t.a[0])
        if o == "phi":
            return self.phi(t, self.gene)
        if o == "acc":
            return True
        if o == "fold":
            return self.gene(t.a[2]) and self.gene(t.a[3]) if len(t.a) > 3 else False
        if o == "fld":
            return self.seq(t)
        return False

    def seq(self, t):
        o = t.op
        if t in self.seqs:
            return True
        if o in ("slice", "rev", "perm", "sort", "remove", "swaprem", "swapd", "dedup"):
            return self.seq(t.a[0])
        if o == "rep":
            return self.inner(t.a[0])
        if o == "store":
            return self.seq(t.a[0]) and self.inner(t.a[2])
        if o in ("cat",):
            return all(self.seq(x) for x in t.a)
        if o == "lit":
            return all(self.inner(x) for x in t.a)
        if o == "comp":
            return self.inner(t.a[2])
        if o == "fcomp":
            return self.inner(t.a[3])
        if o == "ite":
            return self.seq(t.a[1]) and self.seq(t.a[2])
        if o == "elems":
            return self.set(t.a[0])
        if o == "phi":
            return self.phi(t, self.seq)
        if o in ("at", "fld", "mget"):
            return self.inner(t)
        return False

    def inner(self, t):
        """a value made of genes: a gene, a tuple or sequence of genes"""
        o = t.op
        if o == "agg":
            return all(self.inner(x) for x in t.a[2:])
        if o == "ite":
            return self.inner(t.a[1]) and self.inner(t.a[2])
        if o == "fld":
            return self.inner(t.a[0])
        if o == "at":
            return t in self.base or self.seq(t.a[0])
        if o == "mget":
            return self.map(t.a[0])
        if o in ("sins", "sext", "sempty", "srem"):
            return self.set(t)
        if o in ("lit", "cat", "comp", "fcomp", "slice", "rev"):
            return self.seq(t)
        return self.gene(t)

    def set(self, t):
        o = t.op
        if o == "sempty":
            return True
        if o == "sins":
            return self.set(t.a[0]) and self.gene(t.a[1])
        if o == "sext":
            return self.set(t.a[0]) and self.inner(t.a[1])
        if o == "srem":
            return self.set(t.a[0])
        if o == "ite":
            return self.set(t.a[1]) and self.set(t.a[2])
        if o == "mget":
            return self.map(t.a[0])
        if o == "phi":
            return self.phi(t, self.set)
        return False

    def map(self, t):
        o = t.op
        if o == "mempty":
            return True
        if o == "mput":
            return self.map(t.a[0]) and self.inner(t.a[2])
        if o == "ite":
            return self.map(t.a[1]) and self.map(t.a[2])
        if o == "phi":
            return self.phi(t, self.map)
        return False


def one_of(F, x, ys):
    return any(x is y or F.entails(peq(x, y)) for y in ys)


def added(v, base):
    """the elements a set update adds to `base`; None when it is no such update"""
    xs = []
    while v is not base:
        if v.op == "sins":
            xs.append(v.a[1])
            v = v.a[0]
        elif v.op == "sext" and v.a[1].op == "lit":
            xs += v.a[1].a
            v = v.a[0]
        else:
            return None
    return xs


def written(u, O, kvar):
    """what one iteration does to the genome: ('none',), ('store', offset from the iteration, gene), ('push', genes)"""
    if u is O:
        return ("none",)
    if u.op == "store" and u.a[0] is O:
        c = sub(u.a[1], kvar)
        if c.op == "int":
            return ("store", c.a[0], u.a[2])
        return ("store?", u.a[1], u.a[2])
    if u.op == "cat" and u.a[0] is O and all(x.op == "lit" for x in u.a[1:]):
        return ("push", tuple(y for x in u.a[1:] for y in x.a))
    return None
