"""What a path has established about the bytes of an encoded message: comparisons collected into known ranges."""
from .bigs import *
from .absorb import match, Shape, Differ, flat
from engine.subst import inst
from engine.state import seq_slice, seq_get

OPAQUE = 10 ** 6


def wide(run):
    """keep every path apart: what one path compared says nothing about another"""
    run.I.split = OPAQUE
    run.I.MAXSTATES = 3000


def pieces(t):
    """a frozen byte source -> Seq"""
    if isinstance(t, T) and t.op == "seq":
        return t.args[0]
    return None


class Msg:
    """an encoded message of length n: right-aligned copies of base, the rest zero"""
    def __init__(self, st, base, blen, n):
        self.st, self.base, self.blen, self.n = st, base, blen, n

    def pos(self, t, off):
        """position in the message of byte off of source t, or None"""
        f = self.st.facts
        if t is self.base:
            return off + self.n - self.blen
        s = pieces(t)
        if s is None:
            return None
        p = list(s.p)
        if f.entails_eq(s.len - self.n) and self.aligned(s):
            return off
        if len(p) == 1 and p[0][0] == "src":
            r = self.pos(p[0][1], p[0][2])
            return None if r is None else r + off
        return None

    def aligned(self, s):
        p = list(s.p)
        f = self.st.facts
        if not p or p[-1][0] != "src" or p[-1][1] is not self.base or not f.entails_eq(p[-1][2] + p[-1][3] - self.blen):
            return False
        return all(q[0] == "fill" and q[1] == ZERO or q[0] == "lit" and all(x == ZERO for x in q[1]) for q in p[:-1]) and (len(p) == 1 or f.entails_eq(p[-1][2]))


class Known:
    """byte ranges of a message with the bytes they were found equal to"""
    def __init__(self, I, st, place):
        self.I, self.st, self.place = I, st, place
        self.r = []            # (position, length, Seq)
        self.masks = []        # (position, term that was found zero)
        self.odd = []          # conditions of another form
        self.wide = []         # (position, length, values possible for each byte)
        self.sets = []         # (position, byte values a condition leaves possible)
        for b, v in st.b.items():
            if not self.byte(b, v):
                self.fact(b, v)
        for e in st.facts.ge:
            self.byte(T("ge0", e), True)
        for lam, v, n in st.univ:
            self.every(lam, v, n)
        f = st.facts
        for p, vs in self.sets:
            for q, ws in self.sets:
                if p is q or f.entails_eq(p - q):
                    vs = vs & ws
            if len(vs) == 1:
                self.r.append((p, ONE, Seq((("lit", (Lin(next(iter(vs))),)),))))

    def add(self, p, n, s):
        """a range found equal to s, and each part of s by itself"""
        self.r.append((p, n, s))
        fl = flat(self.st, s).p
        if len(fl) > 1:
            for q in fl:
                self.r.append((p, plen(q), Seq((q,))))
                p = p + plen(q)

    def byte(self, b, v):
        """a condition on one byte of the message: which values it admits"""
        r = onebyte(b)
        if r is None:
            return False
        p = self.place(r.args[0], r.args[1])
        if p is None:
            return False
        vs = values(b, v, r)
        if vs is None:
            return False
        self.sets.append((p, vs))
        return True

    def fact(self, b, v):
        if b.op == "eq0":
            e = b.args[0]
            hits = [(a, c) for a, c in e.t if isinstance(a, T) and a.op == "elem"]
            if len(hits) == 1 and len(e.t) == 1:
                a, c = hits[0]
                p = self.place(a.args[0], a.args[1])
                if p is not None and v is True and c in (1, -1):
                    self.r.append((p, ONE, Seq((("lit", (Lin(-e.c * c),)),))))
                    return
            if v is True and e.const is None and e.c == 0 and len(e.t) == 1:
                t = e.t[0][0]
                el = [x for x in walk(t) if isinstance(x, T) and x.op == "elem"]
                ps = [self.place(x.args[0], x.args[1]) for x in el]
                ps = [p for p in ps if p is not None]
                if ps:
                    self.masks.append((ps[0], t))
                    return
            if len(hits) == 2 and len(e.t) == 2 and v is True and e.c == 0:
                for (a, c), (o, d) in (hits, hits[::-1]):
                    p = self.place(a.args[0], a.args[1])
                    if p is not None:
                        self.r.append((p, ONE, Seq((("src", o.args[0], o.args[1], ONE),))))
                        return
        if b.op == "same" and v is True:
            for x, y in (b.args, b.args[::-1]):
                x, y = big(x), big(y)
                if isinstance(y, T) and y.op == "os2i" and isinstance(x, T) and self.place(T("i2os", x), ZERO) is not None:
                    # equal numbers: the same bytes when both are written with the same length
                    s = y.args[0]
                    p = self.place(T("i2os", x), ZERO) + bytelen(self.st, x) - s.len
                    self.add(p, s.len, s)
                    return
        if b.op == "seqeq" and v is True:
            for x, y in (b.args, b.args[::-1]):
                p = self.place(T("seq", x), ZERO)
                if p is not None:
                    self.add(p, x.len, y)
                    return
                if len(x.p) == 1 and x.p[0][0] == "src":
                    p = self.place(x.p[0][1], x.p[0][2])
                    if p is not None:
                        self.add(p, x.p[0][3], y)
                        return
        if not (b.op in ("eq0", "seqeq", "same") and v is False) and self.about(b):
            self.odd.append((b, v))

    def every(self, lam, v, n):
        j = T("xat")
        b = inst(lam, Lin.atom(j))
        x = onebyte(b)
        if x is not None and not any(y is j for y in walk(x.args[1] + Lin.atom(j))):
            # walked from the back
            b = inst(lam, n - 1 - Lin.atom(j))
            x = onebyte(b)
        if x is not None:
            o = x.args[1] - Lin.atom(j)
            vs = values(b, v, x)
            if vs is not None and not any(y is j for y in walk(o)):
                p = self.place(x.args[0], o)
                if p is not None:
                    if len(vs) == 1:
                        self.r.append((p, n, Seq((("fill", Lin(next(iter(vs))), n),))))
                    self.wide.append((p, n, vs))
                    return
        if isinstance(b, T) and b.op == "eq0" and v is True:
            e = b.args[0]
            at = e.t
            if len(at) == 1 and at[0][0].op == "elem" and at[0][1] in (1, -1):
                t, i = at[0][0].args
                o = i - Lin.atom(j)
                if not any(x is j for x in walk(o)):
                    p = self.place(t, o)
                    if p is not None:
                        self.r.append((p, n, Seq((("fill", Lin(-e.c * at[0][1]), n),))))
                        return
            if len(at) == 2 and all(a.op == "elem" for a, _ in at) and e.c == 0:
                for (a, _), (o, _) in (at, at[::-1]):
                    oa, oo = a.args[1] - Lin.atom(j), o.args[1] - Lin.atom(j)
                    p = self.place(a.args[0], oa)
                    if p is not None and not any(x is j for x in walk((oa, oo))):
                        self.r.append((p, n, Seq((("src", o.args[0], oo, n),))))
                        return
        if self.about(b):
            self.odd.append((b, v))

    def about(self, b):
        """the condition looks at bytes of the message"""
        for x in deepwalk(self.I, b):
            if isinstance(x, T) and x.op == "elem" and self.place(x.args[0], x.args[1]) is not None:
                return True
            if isinstance(x, T) and x.op == "seqeq" and any(q[0] == "src" and self.place(q[1], q[2]) is not None for y in x.args for q in y.p):
                return True
        return False

    def holds(self, off, n, want):
        """the message is known to have the bytes `want` at [off, off+n); Differ / Shape as in match"""
        st, f = self.st, self.st.facts
        worst = None
        for p, m, s in self.r:
            if f.entails_ge(off - p) and f.entails_ge(p + m - off - n):
                o = off - p
                if o.const is None:
                    top = m.const if m.const is not None else 0
                    o = next((Lin(c) for c in range(top + 1) if f.entails_eq(off - p - c)), o)
                try:
                    match(self.I, st, s if o is ZERO and f.entails_eq(n - m) else seq_slice(st, s, o, n), want)
                    return True
                except Differ as e:
                    worst = worst or e
        if n.const == 1:
            return False
        # assembled from neighbouring ranges
        done = off
        for _ in range(12):
            if f.entails_eq(off + n - done):
                return True
            nxt = None
            for p, m, s in self.r:
                if f.entails_eq(p - done) and f.entails_ge(off + n - done - m) and f.entails_ge(m - 1):
                    match(self.I, st, s, seq_slice(st, want, done - off, m))
                    nxt = done + m
                    break
            if nxt is None:
                break
            done = nxt
        if worst:
            raise worst
        return False


def onebyte(b):
    """the only byte a condition looks at, when everything else in it is constant"""
    found = set()

    def go(x):
        if isinstance(x, Lin):
            return all(go(a) for a, _ in x.t)
        if isinstance(x, T):
            if x.op == "elem":
                found.add(x)
                return True
            return x.op in EVAL and all(go(a) for a in x.args)
        return isinstance(x, int)
    if isinstance(b, T) and go(b) and len(found) == 1:
        return next(iter(found))
    return None


EVAL = {
    "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, ">>": lambda a, b: a >> b, "<<": lambda a, b: (a << b) & 255,
    "!": lambda a: 255 - a, "div": lambda a, b: a // b, "eq0": lambda a: a == 0, "ge0": lambda a: a >= 0, "not": lambda a: not a,
    "and": lambda *a: all(a), "or": lambda *a: any(a), "beq": lambda a, b: bool(a) == bool(b), "b2i": lambda a: int(a),
}


def values(b, v, x):
    """bytes for which the condition has the truth value v"""
    def ev(t, k):
        if t is x:
            return k
        if isinstance(t, Lin):
            return t.c + sum(c * ev(a, k) for a, c in t.t)
        if isinstance(t, T):
            return EVAL[t.op](*[ev(a, k) for a in t.args])
        return t
    try:
        return {k for k in range(256) if bool(ev(b, k)) is v}
    except (TypeError, ValueError, ZeroDivisionError):
        return None


def bytelen(st, x):
    a = T("bits", x)
    note_atom(a)
    return ops.divc(st, Lin.atom(a) + 7, 8)


def deepwalk(I, v, seen=None):
    seen = set() if seen is None else seen
    for x in walk(v):
        yield x
        if isinstance(x, T) and x in I.mudef and x not in seen:
            seen.add(x)
            d = I.mudef[x]
            for k in ("init", "step", "backs", "extras", "d"):
                y = d.get(k)
                if y is not None and not isinstance(y, (str, int)):
                    for z in (y if isinstance(y, (list, tuple)) else (y,)):
                        if not isinstance(z, (str, int)):
                            yield from deepwalk(I, z, seen)
