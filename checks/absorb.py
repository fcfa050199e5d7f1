"""What message bytes a hash state stands for: the blocks already mixed in, followed by the pending bytes."""
from .common import *
from engine.state import seq_slice
from engine.terms import plen
from engine.subst import inst


class Shape(Exception):
    """a value of a form these rules say nothing about"""


class Differ(Exception):
    pass


def unlin(v):
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        return v.t[0][0]
    if isinstance(v, Sym):
        return v.t
    return v


def flat(st, s, depth=0):
    """expand slices of composite sequences; drop parts that are provably empty"""
    out = []
    for q in s.p:
        if q[0] == "src" and st.facts.entails_eq(q[3]):
            continue
        if q[0] == "fill" and st.facts.entails_eq(q[2]):
            continue
        if q[0] == "src" and q[1].op == "seq" and depth < 8:
            inner = seq_slice(st, q[1].args[0], q[2], q[3])
            if len(inner.p) == 1 and inner.p[0][0] == "src" and inner.p[0][1].op == "seq":
                # a slice whose position among the parts is not known
                out.append(inner.p[0])
                continue
            out += flat(st, inner, depth + 1).p
            continue
        if q[0] == "lit":
            out += relit(q[1])
            continue
        out.append(q)
    return Seq(out)


def relit(vals):
    """runs of consecutive elements of one source become a slice of it"""
    out = []
    for v in vals:
        t = unlin(v)
        if isinstance(t, T) and t.op == "elem" and isinstance(t.args[0], T):
            out.append(("src", t.args[0], t.args[1], ONE))
        else:
            out.append(("lit", (v,)))
    return Seq(out).p


def cut(q, n):
    """first n elements of a piece and the rest"""
    if q[0] == "src":
        return ("src", q[1], q[2], n), ("src", q[1], q[2] + n, q[3] - n)
    if q[0] == "fill":
        return ("fill", q[1], n), ("fill", q[1], q[2] - n)
    if n.const is None:
        raise Shape("a slice of unknown length of constants")
    return ("lit", q[1][:n.const]), ("lit", q[1][n.const:])


def joined(st, s):
    """neighbouring slices of one source become one"""
    out = []
    for q in s.p:
        if out and q[0] == "src" and out[-1][0] == "src" and out[-1][1] is q[1] and st.facts.entails_eq(out[-1][2] + out[-1][3] - q[2]):
            out[-1] = ("src", q[1], out[-1][2], out[-1][3] + q[3])
        else:
            out.append(q)
    return Seq(out)


def match(I, st, a, b, free=()):
    """a and b are the same bytes; Differ if not, Shape if that cannot be told; bytes of a source in free are no constants"""
    f = st.facts
    a, b = list(flat(st, joined(st, a)).p), list(flat(st, joined(st, b)).p)
    while a and b:
        x, y = a.pop(0), b.pop(0)
        n, m = plen(x), plen(y)
        if f.entails_eq(n):
            b.insert(0, y)
            continue
        if f.entails_eq(m):
            a.insert(0, x)
            continue
        for p, q in ((x, y), (y, x)):
            if free and p[0] == "src" and p[1].op in free and q[0] in ("lit", "fill"):
                g = f.copy()
                g.add_ge(n - 1)
                g.add_ge(m - 1)
                if not g.infeasible():
                    raise Differ("%s instead of %s" % (show(Seq((x,)))[:100], show(Seq((y,)))[:100]))
        if not f.entails_eq(n - m):
            if f.entails_ge(m - n):
                y, r = cut(y, n)
                b.insert(0, r)
            elif f.entails_ge(n - m):
                x, r = cut(x, m)
                a.insert(0, r)
            else:
                if x[0] == "src" and y[0] == "src" and x[1] is y[1]:
                    same(I, st, x, y)
                    raise Differ("%s and %s of %s bytes" % (show(n)[:120], show(m)[:120], show(x[1])[:60]))
                if x[0] == "src" and y[0] == "src" and plain(x[1]) and plain(y[1]):
                    g = f.copy()
                    g.add_ge(n - 1)
                    g.add_ge(m - 1)
                    if not g.infeasible():
                        raise Differ("%s instead of %s" % (show(Seq((x,)))[:100], show(Seq((y,)))[:100]))
                raise Shape("parts of lengths %s and %s" % (show(n)[:100], show(m)[:100]))
        same(I, st, x, y)
    for q in a + b:
        if not f.entails_eq(plen(q)):
            raise Differ("%s %s" % ("lost:" if q in b else "extra:", show(Seq((q,)))[:160]))


def same(I, st, x, y):
    if x == y:
        return
    if x[0] == "src" and y[0] == "src":
        if x[1] is y[1]:
            if st.facts.entails_eq(x[2] - y[2]):
                return
            raise Differ("position %s instead of %s in %s" % (show(x[2])[:120], show(y[2])[:120], show(x[1])[:60]))
        if plain(x[1]) and plain(y[1]):
            raise Differ("%s instead of %s" % (show(x[1])[:80], show(y[1])[:80]))
        for p, q in ((x[1], y[1]), (y[1], x[1])):
            if plain(p) and mixed(I, q):
                raise Differ("%s instead of %s" % (show(Seq((x,)))[:100], show(Seq((y,)))[:100]))
        u, v = sort(x[1]), sort(y[1])
        if u is not None and v is not None:
            if u != v:
                raise Differ("%s instead of %s" % (show(Seq((x,)))[:100], show(Seq((y,)))[:100]))
            if u in ("E", "D") and x[1].args[0] is y[1].args[0]:
                if not st.facts.entails_eq(x[2] - y[2]):
                    raise Differ("position %s instead of %s of a cipher result" % (show(x[2])[:60], show(y[2])[:60]))
                return match(I, st, x[1].args[1], y[1].args[1])
            if u == "^":
                a, b = operands(x), operands(y)
                if a is not None and b is not None and len(a) == len(b) == 2:
                    if sort(a[0].p[0][1]) != sort(b[0].p[0][1]):
                        b = b[::-1]
                    for p, q in zip(a, b):
                        match(I, st, p, q)
                    return
        raise Shape("%s / %s" % (show(x[1])[:80], show(y[1])[:80]))
    if x[0] in ("lit", "fill") and y[0] in ("lit", "fill"):
        u = set(x[1]) if x[0] == "lit" else {x[1]}
        v = set(y[1]) if y[0] == "lit" else {y[1]}
        if len(u) == 1 and len(v) == 1 or x[0] == y[0] == "lit" and len(x[1]) == len(y[1]):
            prs = zip(x[1], y[1]) if x[0] == y[0] == "lit" and len(x[1]) == len(y[1]) else [(next(iter(u)), next(iter(v)))]
            for p, q in prs:
                equal(st, p, q)
            return
        raise Differ("%s instead of %s" % (show(Seq((x,)))[:100], show(Seq((y,)))[:100]))
    s, o = (x, y) if x[0] == "src" else (y, x)
    if plain(s[1]) and all(isinstance(v, Lin) and v.const is not None for v in (o[1] if o[0] == "lit" else (o[1],))):
        raise Differ("%s instead of %s" % (show(Seq((x,)))[:100], show(Seq((y,)))[:100]))
    if o[0] == "lit":
        for i, v in enumerate(o[1]):
            equal(st, elem(s[1], s[2] + i), v)
        return
    raise Shape("%s / %s" % (show(Seq((x,)))[:80], show(Seq((y,)))[:80]))


def sort(t):
    """what kind of bytes a source holds, as far as its outermost operation tells"""
    if t.op in ("E", "D"):
        return t.op
    if t.op == "map":
        b = unlin(inst(t.args[0], Lin.atom(T("xat"))))
        return "^" if isinstance(b, T) and b.op == "^" and any(isinstance(x, T) and x.op in ("E", "D") for x in walk(b)) else None
    if plain(t) or t.op == "seq" and all(q[0] == "src" and plain(q[1]) for q in t.args[0].p):
        return "entry"
    return None


def operands(q):
    """the sequences an elementwise exclusive-or combines"""
    _, m, off, n = q
    j = T("xat")
    body = unlin(inst(m.args[0], Lin.atom(j)))
    r = []
    for x in body.args:
        x = unlin(x)
        if not isinstance(x, T) or x.op != "elem":
            return None
        o = x.args[1] - Lin.atom(j)
        if any(z is j for z in walk(o)):
            return None
        r.append(Seq((("src", x.args[0], o + off, n),)))
    return r


def mixed(I, t):
    """a buffer that holds data combined with something else, or cipher output"""
    if t.op == "E":
        return True
    d = I.mudef.get(t)
    return t.op == "mu" and d is not None and any(isinstance(x, T) and x.op in ("E", "^") for b in d["backs"] if b is not None for x in walk(b))


def elem(t, i):
    if t.op == "map":
        return inst(t.args[0], i)
    return Lin.atom(T("elem", t, i))


def equal(st, p, q):
    p, q = unsym(p), unsym(q)
    if p is q or isinstance(p, Lin) and isinstance(q, Lin) and st.facts.entails_eq(p - q):
        return
    raise Differ("%s instead of %s" % (show(p)[:120], show(q)[:120]))


def plain(t):
    """a source named by the entry state alone: a field of the object or the data passed"""
    while t.op in ("fld", "*"):
        t = t.args[0]
    return t.op == "P"


def outpath(t):
    """fld(fld(out(call,k),0,i),0,j) -> (call, k, (i,j))"""
    p = ()
    while t.op == "fld":
        p = (t.args[2],) + p
        t = t.args[0]
    if t.op == "out" and t.args[0].op == "call":
        return t.args[0], t.args[1], p
    return None


def peel(v):
    while isinstance(v, T) and v.op == "&" and len(v.args) == 1:
        v = v.args[0]
    if isinstance(v, Agg) and adt_last(v) == "Option":
        return peel(v.f[0]) if v.var == 1 else None
    return v


def getp(v, path):
    for i in path:
        if not isinstance(v, Agg) or i >= len(v.f):
            return None
        v = v.f[i]
    return v


def zeros(v):
    if not isinstance(v, Seq):
        return False
    return all(q[0] == "fill" and isinstance(q[1], Lin) and q[1].const == 0 or q[0] == "lit" and all(isinstance(x, Lin) and x.const == 0 for x in q[1]) for q in v.p)


class Absorb:
    """reads the bytes mixed into a chaining value off the term that names it"""
    def __init__(self, I, st, chain, buf):
        self.I, self.st, self.chain, self.buf = I, st, chain, buf
        self.base = {}
        self.units = []

    def root(self, v):
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, Seq):
            s = flat(self.st, v)
            if len(s.p) == 1 and s.p[0][0] == "src" and self.st.facts.entails_eq(s.p[0][2]):
                return s.p[0][1]
        if isinstance(v, Lin):
            t = unlin(v)
            if isinstance(t, T):
                return t
        return None

    def parts(self, v, base, depth=0):
        """sequences mixed in since `base`, in order"""
        if depth > 24:
            raise Shape("too long a chain")
        if base(v):
            return []
        t = self.root(v)
        if t is None:
            raise Shape("chaining value %s" % show(v)[:100])
        if base(t):
            return []
        o = outpath(t)
        if o is not None:
            call, k, rel = o
            a = peel(call.args[1 + k])
            if isinstance(a, Agg):
                prev = getp(a, rel)
                if prev is None or prev is UNIT:
                    raise Shape("the call does not take the previous chaining value")
                pre = self.chain[:len(self.chain) - len(rel)]
                src = [x for x in (peel(y) for i, y in enumerate(call.args[1:]) if i != k) if isinstance(x, Seq)]
                if not src:
                    if self.buf is None or self.buf[:len(pre)] != pre:
                        raise Shape("no data given to the compression")
                    x = getp(a, self.buf[len(pre):])
                    if not isinstance(x, Seq):
                        raise Shape("the compression does not read the pending bytes")
                    src = [x]
            else:
                prev = a
                src = [x for x in (peel(y) for i, y in enumerate(call.args[1:]) if i != k) if isinstance(x, Seq)]
            if len(src) != 1:
                raise Shape("compression of %d sequences" % len(src))
            r = self.parts(prev, base, depth + 1)
            self.units.append(src[0].len)
            return r + [src[0]]
        if t.op == "E":
            return self.cipher(t, base, depth)
        if t.op == "mu" and t in self.I.mudef:
            d = self.I.mudef[t]
            r = self.parts(d["init"], base, depth + 1)
            xs = set()
            for b in d["backs"]:
                if b is None:
                    raise Shape("loop")
                x = Seq(())
                for y in self.parts(b, lambda z: z is t, depth + 1):
                    x = x + y
                xs.add(x)
            if len(xs) != 1:
                raise Shape("a loop that mixes in different bytes on different paths")
            return r + [self.total(d["loop"], xs.pop())]
        raise Shape("chaining value %s" % show(t)[:100])

    def total(self, loop, x):
        """bytes of all iterations, given those of one"""
        x = flat(self.st, x)
        if not x.p:
            return x
        if len(x.p) != 1 or x.p[0][0] != "src":
            raise Shape("loop over %s" % show(x)[:80])
        _, src, off, n = x.p[0]
        own = [a for a, _ in off.t if a.op == "pr" and self.I.mudef.get(a, {}).get("loop") == loop]
        if len(own) != 1:
            raise Shape("loop position %s" % show(off)[:80])
        k = dict(off.t)[own[0]]
        d = self.I.mudef[own[0]]["d"]
        if not self.st.facts.entails_eq(d.scale(k) - n):
            raise Differ("steps of %s over parts of %s bytes" % (show(d.scale(k)), show(n)))
        w = Lin.atom(own[0], k)
        return Seq((("src", src, off - w, w),))

    def cipher(self, t, base, depth):
        ct, src = t.args
        src = flat(self.st, src)
        n = src.len
        # input = previous output xor block, or the block alone when that output is zero
        if len(src.p) == 1 and src.p[0][0] == "src" and src.p[0][1].op == "map":
            lam, off = src.p[0][1].args[0], src.p[0][2]
            j = T("at")
            body = unlin(inst(lam, Lin.atom(j)))
            if isinstance(body, T) and body.op == "^" and len(body.args) >= 2:
                terms = [unlin(x) for x in body.args]
                prev, rest = None, []
                for x in terms:
                    ok = isinstance(x, T) and x.op == "elem" and self.st.facts.entails_eq(x.args[1] - Lin.atom(j))
                    if ok and prev is None:
                        try:
                            r = self.parts(Seq((("src", x.args[0], ZERO, n),)), base, depth + 1)
                            prev = r
                            continue
                        except Shape:
                            pass
                    rest.append(x)
                if prev is not None and len(rest) == 1:
                    x = rest[0]
                    if isinstance(x, T) and x.op == "elem":
                        o = x.args[1] - Lin.atom(j)
                        blk = flat(self.st, Seq((("src", x.args[0], o + off, n),)))
                        self.units.append(n)
                        return prev + [blk]
        for q in src.p:
            if q[0] == "src" and (plain(q[1]) or q[1].op == "seq" and all(z[0] == "src" and plain(z[1]) for z in q[1].args[0].p)) and not self.st.facts.entails_eq(q[3]):
                raise Differ("cipher input holds %s not combined with the chaining value" % show(Seq((q,)))[:100])
        raise Shape("cipher input %s" % show(src)[:100])
