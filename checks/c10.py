"""C10: a signature is accepted only after every prescribed comparison."""
from .gates import *
from .common import *
from .refs import PKCS1 as DIGESTINFO
from engine.contracts import dig_chain

SCHEMES = ("PSS", "PKCS1", "DSA", "ECDSA")


class Skip(Exception):
    pass


def check(progs, rep):
    rep.rule("accepts", "verification has a path that returns success")
    rep.rule("length", "success requires a signature as long as the modulus")
    rep.rule("range", "success requires 0 <= s < n (RSA), 0 < r, s < q (DSA, ECDSA)")
    rep.rule("encoding", "success requires every byte of the recovered encoding to have been compared with the prescribed value")
    rep.rule("value", "success requires r to equal the value recomputed from r, s, the digest and the public key")
    rep.rule("digest", "the digest compared or used is that of exactly the message passed, started from reset")
    for cfg, prog in progs.items():
        if cfg != "A":
            continue
        seen = {}
        for f in local_fns(prog):
            if f.get("tname") == "Signature" and f["name"] == "verify" and f["kind"] == "fn" and not f.get("intrait"):
                a = self_adt(prog, f)
                if a:
                    seen[a["n"].split("::")[-1]] = f
        for s in SCHEMES:
            rep.check(s in seen, "scheme:%s" % s, "%s verifies signatures" % s)
        for s, f in seen.items():
            one(rep, prog, s, f)


def one(rep, prog, name, f):
    run = attempt(rep, prog, f, Nums(prog), prep=wide)
    if run is None:
        return
    ok = [(s, v) for s, v in run.ok() if not s.facts.infeasible()]
    rep.check(len(ok) > 0, "accepts:%s" % name, "%s: %d paths return success" % (name, len(ok)), where(f))
    h = {"PSS": pss, "PKCS1": pkcs1, "DSA": dsa, "ECDSA": ecdsa}.get(name)
    if h is None:
        rep.notes.setdefault("undecided", []).append("%s: scheme without a rule" % name)
        rep.obl += 1
        return
    for s, v in ok:
        g = Gate(rep, run, s, name, f)
        why = guarded(lambda: h(g), 100)
        if why is not None:
            g.open("all", why)


class Gate:
    """one accepting path"""
    verb = "verification can succeed"

    def __init__(self, rep, run, st, name, f):
        self.rep, self.run, self.I, self.st, self.name, self.f = rep, run, run.I, st, name, f
        self.msg = T("*", T("P", "a2"))
        self.sig = T("*", T("P", "a1"))

    def need(self, rule, what, ok, why="", odd=False):
        if ok:
            self.rep.hold("%s: %s: %s" % (rule, self.name, what))
        elif odd:
            self.open(rule, "%s: %s" % (what, why))
        else:
            self.rep.violation("%s:%s:%s" % (rule, self.name, what), "%s %s although %s was not established%s" % (self.name, self.verb, what, "; " + why if why else ""), where(self.f))

    def open(self, rule, why):
        self.rep.notes.setdefault("undecided", []).append("%s: %s: %s" % (self.f["n"], rule, why[:160]))
        self.rep.obl += 1

    def digest(self, t, extra=None):
        """t is the value of a digest: (ok, why)"""
        if not isinstance(t, T) or t.op != "sum":
            return None, "not a digest: %s" % show(t)[:60]
        start, content, _ = dig_chain(t.args[0])
        if start != "reset":
            return False, "the digest is not reset before the message goes in"
        try:
            match(self.I, self.st, content, Seq((("src", self.msg, ZERO, Lin.atom(T("len", self.msg))),)))
        except Differ as e:
            return False, "the digest covers %s" % e
        return True, ""


def conditions(g):
    for b, v in g.st.b.items():
        yield b
    for lam, v, n in g.st.univ:
        yield lam


def rsa(g):
    """the recovered integer, its modulus and how it was obtained"""
    st = g.st
    pows = set()
    for b in conditions(g):
        for x in walk(b):
            if isinstance(x, T) and x.op == "exp" and any(y is g.sig for y in walk(x.args[0])):
                pows.add(x)
    if len(pows) != 1:
        if not pows:
            g.need("encoding", "the recovered encoding", False, "no comparison looks at the signature raised to the public exponent")
        else:
            g.open("encoding", "more than one power")
        return None
    x, = pows
    s, e, n = (big(y) for y in x.args)
    if not (isinstance(s, T) and s.op == "os2i"):
        g.open("encoding", "the value raised is %s" % show(s)[:80])
        return None
    whole = Seq((("src", T("fld", g.sig, 0, 0), ZERO, Lin.atom(T("len", T("fld", g.sig, 0, 0)))),))
    try:
        match(g.I, st, s.args[0], whole)
        g.need("encoding", "that the whole signature is used", True)
    except Differ as w:
        g.need("encoding", "that the whole signature is used", False, str(w))
    ok = all(isinstance(y, T) and y.op == "fld" for y in (e, n)) and e.args[0] is n.args[0] and e is not n
    g.need("encoding", "that exponent and modulus come from one public key", ok, "%s, %s" % (show(e)[:80], show(n)[:80]))
    nb = T("bits", n)
    note_atom(nb)
    nb = Lin.atom(nb)
    k = ops.divc(st, nb + 7, 8)
    g.need("length", "a signature of the length of the modulus", st.facts.entails_eq(s.args[0].len - k))
    g.need("range", "a signature below the modulus", below(st, s, n))
    return x, n, nb, k


def known(g, x, n):
    base = T("i2os", x)
    m = Msg(g.st, base, bytelen(g.st, x), n)
    return m, Known(g.I, g.st, m.pos)


def holds(g, kn, what, off, n, want):
    if not g.st.facts.entails_ge(n):
        g.need("encoding", what, False, "its length may be negative: %s" % show(n)[:100])
        return
    if g.st.facts.entails_eq(n):
        g.need("encoding", what, True)
        return
    try:
        ok, why = kn.holds(off, n, want), ""
    except Differ as e:
        ok, why = False, str(e)
    g.need("encoding", what, ok, why, odd=not ok and bool(kn.odd))


def hashat(g, kn, off_of):
    """the digest value found equal to a range of the message: (position, length, digest term)"""
    best = None
    for p, n, s in kn.r:
        fl = flat(g.st, s).p
        if len(fl) == 1 and fl[0][0] == "src" and fl[0][1].op == "sum":
            h = dlen(g, fl[0][1])
            if g.st.facts.entails_eq(fl[0][2]) and g.st.facts.entails_eq(fl[0][3] - h):
                if off_of(p, n):
                    return p, n, fl[0][1]
                best = best or (p, n, fl[0][1])
    return best


def dlen(g, t):
    """bytes of a digest value"""
    d = t.args[0]
    while isinstance(d, T) and d.op == "dig":
        d = d.args[1]
    a = T("dbits", d)
    note_atom(a)
    h = ops.divc(g.st, Lin.atom(a), 8)
    # digests are whole bytes
    g.st.facts.add_eq(Lin.atom(a) - h.scale(8))
    g.st.facts.add_eq(ops.divc(g.st, Lin.atom(a) + 7, 8) - h)
    return h


def hashname(st):
    for b, v in st.b.items():
        if b.op == "same" and v is True:
            for x, y in (b.args, b.args[::-1]):
                x, y = big(x), big(y)
                if isinstance(x, T) and isinstance(y, T) and x.op == y.op == "typeid" and not "::" in x.args[0] and "::" in y.args[0]:
                    return y.args[0].split("::")[-1]
    return None


def pkcs1(g):
    r = rsa(g)
    if r is None:
        return
    x, n, nb, k = r
    m, kn = known(g, x, k)
    st, f = g.st, g.st.facts
    hit = hashat(g, kn, lambda p, c: f.entails_eq(p + c - k))
    if hit is None:
        g.need("digest", "the digest of the message", False, odd=bool(kn.odd))
        return
    p, h, t = hit
    g.need("encoding", "the digest at the end of the encoding", f.entails_eq(p + h - k), "it is compared at %s" % show(p)[:80])
    ok, why = g.digest(t)
    g.need("digest", "the digest of exactly the message", ok, why, odd=ok is None)
    name = hashname(st)
    key = {q.replace("-", "").upper(): v for q, v in DIGESTINFO.items()}
    if name is None or name.upper() not in key:
        if name is None:
            g.open("encoding", "the digest algorithm of this path is not known")
        else:
            g.open("encoding", "no standard prefix for %s" % name)
        return
    pre = bytes.fromhex(key[name.upper()])
    lit = lambda bs: Seq((("lit", tuple(Lin(b) for b in bs)),))
    tl = h + len(pre)
    # bytes known without a comparison: the message is right-aligned
    zero(g, kn, m, ZERO, k)
    holds(g, kn, "the leading 00", ZERO, ONE, lit([0]))
    holds(g, kn, "the block type 01", ONE, ONE, lit([1]))
    holds(g, kn, "the padding ff up to the separator", Lin(2), k - tl - 3, Seq((("fill", Lin(255), k - tl - 3),)))
    g.need("encoding", "at least eight bytes of padding", f.entails_ge(k - tl - 11))
    holds(g, kn, "the separator 00", k - tl - 1, ONE, lit([0]))
    holds(g, kn, "the algorithm identifier of %s" % name, k - tl, Lin(len(pre)), lit(pre))


def zero(g, kn, m, at, n):
    """positions before the right-aligned bytes are zero"""
    gap = n - m.blen
    if g.st.facts.entails_ge(gap - at - 1):
        kn.r.append((ZERO, gap, Seq((("fill", ZERO, gap),))))


def pss(g):
    r = rsa(g)
    if r is None:
        return
    x, n, nb, k = r
    st, f = g.st, g.st.facts
    L = ops.divc(st, nb + 6, 8)
    m, kn = known(g, x, L)
    zero(g, kn, m, ZERO, L)
    if not f.entails_ge(L - m.blen):
        g.need("encoding", "that the recovered integer fits the encoding", False)
    lit = lambda bs: Seq((("lit", tuple(Lin(b) for b in bs)),))
    hit = hashat(g, kn, lambda p, c: f.entails_eq(p + c + 1 - L))
    if hit is None:
        g.need("digest", "the digest in the encoding", False, odd=bool(kn.odd))
        return
    p, h, t = hit
    g.need("encoding", "the digest before the trailer", f.entails_eq(p + h + 1 - L), "it is compared at %s" % show(p)[:80])
    holds(g, kn, "the trailer bc", L - 1, ONE, lit([0xbc]))
    # bits of the first byte beyond the encoding length
    u = L.scale(8) - nb + 1
    g.need("encoding", "that the bits above the encoding length are zero", top(g, kn, m, x, u, nb), odd=any(not cmpmask(g, q, u) for _, q in kn.masks))
    # the data block
    outs = {y for b in conditions(g) for y in walk(b) if isinstance(y, T) and y.op == "mask" and any(z is x for z in walk(y))}
    dl = L - h - 1
    best = None
    for o in sorted(outs, key=lambda o: o.id):
        best = (o,) + tuple(o.args)
        if f.entails_eq(o.args[0].len - dl):
            break
    if best is None:
        g.need("encoding", "the unmasked data block", False, odd=bool(kn.odd) or bool(outs))
        return
    o, db, seed = best
    for what, have, off, c in (("that the data block starts the encoding", db, ZERO, dl), ("that the mask is seeded with the digest field", seed, dl, h)):
        ok, why = at(g, m, have, off, c)
        g.need("encoding", what, ok, why, odd=ok is None)
    dk = Known(g.I, st, lambda t, off: dbpos(g, t, off, o, u))
    one = [(p, n) for p, n, s in dk.r if n.const == 1 and s.p and s.p[0][0] == "lit" and s.p[0][1][0] == ONE]
    if not one:
        g.need("encoding", "the 01 before the salt", False, odd=bool(dk.odd))
        return
    p1 = one[0][0]
    slen = dl - 1 - p1
    own = all(plain_self(a) for a in slen.kids()) and slen.t or any(plain_self(a) and f.entails_eq(slen - Lin.atom(a)) for e in f.eq for a in e.kids())
    g.need("encoding", "that the salt has the configured length", bool(own), "it has %s" % show(slen)[:100])
    holds(g, dk, "the zeros before the salt", ZERO, p1, Seq((("fill", ZERO, p1),)))
    # the digest over zeros, message digest and salt
    start, content, _ = dig_chain(t.args[0])
    g.need("digest", "that the digest of the encoding is started from reset", start == "reset")
    content = flat(st, content)
    inner = next((q[1] for q in content.p if q[0] == "src" and q[1].op == "sum"), None)
    if inner is None:
        g.need("digest", "that the message digest enters the digest of the encoding", False)
        return
    ok, why = g.digest(inner)
    g.need("digest", "the digest of exactly the message", ok, why, odd=ok is None)
    want = Seq((("fill", ZERO, Lin(8)), ("src", inner, ZERO, dlen(g, inner)), ("src", o, p1 + 1, slen)))
    try:
        match(g.I, st, content, want)
        g.need("digest", "eight zeros, message digest and salt in the digest of the encoding", True)
    except Differ as e:
        g.need("digest", "eight zeros, message digest and salt in the digest of the encoding", False, str(e))


def plain_self(t):
    while isinstance(t, T) and t.op in ("fld", "*", "dbits", "div"):
        t = t.args[0]
        if isinstance(t, Lin):
            if len(t.t) != 1:
                return False
            t = t.t[0][0]
    return isinstance(t, T) and t.op == "P" and t.args[0] == "a0"


def at(g, m, s, off, n):
    """s is the message's range [off, off+n)"""
    f = g.st.facts
    if not f.entails_eq(s.len - n):
        return False, "it has %s bytes" % show(s.len)[:80]
    if len(s.p) == 1 and s.p[0][0] == "src":
        p = m.pos(s.p[0][1], s.p[0][2])
        if p is not None:
            return f.entails_eq(p - off), "it starts at %s" % show(p)[:80]
    if f.entails_eq(off):
        whole = Seq((("fill", ZERO, m.n - m.blen), ("src", m.base, ZERO, m.blen)))
        try:
            match(g.I, g.st, s, seq_slice(g.st, whole, off, n))
            return True, ""
        except Differ as e:
            return False, str(e)
        except Shape:
            pass
    return None, "not recognised"


def dbpos(g, t, off, o, u):
    """position in the unmasked block of byte off of t"""
    if t is o:
        return off
    s = pieces(t)
    if s is None:
        return None
    p = s.p
    if len(p) == 1 and p[0][0] == "src":
        q = dbpos(g, p[0][1], p[0][2], o, u)
        return None if q is None else q + off
    if len(p) == 2 and p[0][0] == "lit" and len(p[0][1]) == 1 and p[1][0] == "src" and p[1][1] is o and p[1][2].const == 1:
        v = unlin(p[0][1][0])
        if isinstance(v, T) and v.op == "&":
            el = [a for a in map(unlin, v.args) if isinstance(a, T) and a.op == "elem" and a.args[0] is o and a.args[1] is ZERO]
            mk = [a for a in map(unlin, v.args) if not (isinstance(a, T) and a.op == "elem")]
            if len(el) == 1 and len(mk) == 1 and isinstance(mk[0], T) and mk[0].op == ">>" and mk[0].args[0] == Lin(255) and g.st.facts.entails_eq(mk[0].args[1] - u):
                return off
    return None


def unlin(v):
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        return v.t[0][0]
    return v


def cmpmask(g, t, u):
    """(t == 0) says that the top u bits of the byte are zero; None if the form is not known"""
    t = unlin(t)
    f = g.st.facts
    if isinstance(t, T) and t.op == "&":
        for a, b in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            b = unlin(b)
            if isinstance(unlin(a), T) and unlin(a).op == "elem" and isinstance(b, T) and b.op == "<<" and b.args[0] == Lin(255):
                return f.entails_ge(Lin(8) - u - b.args[1])
            if isinstance(unlin(a), T) and unlin(a).op == "elem" and isinstance(b, T) and b.op == "!" :
                c = unlin(b.args[0])
                if isinstance(c, T) and c.op == ">>" and c.args[0] == Lin(255):
                    return f.entails_ge(u - c.args[1]) and f.entails_eq(u - c.args[1])
    if isinstance(t, T) and t.op == ">>" and isinstance(unlin(t.args[0]), T) and unlin(t.args[0]).op == "elem":
        return f.entails_ge(Lin(8) - u - t.args[1])
    return None


def top(g, kn, m, x, u, nb):
    f = g.st.facts
    if f.entails_eq(u):
        return True
    a = T("bits", x)
    note_atom(a)
    if f.entails_ge(nb - 1 - Lin.atom(a)):
        return True
    for p, t in kn.masks:
        if f.entails_eq(p) and cmpmask(g, t, u):
            return True
    return f.entails_ge(m.n - m.blen - 1)


# ---- DSA and ECDSA -----------------------------------------------------------------

def parts(g):
    """r and s: the two parts of the signature"""
    c = T("fld", g.sig, 0, 0)
    r = s = None
    for b in conditions(g):
        for x in walk(b):
            if isinstance(x, T) and x.op == "os2i" and len(x.args[0].p) == 1:
                q = x.args[0].p[0]
                if q[0] == "src" and q[1] is c:
                    if q[2] is ZERO:
                        r = x
                    else:
                        s = x
    return r, s


def final(g, r):
    """what r was found equal to"""
    out = []
    for b in facts_true(g.st):
        if b.op == "same":
            for x, y in (b.args, b.args[::-1]):
                if big(x) is r and any(z is g.msg for z in walk(y)):
                    out.append(big(y))
    return out


def vain(g):
    """the path needs an integer read from no bytes to be positive"""
    for b in conditions(g):
        for x in walk(b):
            if isinstance(x, T) and x.op == "os2i" and g.st.facts.entails_eq(x.args[0].len) and positive(g.st, x):
                return True
    return False


def half(g):
    r, s = parts(g)
    if (r is None or s is None) and vain(g):
        return None
    if r is None or s is None:
        g.need("value", "a comparison with r" if r is None else "a use of s", False)
        return None
    q, p = r.args[0].p[0], s.args[0].p[0]
    f = g.st.facts
    whole = Lin.atom(T("len", q[1]))
    g.need("value", "that r and s together are the signature", f.entails_eq(q[2] + q[3] - p[2]) and f.entails_eq(p[2] + p[3] - whole))
    vs = final(g, r)
    if len(vs) != 1:
        g.need("value", "that r equals the recomputed value", False, odd=len(vs) > 1)
        return None
    return r, s, vs[0]


def ranges(g, r, s, n):
    for nm, x in (("r", r), ("s", s)):
        g.need("range", "0 < %s" % nm, positive(g.st, x))
        g.need("range", "%s below the group order" % nm, below(g.st, x, n))


def hashint(g, t, q):
    """t is the leftmost bits of the message digest as an integer, as many as q has"""
    st, f = g.st, g.st.facts
    nb = T("bits", q)
    note_atom(nb)
    nb = Lin.atom(nb)
    sh = ZERO
    t = big(t)
    if isinstance(t, T) and t.op == "op" and t.args[0] == "Shr":
        sh = big(t.args[2])
        t = big(t.args[1])
    if not (isinstance(t, T) and t.op == "os2i" and len(t.args[0].p) == 1 and t.args[0].p[0][0] == "src" and t.args[0].p[0][1].op == "sum"):
        return None
    _, d, off, n = t.args[0].p[0]
    ok, why = g.digest(d)
    g.need("digest", "the digest of exactly the message", ok, why, odd=ok is None)
    h = dlen(g, d)
    have = n.scale(8) - sh
    # as many bits as the smaller of the digest and the order
    ok = f.entails_eq(off) and (f.entails_eq(n - h) and f.entails_eq(sh) and f.entails_ge(nb - h.scale(8)) or f.entails_eq(have - nb) and f.entails_ge(h - n))
    g.need("value", "that the leftmost bits of the digest, as many as the order has, are used", ok, "%s bits are used" % show(have)[:100])
    return t


def ratio(z, s):
    return {mono(((z, 1),), ((s, -1),)): 1}


def dsa(g):
    v = half(g)
    if v is None:
        return
    r, s, val = v
    st, f = g.st, g.st.facts
    if not (isinstance(val, T) and val.op == "mod"):
        g.need("value", "a value reduced modulo the group order", False, "it is %s" % show(val)[:80])
        return
    q = val.args[1]
    ranges(g, r, s, q)
    x = big(val.args[0])
    if not (isinstance(x, T) and x.op in ("mod", "exp")):
        g.need("value", "a value reduced modulo p, then q", False)
        return
    p = x.args[-1]
    e = group(x, p, q)
    if e is None or len(e) != 2:
        g.open("value", "not a product of two powers: %s" % show(x)[:80])
        return
    own = [b for b in e if isinstance(b, T) and b.op == "fld" and b.args[0] is q.args[0]]
    key = [b for b in e if b not in own]
    ok = len(own) == 1 and len(key) == 1 and isinstance(p, T) and p.op == "fld" and p.args[0] is q.args[0] and p is not q and own[0] not in (p, q)
    g.need("value", "powers of the generator and of the public value", ok)
    if not ok:
        return
    g.need("value", "the power r/s of the public value", e[key[0]] == ratio(r, s), "the exponent is %s" % pshow(e[key[0]]))
    two(g, e[own[0]], s, q, "the generator")


def two(g, e, s, q, what):
    """e is z/s for the digest value z"""
    (m, c), = list(e.items()) if len(e) == 1 else [(None, 0)]
    zs = [t for t, k in m or () if t is not s]
    ok = m is not None and c == 1 and len(zs) == 1 and dict(m).get(zs[0]) == 1 and dict(m).get(s) == -1
    if ok:
        z = hashint(g, shrbase(zs[0]), q)
        ok = z is not None
    g.need("value", "the power digest/s of %s" % what, ok, "the exponent is %s" % pshow(e))


def shrbase(t):
    return t


def pshow(e):
    return " + ".join("%d*%s" % (c, "*".join("(%s)^%d" % (show(t)[:60], k) for t, k in m)) for m, c in e.items())[:200]


def order(prog):
    """index of the group order among the curve parameters, through its accessor"""
    for f in local_fns(prog):
        a = self_adt(prog, f)
        if a and f["name"] == "base_point_order":
            return f
    return None


def ecdsa(g):
    v = half(g)
    if v is None:
        return
    r, s, val = v
    if not (isinstance(val, T) and val.op == "mod"):
        g.need("value", "a value reduced modulo the group order", False, "it is %s" % show(val)[:80])
        return
    n = val.args[1]
    f = order(g.run.prog)
    if f is not None:
        rr = Run(g.run.prog, f, Nums(g.run.prog))
        i = {t.args[2] for s0, v0 in rr.outs for t in walk(rr.I.freeze(s0, v0)) if isinstance(t, T) and t.op == "fld"}
        g.need("value", "a reduction modulo the order of the base point", len(i) == 1 and isinstance(n, T) and n.op == "fld" and n.args[2] in i)
    ranges(g, r, s, n)
    x = big(val.args[0])
    add = x.args[0] if isinstance(x, T) and x.op == "fld" and isinstance(x.args[0], T) and x.args[0].op == "pt" else None
    g.need("value", "the x coordinate of a sum of two points", add is not None and add.args[0] == "add" and x.args[2] == 0, "it is %s" % show(x)[:80])
    if add is None or add.args[0] != "add":
        return
    xs = [big(y) for y in add.args[1:]]
    pts = []
    for i in (0, 2):
        a, b = xs[i], xs[i + 1]
        ok = all(isinstance(y, T) and y.op == "fld" and isinstance(y.args[0], T) and y.args[0].op == "pt" for y in (a, b)) and a.args[0] is b.args[0] and (a.args[2], b.args[2]) == (0, 1)
        if not ok:
            g.need("value", "the coordinates of the two points in order", False)
            return
        pts.append(a.args[0])
    by = {t.args[0]: t for t in pts}
    if set(by) != {"scalar", "scalar_base_point"}:
        g.need("value", "a multiple of the base point and one of the public point", False, "%s" % sorted(by))
        return
    b, k = by["scalar_base_point"], by["scalar"]
    qx, qy, u2 = [big(y) for y in k.args[1:4]]
    ok = all(isinstance(y, T) and y.op == "fld" and not any(z is g.sig for z in walk(y)) for y in (qx, qy)) and qx.args[0] is qy.args[0] and qx.args[2] + 1 == qy.args[2]
    g.need("value", "the coordinates of the public point", ok)
    e2 = poly(scal(u2), n)
    g.need("value", "the multiple r/s of the public point", e2 == ratio(r, s), pshow(e2))
    two(g, poly(scal(b.args[1]), n), s, n, "the base point")


def scal(t):
    """the integer behind its word representation"""
    t = big(t)
    return t
