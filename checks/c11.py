"""C11: RSA decryption returns a message only after every check of the padding."""
from .c10 import *
from .c10 import Gate, holds, hashat, dlen, at, unlin, zero, conditions, plain_self, known

SCHEMES = ("OAEP", "PKCS1")


def check(progs, rep):
    rep.rule("returns", "decryption has a path that returns a message")
    rep.rule("length", "a message is returned only for a ciphertext as long as the modulus")
    rep.rule("range", "the private-key operation succeeds only for an integer below the modulus")
    rep.rule("encoding", "a message is returned only after leading bytes, label digest, padding and separator were compared with what is prescribed")
    rep.rule("unmask", "seed and data block are unmasked with the masks generated from each other")
    rep.rule("message", "what is returned is exactly what follows the separator")
    for cfg, prog in progs.items():
        if cfg != "A":
            continue
        seen = {}
        for f in local_fns(prog):
            a = self_adt(prog, f)
            if a and f.get("tname") == "Cipher" and f["name"] == "decrypt" and "::rsa::" in a["d"]:
                seen[a["n"].split("::")[-1]] = f
        for s in SCHEMES:
            rep.check(s in seen, "scheme:%s" % s, "%s decrypts" % s)
        for s, f in seen.items():
            one(rep, prog, s, f)
        power(rep, prog)


class Dec(Gate):
    verb = "decryption can return a message"

    def __init__(self, rep, run, st, name, f):
        Gate.__init__(self, rep, run, st, name, f)
        self.ct = T("*", T("P", "a2"))
        self.out = run.I.seq(st, run.args[1])


def one(rep, prog, name, f):
    run = attempt(rep, prog, f, Nums(prog), prep=wide)
    if run is None:
        return
    ok = [(s, v) for s, v in run.ok() if not s.facts.infeasible()]
    rep.check(len(ok) > 0, "returns:%s" % name, "%s: %d paths return a message" % (name, len(ok)), where(f))
    h = {"OAEP": oaep, "PKCS1": pkcs1}.get(name)
    for s, v in ok:
        g = Dec(rep, run, s, name, f)
        why = guarded(lambda: h(g), 100)
        if why is not None:
            g.open("all", why)


def power(rep, prog):
    """the private-key operation"""
    for f in local_fns(prog):
        a = self_adt(prog, f)
        if a is None or "::rsa::" not in a["d"] or a["n"].split("::")[-1] != "PrivateKey" or f["name"] != "decrypt":
            continue
        pol = Nums(prog)
        pol.key = {d for d in pol.key if d != f["d"]}
        run = attempt(rep, prog, f, pol, prep=wide, limit=60)
        if run is None:
            return
        for s, v in run.ok():
            if s.facts.infeasible():
                continue
            n = modulus(prog, run.I, s, run.args[0])
            x = big(run.I.freeze(s, run.args[1]))
            ok = below(s, x, n) or any(below(s, y, n) for y in (T("*", T("P", "a1")),))
            rep.check(ok, "range:%s" % f["n"], "the private-key operation rejects integers not below the modulus", where(f),
                      text="the private-key operation can succeed for an integer that is not below the modulus")


def base(g):
    """the decrypted integer"""
    st = g.st
    xs = set()
    for b in list(conditions(g)) + [g.out]:
        xs |= {x for x in walk(b) if isinstance(x, T) and x.op == "rsadp"}
    if len(xs) != 1:
        if not xs:
            g.need("encoding", "any condition on the decrypted block", False)
        else:
            g.open("encoding", "%d private-key operations" % len(xs))
        return None
    x, = xs
    n, c = big(x.args[0]), big(x.args[1])
    if not (isinstance(c, T) and c.op == "os2i"):
        g.open("encoding", "decrypts %s" % show(c)[:80])
        return None
    whole = Seq((("src", g.ct, ZERO, Lin.atom(T("len", g.ct))),))
    try:
        match(g.I, st, c.args[0], whole)
        g.need("encoding", "that the whole ciphertext is used", True)
    except Differ as e:
        g.need("encoding", "that the whole ciphertext is used", False, str(e))
    nb = T("bits", n)
    note_atom(nb)
    k = ops.divc(st, Lin.atom(nb) + 7, 8)
    g.need("length", "a ciphertext of the length of the modulus", st.facts.entails_eq(Lin.atom(T("len", g.ct)) - k))
    return x, n, k


def points(kn, val, f):
    """positions known to hold a byte"""
    r = []
    for p, n, s in kn.r:
        if n.const == 1 and len(s.p) == 1 and s.p[0][0] == "lit" and s.p[0][1][0] == Lin(val):
            r.append(p)
    return r


def separator(g, kn, val, after, low):
    """the position of the separator: behind `after`, and everything in between is `low`"""
    f = g.st.facts
    c = [p for p in points(kn, val, f) if f.entails_ge(p - after)]
    for p in c:
        if f.entails_eq(p - after) or low(p):
            return p
    return c[0] if c else None


def result(g, src, lo, n):
    try:
        match(g.I, g.st, g.out, Seq((("src", src, lo, n),)))
        g.need("message", "that the message is what follows the separator", True)
    except Differ as e:
        g.need("message", "that the message is what follows the separator", False, str(e))


def nonzero(kn, st, lo, hi):
    f = st.facts
    return any(0 not in vs and f.entails_ge(lo - p) and f.entails_ge(p + n - hi) for p, n, vs in kn.wide)


def lit(bs):
    return Seq((("lit", tuple(Lin(b) for b in bs)),))


def pkcs1(g):
    r = base(g)
    if r is None:
        return
    x, n, k = r
    st, f = g.st, g.st.facts
    m, kn = known(g, x, k)
    zero(g, kn, m, ZERO, k)
    holds(g, kn, "the leading 00", ZERO, ONE, lit([0]))
    holds(g, kn, "the block type 02", ONE, ONE, lit([2]))
    p = separator(g, kn, 0, Lin(2), lambda p: nonzero(kn, st, Lin(2), p))
    if p is None:
        g.need("encoding", "the separator 00", False, odd=bool(kn.odd))
        return
    g.need("encoding", "the separator 00", True)
    g.need("encoding", "that the padding before the separator has no 00", nonzero(kn, st, Lin(2), p), odd=bool(kn.odd))
    g.need("encoding", "at least eight bytes of padding", f.entails_ge(p - 10), "the separator is at %s" % show(p)[:80])
    message(g, m, p + 1, k)


def message(g, m, lo, k):
    """the returned bytes are the message's from lo to its end"""
    f = g.st.facts
    s = flat(g.st, g.out)
    n = k - lo
    if f.entails_eq(n) and f.entails_eq(s.len):
        return g.need("message", "that the message is what follows the separator", True)
    ok, why = at(g, m, g.out, lo, n)
    g.need("message", "that the message is what follows the separator", ok, why, odd=ok is None)


def oaep(g):
    r = base(g)
    if r is None:
        return
    x, n, k = r
    st, f = g.st, g.st.facts
    m, kn = known(g, x, k)
    zero(g, kn, m, ZERO, k)
    holds(g, kn, "the leading 00", ZERO, ONE, lit([0]))
    ms = {y for b in list(conditions(g)) + [g.out] for y in walk(b) if isinstance(y, T) and y.op == "mask" and any(z is x for z in walk(y))}
    dbs = [y for y in ms if any(isinstance(z, T) and z.op == "mask" for z in walk(y.args[1]))]
    if len(dbs) != 1:
        if len(dbs) == 0:
            g.need("unmask", "that the data block is unmasked with the unmasked seed", False, odd=bool(kn.odd) and not ms)
        else:
            g.open("unmask", "%d data blocks" % len(dbs))
        return
    db, = dbs
    sd = next(z for z in walk(db.args[1]) if isinstance(z, T) and z.op == "mask")
    dk = Known(g.I, st, lambda t, off: inblock(g, t, off, db))
    hit = hashat(g, dk, lambda p, c: f.entails_eq(p))
    if hit is None:
        g.need("encoding", "the digest of the label", False, odd=bool(dk.odd))
        return
    p, h, t = hit
    g.need("encoding", "the label digest at the start of the data block", f.entails_eq(p), "it is compared at %s" % show(p)[:80])
    start, content, _ = dig_chain(t.args[0])
    own = len(content.p) == 1 and content.p[0][0] == "src" and plain_self(content.p[0][1]) and content.p[0][2] is ZERO and content.p[0][3] is Lin.atom(T("len", content.p[0][1]))
    g.need("encoding", "that the digest is that of the label", start == "reset" and own, "%s: %s" % (start, show(content)[:80]))
    dl = k - h - 1
    for what, s, off, c in (("that the seed field is unmasked", sd.args[0], ONE, h), ("that the seed is unmasked with the data block", sd.args[1], h + 1, dl),
                            ("that the data block is unmasked", db.args[0], h + 1, dl)):
        ok, why = at(g, m, s, off, c)
        g.need("unmask", what, ok, why, odd=ok is None)
    try:
        match(g.I, st, db.args[1], Seq((("src", sd, ZERO, h),)))
        g.need("unmask", "that the data block is unmasked with the whole seed", True)
    except Differ as e:
        g.need("unmask", "that the data block is unmasked with the whole seed", False, str(e))
    zeros = lambda p: any(vs == {0} and f.entails_ge(h - q) and f.entails_ge(q + c - p) for q, c, vs in dk.wide)
    p = separator(g, dk, 1, h, zeros)
    if p is None:
        g.need("encoding", "the separator 01", False, odd=bool(dk.odd))
        return
    g.need("encoding", "the separator 01", True)
    holds(g, dk, "the zeros before the separator", h, p - h, Seq((("fill", ZERO, p - h),)))
    result(g, db, p + 1, dl - p - 1)


def inblock(g, t, off, db):
    """position in the data block of byte off of t"""
    if t is db:
        return off
    s = pieces(t)
    if s is None:
        return None
    at = ZERO
    for q in s.p:
        if q[0] == "src":
            r = inblock(g, q[1], q[2], db) if q[1] is db or q[1].op == "seq" else None
            if r is not None and g.st.facts.entails_ge(off - at) and (off is at or g.st.facts.entails_ge(at + q[3] - off)):
                return off - at + r
        at = at + plen(q)
    return None
