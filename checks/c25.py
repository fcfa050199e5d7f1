"""C25: signatures and ciphertexts are built as the schemes prescribe."""
from .gates import *
from .common import *
from .refs import PKCS1 as DIGESTINFO
from .c10 import Gate, Skip, dlen, hashname, hashint, plain_self, pshow, order, unlin
from .c13 import Draws, Region, Open, Bad, brief, nonzero
from engine.contracts import dig_chain

MAKERS = {("PSS", "sign"), ("PKCS1", "sign"), ("PKCS1", "encrypt"), ("OAEP", "encrypt"), ("DSA", "sign"), ("ECDSA", "sign")}

FREE = ("sum", "i2os", "mask", "rng", "blocks")   # sources whose bytes no constant can stand for


def check(progs, rep):
    rep.rule("output", "an RSA result is the power of the encoding, written big-endian in exactly as many bytes as the modulus has")
    rep.rule("encoding", "the integer raised is the encoding the scheme prescribes for the message, byte for byte")
    rep.rule("digest", "the digest in the encoding is that of exactly the message, started from reset")
    rep.rule("r", "r is the prescribed power of the generator or multiple of the base point, reduced modulo the group order, and not zero")
    rep.rule("s", "s is (digest + secret * r) / nonce modulo the group order with the nonce of r, and not zero")
    rep.rule("content", "the signature holds r, then s")
    for cfg, prog in progs.items():
        if cfg != "A":
            continue
        seen = {}
        for f in local_fns(prog):
            if f.get("tname") in ("Signature", "Cipher") and f["name"] in ("sign", "encrypt") and f["kind"] == "fn" and not f.get("intrait"):
                a = self_adt(prog, f)
                k = (a["n"].split("::")[-1], f["name"]) if a else None
                if k in MAKERS:
                    seen[k] = f
        for k in sorted(MAKERS):
            rep.check(k in seen, "scheme:%s:%s" % k, "%s of %s" % k[::-1], text="no %s of %s found" % k[::-1])
        for k, f in sorted(seen.items()):
            one(rep, prog, k, f)


class Made(Gate):
    verb = "can return a result"

    def __init__(self, rep, run, st, name, f):
        Gate.__init__(self, rep, run, st, name, f)
        self.out = self.I.freeze(st, run.args[1])

    def need(self, rule, what, ok, why="", odd=False):
        if ok:
            self.rep.hold("%s: %s: %s" % (rule, self.name, what))
        elif odd:
            self.open(rule, "%s: %s" % (what, why))
        else:
            self.rep.violation("%s:%s:%s" % (rule, self.name, what), "%s %s for which this does not hold: %s%s" % (self.name, self.verb, what, "; " + why if why else ""), where(self.f))

    def same(self, rule, what, have, want):
        try:
            match(self.I, self.st, have, want, FREE)
        except Differ as e:
            return self.need(rule, what, False, str(e))
        self.need(rule, what, True)

    def part(self, s, off, n):
        return seq_slice(self.st, s, off, n)


def one(rep, prog, k, f):
    run = attempt(rep, prog, f, Draws(prog), prep=wide, limit=200)
    if run is None:
        return
    name = "%s::%s" % k
    ok = [(s, v) for s, v in run.ok() if not s.facts.infeasible()]
    rep.check(len(ok) > 0, "some:%s" % name, "%s: %d paths return a result" % (name, len(ok)), where(f))
    h = {"PSS": pss, "PKCS1": pkcs1, "OAEP": oaep, "DSA": dsa, "ECDSA": ecdsa}[k[0]]
    for s, v in ok:
        g = Made(rep, run, s, name, f)
        why = guarded(lambda: h(g), 100)
        if why is not None:
            g.open("all", why)


def lit(*bs):
    return Seq((("lit", tuple(Lin(b) for b in bs)),))


def outbytes(g):
    """the bytes returned: the first byte sequence among the fields of the result"""
    x = g.out
    for _ in range(8):
        if isinstance(x, Seq):
            return x
        if isinstance(x, T) and x.op in ("&", "seq"):
            x = x.args[0]
        elif isinstance(x, Agg):
            x = next((y for y in x.f if isinstance(y, (Seq, Agg))), None)
        else:
            break
    return None


def power(g):
    """(power, encoding, modulus, k): the power released and what was raised"""
    out = outbytes(g)
    if out is None:
        g.open("output", "no bytes in %s" % brief(g.out))
        return None
    st = g.st
    ps = [p for p in flat(st, out).p if p[0] == "src" and p[1].op == "i2os"]
    if not ps:
        g.need("output", "the power of an encoding", False, "the result is %s" % show(out)[:120], odd=any(isinstance(x, T) and x.op in ("exp", "rsadp") for x in walk(out)))
        return None
    x = big(ps[-1][1].args[0])
    if isinstance(x, T) and x.op == "exp":
        n, m = big(x.args[2]), big(x.args[0])
    elif isinstance(x, T) and x.op == "rsadp":
        n, m = x.args[0], big(x.args[1])
    else:
        g.need("output", "the power of an encoding", False, "the result is %s" % brief(x))
        return None
    k = bytelen(st, n)
    bl = bytelen(st, x)
    st.facts.add_ge(k - bl)
    what = "the power, zero-extended to the length of the modulus"
    want = Seq((("fill", ZERO, k - bl), ("src", T("i2os", x), ZERO, bl)))
    for pad in (False, True):
        s = st.copy()
        if pad:
            s.facts.add_ge(k - bl - 1)
            s.facts.add_ge(bl - 1)
        else:
            s.facts.add_eq(k - bl)
        if s.facts.infeasible():
            continue
        try:
            match(g.I, s, out, want, FREE)
        except Differ as e:
            g.need("output", what, False, str(e))
            break
    else:
        g.need("output", what, True)
    if not (isinstance(m, T) and m.op == "os2i"):
        g.need("encoding", "that an encoding is raised", False, "%s is raised" % brief(m))
        return None
    return x, m.args[0], n, k


def msgseq(g):
    return Seq((("src", g.msg, ZERO, Lin.atom(T("len", g.msg))),))


def pkcs1(g):
    r = power(g)
    if r is None:
        return
    x, em, n, k = r
    hs = [p for p in flat(g.st, em).p if p[0] == "src" and p[1].op == "sum"]
    if hs:
        h = dlen(g, hs[0][1])
    g.need("encoding", "an encoding as long as the modulus", g.st.facts.entails_eq(em.len - k), "it has %s bytes" % show(em.len)[:100])
    if g.f["name"] == "encrypt":
        ml = Lin.atom(T("len", g.msg))
        g.same("encoding", "separator and message at the end", g.part(em, k - ml - 1, ml + 1), lit(0) + msgseq(g))
        head(g, em)
        return
    if len(hs) != 1:
        g.need("encoding", "one digest", False, "%d digests in the encoding" % len(hs))
        return
    d = hs[0][1]
    ok, why = g.digest(d)
    g.need("digest", "the digest of exactly the message", ok, why, odd=ok is None)
    name = hashname(g.st)
    if name not in DIGESTINFO:
        g.open("encoding", "digest %s" % name)
        return
    pre = tuple(bytes.fromhex(DIGESTINFO[name]))
    ps = k - h - len(pre) - 3
    g.need("encoding", "at least eight ff", g.st.facts.entails_ge(ps - 8), "their number is %s" % show(ps)[:100])
    g.same("encoding", "00 01 ff.. 00 prefix digest for %s" % name, em, lit(0, 1) + Seq((("fill", Lin(255), ps),)) + lit(0, *pre) + Seq((("src", d, ZERO, h),)))


def head(g, em):
    p = em.p[0] if em.p else None
    h = None
    if p is not None and p[0] == "lit":
        h = p[1]
    elif p is not None and p[0] == "src" and p[1].op in ("mu", "app"):
        try:
            bs = Region(g.I, g.st, loose=True).grammar(p[1])
        except (Open, Bad) as e:
            g.open("encoding", "first bytes: %s" % e)
            return
        hs = {tuple(c for q in b.p for c in q[1]) if all(q[0] == "lit" for q in b.p) else None for b in bs}
        h = hs.pop() if len(hs) == 1 else None
    if h is None:
        g.open("encoding", "first bytes %s" % brief(p))
        return
    g.need("encoding", "the first bytes 00 02", tuple(h[:2]) == (ZERO, Lin(2)), "they are %s" % show(tuple(h[:2])))


def oaep(g):
    r = power(g)
    if r is None:
        return
    x, em, n, k = r
    st, f = g.st, g.st.facts
    g.need("encoding", "an encoding as long as the modulus", f.entails_eq(em.len - k), "it has %s bytes" % show(em.len)[:100])
    ms = {t for t in walk(em) if isinstance(t, T) and t.op == "mask"}
    dbs = [m for m in ms if not any(isinstance(y, T) and y.op == "mask" for y in walk(m.args))]
    sds = [m for m in ms if m not in dbs]
    if len(dbs) != 1 or len(sds) != 1:
        g.need("encoding", "a masked data block and a masked seed", False, "%d masks of plain bytes, %d of masked ones" % (len(dbs), len(sds)))
        return
    db, sd = dbs[0], sds[0]
    hs = [p[1] for p in flat(st, db.args[0]).p if p[0] == "src" and p[1].op == "sum"]
    if not hs:
        g.need("encoding", "the digest of the label in the data block", False)
        return
    h = dlen(g, hs[0])
    start, label, _ = dig_chain(hs[0].args[0])
    own = len(label.p) == 1 and label.p[0][0] == "src" and plain_self(label.p[0][1]) and label.p[0][2] is ZERO and label.p[0][3] is Lin.atom(T("len", label.p[0][1]))
    g.need("encoding", "that the digest is that of the label", start == "reset" and own, "%s: %s" % (start, show(label)[:80]))
    dl = k - h - 1
    ml = Lin.atom(T("len", g.msg))
    ps = dl - h - 1 - ml
    g.need("encoding", "that the message leaves room for digest and separator", f.entails_ge(ps), "%s may be negative" % show(ps)[:100])
    g.same("encoding", "label digest, zeros, 01 and message in the data block", db.args[0], Seq((("src", hs[0], ZERO, h), ("fill", ZERO, ps))) + lit(1) + msgseq(g))
    g.same("encoding", "that the seed is masked with the masked data block", sd.args[1], Seq((("src", db, ZERO, dl),)))
    g.need("encoding", "a seed as long as the digest", f.entails_eq(sd.args[0].len - h), "it has %s bytes" % show(sd.args[0].len)[:100])
    g.same("encoding", "that the data block is masked with the seed", db.args[1], sd.args[0])
    g.same("encoding", "00, masked seed, masked data block", em, lit(0) + Seq((("src", sd, ZERO, h), ("src", db, ZERO, dl))))


def pss(g):
    r = power(g)
    if r is None:
        return
    x, em, n, k = r
    st, f = g.st, g.st.facts
    nb = T("bits", n)
    note_atom(nb)
    nb = Lin.atom(nb)
    L = ops.divc(st, nb + 6, 8)
    g.need("encoding", "an encoding of one bit less than the modulus", f.entails_eq(em.len - L), "it has %s bytes" % show(em.len)[:100])
    ms = {t for t in walk(em) if isinstance(t, T) and t.op == "mask"}
    if len(ms) != 1:
        g.need("encoding", "one masked data block", False, "%d" % len(ms))
        return
    db, = ms
    hs = [p[1] for p in flat(st, db.args[1]).p if p[0] == "src" and p[1].op == "sum"]
    if not hs:
        g.need("encoding", "that the mask is seeded with the digest", False)
        return
    t = hs[0]
    h = dlen(g, t)
    g.same("encoding", "that the mask is seeded with the digest", db.args[1], Seq((("src", t, ZERO, h),)))
    dl = L - h - 1
    start, body, _ = dig_chain(t.args[0])
    g.need("digest", "that the digest of the encoding is started from reset", start == "reset")
    body = flat(st, body)
    inner = next((q[1] for q in body.p if q[0] == "src" and q[1].op == "sum"), None)
    if inner is None:
        g.need("digest", "that the message digest enters the digest of the encoding", False)
        return
    ok, why = g.digest(inner)
    g.need("digest", "the digest of exactly the message", ok, why, odd=ok is None)
    hi = dlen(g, inner)
    sl = body.len - 8 - hi
    salt = g.part(body, hi + 8, sl)
    g.same("digest", "eight zeros, message digest and salt in the digest of the encoding", body, Seq((("fill", ZERO, Lin(8)), ("src", inner, ZERO, hi))) + salt)
    ps = dl - 1 - sl
    g.need("encoding", "room for digest and salt", f.entails_ge(ps), "%s may be negative" % show(ps)[:100])
    g.same("encoding", "zeros, 01 and salt in the data block", db.args[0], Seq((("fill", ZERO, ps),)) + lit(1) + salt)
    g.same("encoding", "masked data block, digest and bc", g.part(em, ONE, L - 1), Seq((("src", db, ONE, dl - 1), ("src", t, ZERO, h))) + lit(0xbc))
    first = seq_get(st, em, ZERO)
    u = L.scale(8) - nb + 1
    g.need("encoding", "that the bits of the first byte above the encoding length are cleared", cleared(g, first, db, u), "it is %s" % show(first)[:160], odd=cleared(g, first, db, u) is None)


def cleared(g, t, db, u):
    f = g.st.facts
    t = unlin(t)
    e = T("elem", db, ZERO)
    if t is e:
        return f.entails_eq(u)
    if isinstance(t, Lin) and t.t and all(a is e or a.op == "div" and a.args[0] in (e, Lin.atom(e)) for a, _ in t.t):
        # a fixed number of leading bits is cleared
        return any(f.entails_eq(u - i) and t == Lin.atom(e) - ops.divc(g.st, Lin.atom(e), 256 >> i).scale(256 >> i) for i in range(1, 8))
    if isinstance(t, T) and t.op == "&":
        for a, b in (t.args, t.args[::-1]):
            b = unlin(b)
            if unlin(a) is e and isinstance(b, T) and b.op == ">>" and b.args[0] == Lin(255):
                return f.entails_eq(b.args[1] - u)
            if unlin(a) is e and isinstance(b, Lin) and b.const is not None:
                return any(f.entails_eq(u - i) and b.c == 255 >> i for i in range(8))
    return None


# ---- DSA and ECDSA -----------------------------------------------------------------

def two(g):
    """the integers r and s written into the signature"""
    out = outbytes(g)
    st = g.st
    ps = flat(st, out).p if out is not None else ()
    if len(ps) != 2 or any(p[0] != "src" or p[1].op != "i2os" for p in ps):
        g.need("content", "r and s, nothing else", False, show(out)[:160], odd=out is None)
        return None
    r, s = (big(p[1].args[0]) for p in ps)
    f = st.facts
    whole = all(f.entails_eq(p[2]) and f.entails_eq(p[3] - bytelen(st, x)) for p, x in zip(ps, (r, s)))
    # the length of r is kept with the content
    nums = [x for a in walk(g.out) if isinstance(a, Agg) for x in a.f if isinstance(x, Lin)]
    kept = len(nums) >= 1 and f.entails_eq(nums[0] - bytelen(st, r))
    g.need("content", "all the bytes of r and s", whole)
    g.need("content", "the length of r", kept, show(tuple(nums))[:100])
    for nm, x in (("r", r), ("s", s)):
        g.need(nm, "that %s is not zero" % nm, nonzero(st, x))
    return r, s


def ess(g, s, r, k, q):
    """s = (z + x r) / k"""
    e = poly(s, q)
    R = poly(r, q)
    if len(R) != 1:
        g.open("s", "r is %s" % brief(r))
        return
    (rm, c), = R.items()
    ts = {m: over(m, k) for m in e}
    zs = [m for m, t in ts.items() if t is not None and digestint(t)]
    xs = [m for m in e if m not in zs]
    ok = len(e) == 2 and len(zs) == 1 and ts[xs[0]] is not None and all(v == 1 for v in e.values())
    g.need("s", "two terms over the nonce, one of them the digest", ok, "s is %s" % pshow(e))
    if not ok:
        return
    z = hashint(g, ts[zs[0]][0][0], q)
    g.need("s", "the message digest over the nonce", z is not None, "s is %s" % pshow(e))
    rest = mono(ts[xs[0]], tuple((t, -i) for t, i in rm))
    ok = len(rest) == 1 and rest[0][1] == 1 and isinstance(rest[0][0], T) and rest[0][0].op == "fld" and plain_self(rest[0][0])
    g.need("s", "the secret times r over the nonce", ok, "s is %s" % pshow(e))


def over(m, k):
    """what is divided by the nonce k, or None"""
    if dict(m).get(k) == -1:
        return tuple((t, i) for t, i in m if t is not k)
    for t, i in m:
        if isinstance(t, T) and t.op == "invp" and i == 1 and big(t.args[0].args[0]) is k:
            return tuple((u, j) for u, j in m if u is not t)
    return None


def digestint(m):
    if len(m) != 1 or m[0][1] != 1:
        return False
    t = big(m[0][0])
    u = big(t.args[1]) if isinstance(t, T) and t.op == "op" and t.args[0] == "Shr" else t
    return isinstance(u, T) and u.op == "os2i"


def dsa(g):
    v = two(g)
    if v is None:
        return
    r, s = v
    if not (isinstance(r, T) and r.op == "mod"):
        g.need("r", "a value reduced modulo the group order", False, "it is %s" % brief(r))
        return
    q = big(r.args[1])
    x = big(r.args[0])
    if not (isinstance(x, T) and x.op == "exp"):
        g.need("r", "a power reduced modulo p, then q", False, "it is %s" % brief(x))
        return
    b, k, p = (big(y) for y in x.args)
    ok = all(isinstance(y, T) and y.op == "fld" for y in (b, p, q)) and b.args[0] is p.args[0] and p.args[0] is q.args[0] and len({b, p, q}) == 3
    g.need("r", "generator, modulus and order of one set of domain parameters", ok, "%s, %s, %s" % (brief(b), brief(p), brief(q)))
    if not (isinstance(s, T) and s.op == "mod" and big(s.args[1]) is q):
        g.need("s", "a value reduced modulo the group order", False, "it is %s" % brief(s))
        return
    ess(g, s, r, k, q)


def ecdsa(g):
    v = two(g)
    if v is None:
        return
    r, s = v
    if not (isinstance(r, T) and r.op == "mod"):
        g.need("r", "a value reduced modulo the group order", False, "it is %s" % brief(r))
        return
    n = big(r.args[1])
    f = order(g.run.prog)
    if f is not None:
        rr = Run(g.run.prog, f, Nums(g.run.prog))
        i = {t.args[2] for s0, v0 in rr.outs for t in walk(rr.I.freeze(s0, v0)) if isinstance(t, T) and t.op == "fld"}
        g.need("r", "a reduction modulo the order of the base point", len(i) == 1 and isinstance(n, T) and n.op == "fld" and n.args[2] in i)
    x = big(r.args[0])
    ok = isinstance(x, T) and x.op == "fld" and isinstance(x.args[0], T) and x.args[0].op == "pt" and x.args[0].args[0] == "scalar_base_point" and x.args[2] == 0
    g.need("r", "the x coordinate of a multiple of the base point", ok, "it is %s" % brief(x))
    if not ok:
        return
    k = big(x.args[0].args[1])
    if not (isinstance(s, T) and s.op == "mod" and big(s.args[1]) is n):
        g.need("s", "a value reduced modulo the group order", False, "it is %s" % brief(s))
        return
    ess(g, s, r, k, n)
