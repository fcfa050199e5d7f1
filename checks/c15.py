"""C15: digests inside the schemes start from reset and cover exactly the prescribed fields."""
from .c10 import *
from .c10 import plain_self, dlen
from .bigs import Signs
from .c12 import derived, short
from engine.contracts import dig_chain, dig_steps, eta
from .c02 import ctors_of, success

OPS = {"sign": "Signature", "verify": "Signature", "encrypt": "Cipher", "decrypt": "Cipher"}


def check(progs, rep):
    rep.rule("reset", "the digest was reset before the first byte of what its value covers")
    rep.rule("extended", "nothing was written to the digest between taking its value and the next reset")
    rep.rule("fields", "what went in since the reset is one of the prescribed field lists of the scheme")
    rep.rule("mask", "each block of a mask is the digest of the seed followed by the block number in four bytes, most significant first, counted from 0")
    rep.rule("mac", "the MAC of a message is H(K' ^ 5c.. || H(K' ^ 36.. || message)) with K' the key padded with zeros to a block, or its digest if it is longer")
    for cfg, prog in progs.items():
        if cfg != "A":
            continue
        n = 0
        for f in local_fns(prog):
            a = self_adt(prog, f)
            if a is None or f.get("intrait") or not f.get("tname") or OPS.get(f["name"]) != f["tname"]:
                continue
            s = a["n"].split("::")[-1]
            if s in FIELDS:
                n += scheme(rep, prog, s, f)
        rep.check(n >= 11, "count:digests", "%d digest values taken on the paths of the schemes" % n, text="only %d digest values found in the schemes" % n)
        ms = [prog.fns[d] for d in sorted(maskgens(prog))]
        rep.check(len(ms) >= 2, "count:masks", "%d mask generators" % len(ms), text="%d instead of 2 mask generators found" % len(ms))
        for f in ms:
            mask(rep, prog, f)
        macs = [a for a in prog.adts.values() if a["local"] and a["n"].split("::")[-1] == "HMAC"]
        rep.check(len(macs) == 1, "count:mac", "the MAC built from a digest", text="HMAC not found")
        for a in macs:
            mac(rep, prog, a)


class Path(Gate):
    verb = "takes a digest"

    def need(self, rule, what, ok, why=""):
        if ok:
            self.rep.hold("%s: %s: %s" % (rule, self.name, what))
        else:
            self.rep.violation("%s:%s:%s" % (rule, self.name, what), "%s: %s does not hold%s" % (self.name, what, "; " + why if why else ""), where(self.f))


def events(evs):
    for e in evs:
        if e.kind == "loop":
            for b in e.x["backs"]:
                yield from events(b)
        else:
            yield e


def scheme(rep, prog, s, f):
    name = short(prog, f)
    run = attempt(rep, prog, f, Signs(prog), prep=wide)
    if run is None:
        return 1
    seen = set()
    for st, v in run.outs:
        if st.facts.infeasible():
            continue
        g = Path(rep, run, st, name, f)
        for e in events(st.events()):
            if e.kind != "digest" or e.name != "checksum":
                continue
            k = (st.facts.key() if hasattr(st.facts, "key") else id(st), e.args[0])
            if k in seen:
                continue
            seen.add(k)
            why = guarded(lambda: taken(g, s, e), 60)
            if why is not None:
                g.open("fields", why)
    return len({k[1] for k in seen})


def where_ev(e):
    return "%s:%s" % (rel(e.span[0]), e.span[1]) if e.span else ""


def order(g, t, e=None):
    """reset first, then writes, then the value; False if not"""
    steps = dig_steps(t)
    if not steps or steps[0] != "r":
        if loopfed(g, t):
            g.open("reset", "the digest is fed in a loop")
            return False
    g.need("reset", "the digest is reset first", bool(steps) and steps[0] == "r", where_ev(e) if e else "")
    late = False
    fin = False
    for x in steps:
        if x == "c":
            fin = True
        elif isinstance(x, tuple) and fin:
            late = True
    g.need("extended", "no write between value and reset", not late, where_ev(e) if e else "")
    return bool(steps) and steps[0] == "r" and not late


def loopfed(g, t, depth=0):
    """the digest entered a loop after a reset, and the loop only writes to it"""
    t = eta(t)
    while isinstance(t, T) and t.op == "dig":
        t = eta(t.args[1])
    d = g.I.mudef.get(t) if isinstance(t, T) else None
    if d is None or "backs" not in d or depth > 3:
        return False
    b0 = eta(d["init"].t if isinstance(d["init"], Sym) else d["init"])
    s = dig_steps(b0)
    if (not s or s[0] != "r" or "c" in s) and not loopfed(g, b0, depth + 1):
        return False
    for b in d["backs"]:
        s = dig_steps(b.t if isinstance(b, Sym) else b)
        if not s and (b.t if isinstance(b, Sym) else b) is not t or any(not isinstance(x, tuple) for x in s):
            return False
    return True


def taken(g, s, e):
    if not order(g, e.args[0], e):
        return
    _, content, fin = dig_chain(e.args[0])
    content = flat(g.st, content)
    why, odd = [], False
    for what, rule in FIELDS[s]:
        if what.startswith("sign:") and g.f["name"] != "sign":
            continue
        r = rule(g, content)
        if r is True:
            g.need("fields", "the digest of %s" % what.replace("sign:", ""), True)
            return
        odd = odd or r is None
        why.append(what.replace("sign:", ""))
    if odd and not (content.p and all(p[0] == "src" for p in content.p)):
        g.open("fields", "%s at %s" % (show(content)[:80], where_ev(e)))
        return
    g.need("fields", "a digest covers %s" % " or ".join(why), False, "%s goes into the digest taken at %s" % (show(content)[:160], where_ev(e)))


def equal(g, a, b):
    try:
        match(g.I, g.st, a, b)
        return True
    except Differ:
        return False
    except Shape:
        return None


def whole(t):
    return Seq((("src", t, ZERO, Lin.atom(T("len", t))),))


def message(g, c):
    f = g.st.facts
    for p in c.p:
        if p[0] == "lit" and p[1] or p[0] == "src" and isinstance(p[1], T) and p[1] is not g.msg and p[1].op in ("sum", "fld") and not any(x is g.msg for x in walk(p[1]) if p[1].op != "sum"):
            return False
    return equal(g, c, whole(g.msg))


def label(g, c):
    if len(c.p) != 1 or c.p[0][0] != "src":
        return False
    _, t, o, n = c.p[0]
    return plain_self(t) and o.const == 0 and n is Lin.atom(T("len", t))


def msgdigest(g, t):
    """t is the digest of the whole message"""
    if not isinstance(t, T) or t.op != "sum":
        return False
    steps = dig_steps(t.args[0])
    return bool(steps) and steps[0] == "r" and equal(g, flat(g.st, dig_chain(t.args[0])[1]), whole(g.msg)) is True


def prefixed(g, c):
    """eight zeros, the digest of the message, the salt"""
    f = g.st.facts
    rest = c
    z = cut(g, rest, Lin(8))
    if z is None:
        return False
    head, rest = z
    if equal(g, head, Seq((("fill", ZERO, Lin(8)),))) is not True:
        return False
    if not rest.p or rest.p[0][0] != "src" or not msgdigest(g, rest.p[0][1]) or rest.p[0][2].const != 0:
        return False
    h = dlen(g, rest.p[0][1])
    if not f.entails_eq(rest.p[0][3] - h):
        return False
    rest = Seq(rest.p[1:])
    sl = saltlen(g)
    return sl is None or f.entails_eq(rest.len - sl)


def saltlen(g):
    a = self_adt(g.I.p, g.f)
    ns = [i for i, x in enumerate(a["vars"][0]["f"]) if g.I.tys[x["t"]]["k"] == "uint"]
    return Lin.atom(T("fld", T("*", T("P", "a0")), 0, ns[0])) if len(ns) == 1 else None


def cut(g, s, n):
    from engine.state import seq_slice
    try:
        return flat(g.st, seq_slice(g.st, s, ZERO, n)), flat(g.st, seq_slice(g.st, s, n, s.len - n))
    except Exception:
        return None


def random(t):
    return any(isinstance(x, T) and x.op in ("rng", "draw", "rnd") for x in walk(t))


def entropy(g, c):
    """the private key, random bytes, the digest of the message"""
    der = derived(g.I.p, g.f)
    if len(c.p) < 3 or c.p[0][0] != "src":
        return False
    _, t, o, n = c.p[0]
    own = isinstance(t, T) and t.op == "fld" and t.args[0] in der and o.const == 0 and g.st.facts.entails_eq(n - Lin.atom(T("len", t)))
    q = c.p[-1]
    return own and q[0] == "src" and msgdigest(g, q[1]) and q[2].const == 0 and g.st.facts.entails_eq(q[3] - dlen(g, q[1]))


FIELDS = {
    "PSS": (("the message", message), ("eight zeros, the digest of the message and the salt", prefixed)),
    "PKCS1": (("the message", message),),
    "OAEP": (("the label", label),),
    "DSA": (("the message", message),),
    "ECDSA": (("the message", message), ("sign:the private key, entropy and the digest of the message", entropy)),
}


def mask(rep, prog, f):
    name = f["n"]
    run = attempt(rep, prog, f, Cored(prog))
    if run is None:
        return
    I = run.I
    for st, v in run.outs:
        g = Path(rep, run, st, name, f)
        sums = [e for e in events(st.events()) if e.kind == "digest" and e.name == "checksum"]
        g.need("mask", "digests are taken", bool(sums))
        for e in sums:
            if not order(g, e.args[0], e):
                continue
            _, c, _ = dig_chain(e.args[0])
            c = flat(st, c)
            why = guarded(lambda: counted(g, c, I), 30)
            if why is not None:
                g.open("mask", why)


def counted(g, c, I):
    if len(c.p) < 2:
        g.need("mask", "seed and counter go in", False, show(c)[:120])
        return
    q = c.p[-1]
    n = None
    if q[0] == "src" and isinstance(q[1], T) and q[1].op == "be_bytes" and q[2].const == 0 and q[3].const == 4 and q[1].args[1] == 4:
        n = q[1].args[0]
    elif q[0] == "lit" and len(q[1]) >= 4:
        if all(isinstance(x, Lin) and x.const is not None for x in q[1][-4:]):
            g.need("mask", "the counter goes up", False, "the four bytes after the seed are always %s" % show(q[1][-4:]))
            return
        for x in walk(tuple(q[1][-4:])):
            if isinstance(x, T) and x.op == "pr":
                be = Seq((("src", T("be_bytes", Lin.atom(x), 4), ZERO, Lin(4)),))
                if equal(g, Seq((("lit", q[1][-4:]),)), be):
                    n = Lin.atom(x)
                    break
        if n is None:
            g.open("mask", "the counter is written as %s" % show(q)[:80])
            return
    if n is None:
        g.need("mask", "the counter goes in as four bytes, most significant first", False, "last field: %s" % show(q)[:120])
        return
    g.need("mask", "the counter goes in as four bytes, most significant first", True)
    a = n.t[0][0] if isinstance(n, Lin) and len(n.t) == 1 and n.t[0][1] == 1 else None
    while a is not None and a.op in ("zext", "trunc", "cast") and isinstance(a.args[0], Lin) and len(a.args[0].t) == 1:
        n, a = a.args[0], a.args[0].t[0][0]
    g.need("mask", "the counter starts at 0 and goes up by 1", a is not None and a.op == "pr" and n.c == 0 and n.t[0][1] == 1 and a.args[1] in (1, ONE), "it is %s" % show(n)[:80])
    s = Seq(c.p[:-1])
    g.need("mask", "the seed goes in before the counter", len(s.p) == 1 and s.p[0][0] == "src")


# ---- the MAC ------------------------------------------------------------------------

def mac(rep, prog, a):
    fns = {f["name"]: f for f in local_fns(prog) if f.get("tname") == "Digest" and self_adt(prog, f) is a}
    setters = [f for f in local_fns(prog) if not f.get("trait") and f.get("pub") and self_adt(prog, f) is a and has_self_ref(prog, f) and len(f["in"]) == 2]
    n = 0
    for c in ctors_of(prog, a):
        run = attempt(rep, prog, c, Cored(prog), prep=wide)
        if run is None:
            continue
        I = run.I
        for s0, v in run.outs:
            obj = success(I, s0, v)
            if not isinstance(obj, Agg) or s0.facts.infeasible():
                continue
            keys = [i for i, t in enumerate(c["in"]) if last_adt(prog, t) == "Vec" or I.tys[t]["k"] == "ref"]
            if len(keys) != 1:
                continue
            st = s0.copy()
            ref = I.alloc(st, obj, fns["write"]["self"])
            n += 1
            one_mac(rep, prog, a, fns, run, st, ref, T("P", "a%d" % keys[0]), c, "a new MAC")
            for k in setters:
                s2 = s0.copy()
                r2 = I.alloc(s2, obj, fns["write"]["self"])
                why = guarded(lambda: rekeyed(rep, prog, a, fns, run, s2, r2, k), 100)
                if why is not None:
                    rep.notes.setdefault("undecided", []).append("%s: %s" % (k["n"], why))
                    rep.obl += 1
    rep.check(n >= 2, "count:macpaths", "%d ways to construct the MAC" % n, text="no constructor of the MAC analysed")


def rekeyed(rep, prog, a, fns, run, st, ref, k):
    """a MAC that was used before, then given a new key"""
    I = run.I
    data = I.param(st, "before", fns["write"]["in"][1])
    for s1, _ in I.run_fn(fns["write"], [ref, data], st, {}, None):
        out = I.param(s1, "first", fns["checksum"]["in"][1])
        for s2, _ in I.run_fn(fns["checksum"], [ref, out], s1.copy(), {}, None):
            key = I.param(s2, "newkey", k["in"][1])
            for s3, _ in I.run_fn(k, [ref, key], s2.copy(), {}, None):
                if not s3.facts.infeasible():
                    for write in (True, False):
                        one_mac(rep, prog, a, fns, run, s3.copy(), ref, T("P", "newkey"), k, "a MAC after %s" % k["name"], write)


def last_adt(prog, ti):
    t = prog.tys[ti]
    return t["n"].split("::")[-1] if t["k"] == "adt" else None


def one_mac(rep, prog, a, fns, run, st, ref, key, c, what, write=True):
    I = run.I
    data = I.param(st, "text", fns["write"]["in"][1])
    src = I.seq(st, data) if write else Seq(())
    for s1, _ in I.run_fn(fns["write"], [ref, data], st, {}, None) if write else [(st, None)]:
        out = I.param(s1, "mac", fns["checksum"]["in"][1])
        for s2, _ in I.run_fn(fns["checksum"], [ref, out], s1.copy(), {}, None):
            if s2.facts.infeasible():
                continue
            g = Path(rep, run, s2, what, c)
            r = flat(s2, I.seq(s2, out))
            if len(r.p) != 1 or r.p[0][0] != "src" or not isinstance(r.p[0][1], T) or r.p[0][1].op != "sum":
                g.need("mac", "the value is a digest", False, show(r)[:100])
                continue
            o = r.p[0][1]
            if not order(g, o.args[0]):
                continue
            co = flat(s2, dig_chain(o.args[0])[1])
            why = guarded(lambda: nested(g, co, key, src), 60)
            if why is not None:
                g.open("mac", why)


def block(g, d):
    """the block length of the digest"""
    while isinstance(d, T) and d.op == "dig":
        d = d.args[1]
    return Lin.atom(T("fld", T("dblock", d), 1, 0))


def nested(g, co, key, src):
    st, f = g.st, g.st.facts
    if len(co.p) < 1 or co.p[-1][0] != "src" or not isinstance(co.p[-1][1], T) or co.p[-1][1].op != "sum":
        g.need("mac", "the outer digest ends with the inner digest", False, show(co)[:120])
        return
    inner = co.p[-1][1]
    g.need("mac", "the outer digest ends with the whole inner digest", co.p[-1][2].const == 0 and f.entails_eq(co.p[-1][3] - dlen(g, inner)))
    if not order(g, inner.args[0]):
        return
    ci = flat(st, dig_chain(inner.args[0])[1])
    b = block(g, inner.args[0])
    z = cut(g, ci, b)
    if z is None:
        g.open("mac", "inner digest over %s" % show(ci)[:100])
        return
    g.need("mac", "the message follows the inner key block", equal(g, z[1], src) is True, show(z[1])[:100])
    padded(g, z[0], b, key, 0x36)
    padded(g, Seq(co.p[:-1]), b, key, 0x5c)


def padded(g, s, b, key, c):
    """s is the padded key, every byte xored with c"""
    st, f = g.st, g.st.facts
    g.need("mac", "the key block for %#x is one block long" % c, f.entails_eq(s.len - b), show(s.len)[:80])
    n = Lin.atom(T("len", key))
    want = Seq((("src", key, ZERO, n), ("fill", ZERO, b - n))) if f.entails_ge(b - n) else None
    for p in s.p:
        if not (p[0] == "src" and isinstance(p[1], T) and p[1].op == "map" and len(s.p) == 1 and p[2].const == 0):
            g.open("mac", "key block %s" % show(p)[:100])
            return
        lam = p[1].args[0]
        body = lam.args[1]
        body = body.t[0][0] if isinstance(body, Lin) and len(body.t) == 1 and body.c == 0 else body
        xs = [x.t[0][0] if isinstance(x, Lin) and len(x.t) == 1 else x for x in body.args] if isinstance(body, T) and body.op == "^" else []
        cs = [x for x in xs if isinstance(x, Lin)] + [x for x in (body.args if isinstance(body, T) else ()) if isinstance(x, int)]
        el = [x for x in xs if isinstance(x, T) and x.op == "elem"]
        if len(el) != 1 or len(cs) != 1:
            g.open("mac", "key block bytes %s" % show(body)[:100])
            return
        v = cs[0].const if isinstance(cs[0], Lin) else cs[0]
        g.need("mac", "the key block is xored with %#x" % c, v == c, "with %s" % show(cs[0]))
        base = el[0].args[0]
        src = base.args[0] if base.op == "seq" else Seq((("src", base, ZERO, p[3]),))
        if want is not None:
            g.need("mac", "the key block is the key followed by zeros", equal(g, src, want) is True, show(src)[:120])
        else:
            src = flat(st, src)
            ok = bool(src.p) and src.p[0][0] == "src" and isinstance(src.p[0][1], T) and src.p[0][1].op == "sum"
            if ok:
                k = src.p[0][1]
                h = dlen(g, k)
                ok = order(g, k.args[0]) and equal(g, flat(st, dig_chain(k.args[0])[1]), Seq((("src", key, ZERO, n),))) is True
                ok = ok and equal(g, src, Seq((("src", k, ZERO, h), ("fill", ZERO, b - h)))) is True
            g.need("mac", "only a key longer than a block is replaced by its digest", f.entails_ge(n - b - 1))
            g.need("mac", "a longer key is replaced by its digest followed by zeros", ok, show(src)[:160])
