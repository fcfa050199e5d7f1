"""C07: the padding of the Merkle-Damgard hashes, for every message length."""
from .common import *
from .c02 import P, ctors_of, success, put
from .c06 import absorbers, start, layout, I_bool
from .invariants import invariants
from .absorb import *
from engine import ops
from engine.num import note_atom


def check(progs, rep):
    rep.rule("padded", "checksum started with k pending bytes and a counter of q whole blocks plus k bytes, for every k a write can leave and every q: the bytes mixed in are the k pending bytes, 0x80, the least number of zero bytes, and the bit length in the standard's width and byte order")
    rep.rule("starts-empty", "every constructor leaves no pending bytes and a length counter of zero, so the counter is the length of the message")
    rep.rule("delivered", "the digest is the leading bytes of the words of the final chaining value, each in the standard's byte order")
    for cfg, prog in both(progs):
        if cfg != "A":
            continue
        n = 0
        for a, fn in absorbers(prog):
            ck = next((f for f in local_fns(prog) if f["name"] == "checksum" and f.get("tname") == "Digest" and self_adt(prog, f) is not None and self_adt(prog, f)["d"] == a["d"]), None)
            lay = layout(rep, prog, a, fn)
            if lay is None or ck is None:
                continue
            n += 1
            one(rep, prog, a, ck, lay)
            empty(rep, prog, a, lay)
        rep.check(n >= 9, "hashes", "Merkle-Damgard hashes analysed: %d" % n)


def little(a):
    return "MD5" in a["n"].split("::")[-1].upper()


def one(rep, prog, a, ck, lay):
    c, b, x, cnt, mult, block = lay
    short = a["n"]
    inv = invariants(rep, prog, a)
    top = block - 1 if any(p == x and q is None and k == block - 1 for p, q, k in inv) else block
    flags = start(rep, prog, a)
    q = T("q")
    note_atom(q)
    und = 0
    params, first = set(), []
    for k in range(top + 1):
        def prep(r):
            I, st = r.I, r.st
            o = I.load(st, r.args[0], I.refty(r.args[0]))
            lv = dict(leaves(o))
            for p, v in flags.items():
                if p in lv:
                    st.assume(I_bool(lv[p]), v is TRUE)
            st.facts.add_ge(Lin.atom(q))
            o = put(o, x, Lin(k))
            o = put(o, cnt, Lin.atom(q).scale(block * mult) + k * mult)
            I.store(st, r.args[0], o)
        run = attempt(rep, prog, ck, P(prog), prep=prep)
        if run is None:
            return
        I = run.I
        lv0 = {p: I.freeze(run.entry, v) for p, v in leaves(I.load(run.entry, run.args[0], I.refty(run.args[0])))}
        if not run.outs:
            why = sorted(show(v[0][0]) for v in I.panics.values())
            rep.violation("padding:%s:%d" % (short, k), "%s does not finish a message of q*%d+%d bytes: %s" % (short, block, k, why[0][:120] if why else "no path returns"), where(ck))
        for s, _ in run.outs:
            lv = {p: I.freeze(s, v) for p, v in leaves(run.self_after(s))}
            try:
                msg = Lin.atom(q).scale(8 * block) + 8 * k
                ab = Absorb(I, s, c, b)
                z = lv0[c]
                zt = ab.root(z)
                got = Seq(())
                for part in ab.parts(lv[c], lambda v: v is z or v is zt):
                    got = got + part
                padded(I, s, got, lv0[b], k, block, msg, little(a))
                rep.hold("%s: message of q*%d+%d bytes padded as prescribed" % (short, block, k))
            except Differ as e:
                rep.violation("padding:%s:%d" % (short, k), "the padding %s adds to a message of q*%d+%d bytes is wrong: %s" % (short, block, k, e), where(ck))
            except Shape as e:
                und += 1
                rep.obl += 1
                if und == 1:
                    rep.notes.setdefault("undecided", []).append("%s with %d pending: %s" % (ck["n"], k, e))
            if k == 0:
                first.append((I, s, I.freeze(s, I.load(s, run.args[1], I.refty(run.args[1]))), lv[c], lv0))
    for I, s, out, ch, lv0 in first:
        if isinstance(out, Seq):
            par = [p for p, v in lv0.items() if isinstance(v, Lin) and v.t and any(y is v.t[0][0] for y in walk(out)) and p not in (x, cnt)]
            params |= set(par)
    if not params:
        for I, s, out, ch, lv0 in first:
            delivered(rep, prog, a, ck, I, s, out, ch, little(a), None)
    for par in params:
        for t in range(1, 512):
            if t == 384:
                continue

            def prep2(r):
                I, st = r.I, r.st
                o = I.load(st, r.args[0], I.refty(r.args[0]))
                lv = dict(leaves(o))
                for p, v in flags.items():
                    if p in lv:
                        st.assume(I_bool(lv[p]), v is TRUE)
                for p, v in ((x, Lin(0)), (cnt, Lin(0)), (par, Lin(t))):
                    o = put(o, p, v)
                I.store(st, r.args[0], o)
            run = attempt(rep, prog, ck, P(prog), prep=prep2)
            if run is None:
                return
            for s, _ in run.outs:
                out = run.I.freeze(s, run.I.load(s, run.args[1], run.I.refty(run.args[1])))
                lv = {p: run.I.freeze(s, v) for p, v in leaves(run.self_after(s))}
                delivered(rep, prog, a, ck, run.I, s, out, lv[c], little(a), t)


def units(I, s, seq):
    """the elements of a sequence of known length"""
    out = []
    for p in flat(s, seq).p:
        n = plen(p)
        if n.const is None:
            raise Shape("a part of unknown length: %s" % show(Seq((p,)))[:80])
        for i in range(n.const):
            if p[0] == "lit":
                out.append(p[1][i])
            elif p[0] == "fill":
                out.append(p[1])
            else:
                t, o = p[1], p[2] + i
                if t.op == "seq":
                    v = seq_get(s, t.args[0], o)
                else:
                    v = elem(t, o)
                out.append(v)
    return [byte(s, v) for v in out]


def byte(s, v):
    """(value, weight) when v is one byte of the memory image of an integer"""
    t = unlin(v)
    if isinstance(t, T) and t.op == "elem" and isinstance(t.args[0], T) and t.args[0].op in ("be_bytes", "le_bytes") and t.args[1].const is not None:
        x, n = t.args[0].args[0], t.args[0].args[1]
        n = n.const if isinstance(n, Lin) else n
        i = t.args[1].const
        j = n - 1 - i if t.args[0].op == "be_bytes" else i
        return ("byte", x, j, n)
    return v


def padded(I, s, got, buf, k, block, bits, le):
    w = block // 8
    zeros = (-(k + 1 + w)) % block
    g = units(I, s, got)
    if len(g) != k + 1 + zeros + w:
        raise Differ("%d bytes mixed in, %d prescribed" % (len(g), k + 1 + zeros + w))
    pend = units(I, s, seq_slice(s, buf, ZERO, Lin(k)))
    for i in range(k):
        if not eqv(s, g[i], pend[i]):
            raise Differ("byte %d is %s instead of the pending byte" % (i, show(g[i])[:60]))
    if not isc(g[k], 0x80):
        raise Differ("the byte after the message is %s" % show(g[k])[:60])
    for i in range(k + 1, k + 1 + zeros):
        if not isc(g[i], 0):
            raise Differ("byte %d after the message is %s instead of 0" % (i - k, show(g[i])[:60]))
    for i in range(w):
        j = i if le else w - 1 - i                       # weight of this byte
        v = g[k + 1 + zeros + i]
        if not lenbyte(s, v, bits, j):
            raise Differ("byte %d of the length field is %s" % (i, show(v)[:80]))


def isc(v, c):
    return isinstance(v, Lin) and v.const == c


def eqv(s, p, q):
    if isinstance(p, tuple) or isinstance(q, tuple):
        return p == q
    p, q = unsym(p), unsym(q)
    return p is q or isinstance(p, Lin) and isinstance(q, Lin) and s.facts.entails_eq(p - q)


def lenbyte(s, v, bits, j):
    if isinstance(v, tuple):
        _, x, jj, n = v
        x = unsym(x)
        return isinstance(x, Lin) and s.facts.entails_eq(x - bits) and jj == j
    if isc(v, 0) and j >= 8:
        return True                                      # lengths of 2^64 bits and more do not occur
    v = unsym(v)
    if not isinstance(v, Lin):
        return False
    s = s.copy()
    want = ops.divc(s, bits, 1 << (8 * j)) if j else bits
    t = unlin(v)
    if isinstance(t, T) and t.op == "trunc" and isinstance(t.args[0], Lin) and t.args[1] == 8:
        return s.facts.entails_eq(t.args[0] - want)
    want = want - ops.divc(s, bits, 1 << (8 * j + 8)).scale(256)
    return s.facts.entails_eq(v - want)


def delivered(rep, prog, a, ck, I, s, out, chain, le, bits):
    short = a["n"]
    if not isinstance(out, Seq) or not isinstance(chain, Seq):
        return
    n = out.len.const
    at = "" if bits is None else " (%d bits)" % bits
    try:
        root = Absorb(I, s, (), None).root(chain)
        if n is None or root is None:
            raise Shape("digest of %s bytes" % show(out.len)[:60])
        bad = None
        if bits is not None and n != (bits + 7) // 8:
            bad = "%d bytes delivered" % n
        us = units(I, s, out)
        for i, u in enumerate(us):
            cut = (8 - bits % 8) % 8 if bits is not None and i == len(us) - 1 else 0
            if cut:
                # the unused low bits of the last byte are zero, the others are those of the chaining value
                want = [x for x in walk(u) if isinstance(x, T) and x.op == "elem" and isinstance(x.args[0], T) and x.args[0].op == "be_bytes"]
                if len(want) != 1:
                    raise Shape("last byte %s" % show(u)[:80])
                b = Lin.atom(want[0])
                st = s.copy()
                good = ops.divc(st, b, 1 << cut).scale(1 << cut)
                if not st.facts.entails_eq(unsym(u) - good):
                    bad = bad or "the last byte of the digest%s does not hold its leading %d bits" % (at, 8 - cut)
                u = byte(s, b)
            if not isinstance(u, tuple):
                raise Shape("digest byte %s" % show(u)[:80])
            w = u[3]
            x = unsym(u[1])
            want = Lin.atom(T("elem", root, Lin(i // w)))
            j = i % w if le else w - 1 - i % w
            if not (unlin(x) is unlin(want) and u[2] == j):
                bad = bad or "byte %d of the digest is byte %d of %s" % (i, u[2], show(x)[-40:])
        rep.check(bad is None, "delivered:%s" % short, "%s: digest%s is the leading part of the chaining value" % (short, at), where(ck), "%s: %s" % (short, bad))
    except Shape as e:
        rep.notes.setdefault("undecided", []).append("%s%s: %s" % (ck["n"], at, e))
        rep.obl += 1


def empty(rep, prog, a, lay):
    c, b, x, cnt, mult, block = lay
    short = a["n"]
    for f in ctors_of(prog, a):
        run = attempt(rep, prog, f, P(prog))
        if run is None:
            continue
        bad = None
        for s, v in run.outs:
            o = success(run.I, s, v)
            if not isinstance(o, Agg):
                continue
            lv = dict(leaves(o))
            for p in (x, cnt):
                z = lv.get(p)
                if not isinstance(z, Lin):
                    continue
                if not s.facts.entails_eq(z):
                    bad = bad or "%s is %s" % (leafname(prog, a, p), show(z)[:80])
        rep.check(bad is None, "empty:%s:%s" % (short, f["name"]), "%s: %s starts an empty message" % (short, f["name"]), where(f),
                  "an object built by %s does not start an empty message: %s" % (f["n"], bad))
