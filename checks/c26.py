"""C26: MACs and sponges close a message as their standards prescribe."""
from .common import *
from .gates import wide
from .c02 import P, ctors_of, success
from .refs import CMAC_RB
from .c10 import unlin
from engine.contracts import Contracts
from engine.state import seq_get
from engine.num import note_atom
from engine import ops

SIZES = tuple(b // 8 for b in sorted(CMAC_RB))   # block sizes in bytes
RATES = (1, 2, 3, 8, 144, 576, 832, 1088, 1152, 1344)
# output bits (None: chosen by the caller), security strength, suffix bits
SPONGES = {"SHA224": (224, 224, (0, 1)), "SHA256": (256, 256, (0, 1)), "SHA384": (384, 384, (0, 1)), "SHA512": (512, 512, (0, 1)),
           "Shake128": (None, 128, (1, 1, 1, 1)), "Shake256": (None, 256, (1, 1, 1, 1))}


class Open(Exception):
    pass


# ---- bytes as exclusive-ors of bits ------------------------------------------------

ONEBIT = ("1",)


def const(v, w=8):
    return tuple(frozenset([ONEBIT]) if v >> i & 1 else frozenset() for i in range(w))


def shift(b, k):
    n = len(b)
    z = frozenset()
    return tuple(b[i - k] if 0 <= i - k < n else z for i in range(n))


def bits(t, w=8):
    """the w low bits of a term, each an exclusive-or of input bits"""
    t = unlin(t.t if isinstance(t, Sym) else t)
    if isinstance(t, int):
        return const(t, w)
    if isinstance(t, Lin):
        if t.const is not None:
            return const(t.c & (1 << w) - 1, w)
        return linear(t, w)
    if not isinstance(t, T):
        raise Open(show(t)[:60])
    if t.op in ("^", "|", "&"):
        r = bits(t.args[0], w)
        for x in t.args[1:]:
            r = combine(t.op, r, bits(x, w))
        return r
    if t.op in ("<<", ">>"):
        k = t.args[1].const if isinstance(t.args[1], Lin) else t.args[1] if isinstance(t.args[1], int) else None
        if k is None:
            raise Open(show(t)[:60])
        if t.op == "<<":                # of a byte: a shift that cannot lose bits is a product
            return shift(bits(t.args[0], 8), k) + (frozenset(),) * (w - 8)
        return shift(bits(t.args[0], w), -k)
    if t.op == "div":
        d = t.args[1].const if isinstance(t.args[1], Lin) else t.args[1]
        if isinstance(d, int) and d > 0 and d & d - 1 == 0:
            return shift(bits(t.args[0], w), -(d.bit_length() - 1))
        raise Open(show(t)[:60])
    if t.op == "!":
        return tuple(x ^ frozenset([ONEBIT]) for x in bits(t.args[0], w))
    if t.op == "elem":
        return tuple(frozenset([(t, i)]) if i < 8 else frozenset() for i in range(w))
    raise Open(show(t)[:60])


def linear(t, w):
    """a sum without carries: shifted bytes, and c*x - c*2^k*(x / 2^k) for the k low bits of x"""
    if t.c < 0:
        raise Open(show(t)[:60])
    r = const(t.c & (1 << w) - 1, w)
    neg = [(a, -c) for a, c in t.t if c < 0]
    for a, c in t.t:
        if c < 0:
            continue
        if c & c - 1:
            raise Open(show(t)[:60])
        b = bits(a, 16)
        for q in list(neg):
            d, m = q
            if d.op == "div" and unlin(d.args[0]) is a:
                k = d.args[1].const if isinstance(d.args[1], Lin) else d.args[1]
                if m == c * k and k & k - 1 == 0:
                    b = tuple(x if i < k.bit_length() - 1 else frozenset() for i, x in enumerate(b))
                    neg.remove(q)
        r = combine("|", r, shift(b, c.bit_length() - 1)[:w])
    if neg:
        raise Open(show(t)[:60])
    return r


def combine(op, a, b):
    z, o = frozenset(), frozenset([ONEBIT])
    r = []
    for x, y in zip(a, b):
        if op == "^":
            r.append(x ^ y)
        elif x == y:
            r.append(x)
        elif op == "|" and (x == z or y == z):
            r.append(x or y)
        elif op == "|" and o in (x, y):
            r.append(o)
        elif op == "&" and z in (x, y):
            r.append(z)
        elif op == "&" and o in (x, y):
            r.append(y if x == o else x)
        else:
            raise Open("%s of two unknown bits" % op)
    return tuple(r)


def decided(st):
    """bits a path has decided: {form: 0 or 1}"""
    known = {}
    z, o = frozenset(), frozenset([ONEBIT])

    def one(lin, ok):
        ats = lin.t
        if len(ats) != 1:
            return
        a, c = ats[0]
        try:
            b = bits(a, 16)
        except Open:
            return
        b, = settle([b], known)
        free = {x for x in b if x - {ONEBIT}}
        if len(free) != 1:
            return
        x, = free
        poss = []
        for v in (0, 1):
            n = sum(1 << i for i, y in enumerate(b) if y == o or y == x and v)
            if ok(c * n + lin.c):
                poss.append(v)
        if len(poss) == 1:
            known[x] = poss[0]
    size = None
    while size != len(known):
        size = len(known)
        for e in st.facts.eq:
            one(e, lambda n: n == 0)
        for e in st.facts.ge:
            one(e, lambda n: n >= 0)
        for e in st.facts.ne:
            one(e, lambda n: n != 0)
        for b, v in st.b.items():
            if b.op == "eq0" and isinstance(b.args[0], Lin):
                one(b.args[0], lambda n: (n == 0) == v)
    return known


def value(form, known):
    """0, 1 or None"""
    o = ONEBIT in form
    x = form - {ONEBIT}
    if not x:
        return int(o)
    for f, v in known.items():
        if f - {ONEBIT} == x:
            return v ^ (ONEBIT in f) ^ o
    return None


class Fixed(Contracts):
    """a cipher with a block of n bytes"""
    def __init__(self, n):
        Contracts.__init__(self)
        self.n = n

    def bs(self, I, st, ct):
        return Lin(self.n)


def far(run):
    wide(run)
    run.I.unroll = 300


def undecided(rep, what, why):
    ls = rep.notes.setdefault("undecided", [])
    x = "%s: %s" % (what, str(why)[:160])
    if x not in ls:
        ls.append(x)
        rep.obl += 1


def check(progs, rep):
    rep.rule("subkeys", "the CMAC subkeys are the encryption of a zero block doubled once and twice in the field of the block size")
    rep.rule("last-block", "the last CMAC block is combined with the chaining value and the first subkey if complete; otherwise it is completed by 80 00.. and combined with the second")
    rep.rule("suffix", "when a sponge function is finished its suffix bits follow the message before the sponge is applied, and the advertised number of bits is drawn")
    rep.rule("parameters", "a sponge function uses the permutation of width 1600 with 24 rounds and a rate of 1600 less twice its strength")
    rep.rule("pad", "the sponge appends a 1 bit, the fewest 0 bits and a 1 bit that make the message a whole number of rate-sized blocks")
    prog = progs["A"]
    macs(rep, prog)
    wrappers(rep, prog)
    pads(rep, prog)


def named(prog, adt, name):
    for f in local_fns(prog):
        a = self_adt(prog, f)
        if a is not None and a["n"].split("::")[-1] == adt and f["name"] == name and not f.get("intrait") and f["kind"] == "fn":
            return f
    return None


# ---- CMAC --------------------------------------------------------------------------

def double(b, known, n):
    """the block b (list of bytes as bits) doubled, or None if the path has not decided its first bit"""
    top = value(b[0][7], known)
    if top is None:
        return None
    r = [tuple([b[i + 1][7] if i + 1 < len(b) else frozenset()] + list(b[i][:7])) for i in range(len(b))]
    if top:
        rb = CMAC_RB[8 * n].to_bytes(n, "big")
        r = [combine("^", x, const(y)) for x, y in zip(r, rb)]
    return r


def macs(rep, prog):
    new = named(prog, "CMAC", "new")
    fin = named(prog, "CMAC", "checksum")
    rep.check(new is not None and fin is not None, "cmac", "CMAC constructor and checksum found", text="no CMAC constructor and checksum found")
    if new is None or fin is None:
        return
    roles = set()
    for n in SIZES:
        run = attempt(rep, prog, new, Fixed(n), prep=far)
        if run is None:
            continue
        outs = [(s, v) for s, v in run.ok() if not s.facts.infeasible()]
        rep.check(len(outs) > 0, "subkeys:some:%d" % n, "CMAC accepts a block of %d bytes" % n, where(new))
        for s, v in outs:
            why = guarded(lambda: subkeys(rep, new, run, s, v, n, roles), 60)
            if why:
                undecided(rep, "subkeys", why)
    if len(roles) != 1:
        undecided(rep, "last-block", "the fields of the subkeys are not known")
        return
    k1, k2 = roles.pop()
    for n in (8, 16):
        for m in range(n + 1):
            why = guarded(lambda: last(rep, prog, fin, n, m, k1, k2), 60)
            if why:
                undecided(rep, "last-block", why)


def block(st, s, n):
    return [bits(seq_get(st, s, Lin(i))) for i in range(n)]


def settle(b, known):
    """bytes with the bits that the path has decided filled in"""
    r = []
    for x in b:
        vs = [value(y, known) for y in x]
        r.append(tuple(y if v is None else frozenset([ONEBIT] * v) for y, v in zip(x, vs)))
    return r


def subkeys(rep, f, run, st, v, n, roles):
    o = success(run.I, st, v)
    o = run.I.freeze(st, o)
    enc = {t for t in walk(o) if isinstance(t, T) and t.op == "E"}
    enc = {t for t in enc if not any(isinstance(x, T) and x.op == "E" for x in walk(t.args[1:]))}
    if not enc:
        full = [x for x in o.f if isinstance(x, Seq) and x.len == Lin(n)]
        if len(full) < 2:
            return undecided(rep, "subkeys", show(o)[:80])
        for x in full:
            block(st, x, n)                # open if anything is not known
        rep.violation("subkeys:cipher", "the subkeys are not made from the encryption of a zero block", where(f))
        return
    if len(enc) != 1:
        return undecided(rep, "subkeys", "%d encryptions" % len(enc))
    e, = enc
    zero = e.args[1].len == Lin(n) and all(x == const(0) for x in block(st, e.args[1], n))
    rep.check(zero, "subkeys:zero", "%d bytes: the cipher is applied to a zero block" % n, where(f), text="the subkeys are made from the encryption of %s instead of a zero block" % show(e.args[1])[:80])
    known = decided(st)
    L = [bits(T("elem", e, Lin(i))) for i in range(n)]
    one = double(L, known, n)
    two = double(one, known, n) if one else None
    if two is None:
        rep.violation("subkeys:carry", "blocks of %d bytes: the subkeys do not depend on the first bit of the block that is doubled" % n, where(f))
        return
    have = {}
    for i, x in enumerate(o.f):
        if isinstance(x, Seq) and x.len == Lin(n) and any(t is e for t in walk(x)):
            have[i] = block(st, x, n)
    a = [i for i, b in have.items() if settle(b, known) == settle(one, known)]
    b = [i for i, b in have.items() if settle(b, known) == settle(two, known)]
    what = "%d bytes, first bits %s" % (n, "".join(str(value(x[0][7], known)) for x in (L, one)))
    rep.check(len(a) >= 1, "subkeys:first", "%s: the first subkey is the encrypted zero block doubled" % what, where(f), text="%s: no subkey is the encrypted zero block doubled" % what)
    rep.check(len(b) >= 1, "subkeys:second", "%s: the second subkey is the first doubled" % what, where(f), text="%s: no subkey is the encrypted zero block doubled twice" % what)
    if len(a) == 1 and len(b) == 1:
        roles.add((a[0], b[0]))


def last(rep, prog, fin, n, m, k1, k2):
    me = T("*", T("P", "a0"))
    adt = self_adt(prog, fin)
    seqs = [i for i, x in enumerate(adt["vars"][0]["f"]) if prog.tys[x["t"]]["k"] == "adt" and prog.tys[x["t"]]["n"].endswith("Vec")]
    fld = lambda i: T("fld", me, 0, i)
    rest = [i for i in seqs if i not in (k1, k2)]
    if len(rest) != 2:
        return undecided(rep, "last-block", "%d buffers" % len(rest))
    some = False
    for data, chain in (rest, rest[::-1]):
        def prep(run):
            far(run)
            for i, k in ((k1, n), (k2, n), (data, m), (chain, n)):
                run.I.store(run.st, path(run.args[0], i), Seq((("src", fld(i), ZERO, Lin(k)),)) if k else Seq(()))
        run = attempt(rep, prog, fin, Fixed(n), prep=prep)
        if run is None:
            return
        good = bad = 0
        for s, v in run.outs:
            if s.facts.infeasible():
                continue
            es = [e for e in s.events() if e.kind == "cipher"]
            if not es:
                continue
            if len(es) != 1 or es[0].name != "E":
                bad += 1
                why = "%d cipher calls" % len(es)
                continue
            src = es[0].args[1]
            if src.len.const != n and not s.facts.entails_eq(src.len - n):
                bad += 1
                why = "a block of %s bytes" % show(src.len)
                continue
            have = block(s, src, n)
            pad = [0x80] + [0] * n
            k = k1 if m == n else k2
            want = []
            for j in range(n):
                x = bits(T("elem", fld(data), Lin(j))) if j < m else const(pad[j - m])
                x = combine("^", x, bits(T("elem", fld(chain), Lin(j))))
                want.append(combine("^", x, bits(T("elem", fld(k), Lin(j)))))
            # the tag is the encryption of the block
            out = run.I.freeze(s, run.args[1])
            tag = out.args[0] if isinstance(out, T) and out.op == "&" else out
            t = es[0].args[2]
            full = isinstance(tag, Seq) and len(tag.p) == 1 and tag.p[0][0] == "src" and tag.p[0][1] is t and s.facts.entails_eq(tag.p[0][2]) and s.facts.entails_eq(tag.p[0][3] - n)
            if have == want and full:
                good += 1
            else:
                bad += 1
                i = next((i for i in range(n) if have[i] != want[i]), None)
                why = "byte %d of the last block differs" % i if i is not None else "the tag is not the encryption of the last block"
        if good and not bad:
            some = True
            break
        if good or bad:
            some = some or why
    if some is False:
        return undecided(rep, "last-block", "no path encrypts a last block of %d bytes" % m)
    key = "last-block:%s" % ("complete" if m == n else "incomplete")
    rep.check(some is True, key, "block of %d bytes, %d pending: last block as prescribed" % (n, m), where(fin), text="block of %d bytes, %d pending: %s" % (n, m, some))


# ---- sponges -----------------------------------------------------------------------

def sponge_field(prog, a):
    """(index of the sponge, fields of the sponge) of a digest type"""
    for i, f in enumerate(a["vars"][0]["f"]):
        t = prog.tys[f["t"]]
        if t["k"] == "adt" and t["n"].split("::")[-1] == "KeccakSponge":
            return i, prog.adts[t["d"]]
    return None


def wrappers(rep, prog):
    seen = set()
    for f in local_fns(prog):
        a = self_adt(prog, f)
        if a is None or a["kind"] != "struct" or f.get("tname") != "Digest" or f["name"] != "checksum":
            continue
        sp = sponge_field(prog, a)
        name = a["n"].split("::")[-1]
        if sp is None:
            continue
        if name not in SPONGES:
            undecided(rep, "suffix", "%s: no prescribed parameters" % a["n"])
            continue
        seen.add(name)
        states = made(rep, prog, a, name, sp)
        why = guarded(lambda: suffix(rep, prog, a, f, name, sp, states), 60)
        if why:
            undecided(rep, "suffix", why)
    for n in SPONGES:
        rep.check(n in seen, "sponge:%s" % n, "%s found" % n, text="no sponge function %s found" % n)


def made(rep, prog, a, name, sp):
    """the objects the constructors make; checks rate, width and rounds"""
    res = []
    for c in ctors_of(prog, a):
        if has_self_ref(prog, c) or any(prog.tys[t].get("d") == a["d"] for t in c["in"]):
            continue
        run = attempt(rep, prog, c, P(prog), prep=wide)
        if run is None:
            continue
        for s, v in run.outs:
            o = success(run.I, s, v)
            if not isinstance(o, Agg):
                continue
            o = run.I.freeze(s, o)
            if not isinstance(o, Agg) or s.facts.infeasible():
                continue
            sponge = o.f[sp[0]]
            nums = numbers(sponge)
            strength = SPONGES[name][1]
            if nums is None:
                undecided(rep, "parameters", "%s: %s" % (name, show(sponge)[:80]))
                continue
            rep.check(1600 - 2 * strength in nums, "parameters:rate:%s" % name, "%s: rate %d" % (name, 1600 - 2 * strength), where(c),
                      text="%s: the sponge is made with %s, no rate of %d" % (name, nums, 1600 - 2 * strength))
            rep.check(1600 in nums and 24 in nums, "parameters:width:%s" % name, "%s: width 1600, 24 rounds" % name, where(c), text="%s: the sponge is made with %s instead of width 1600 and 24 rounds" % (name, nums))
            res.append((s, o, run))
    return res


def numbers(x):
    r = []
    if isinstance(x, Agg):
        for y in x.f:
            if isinstance(y, Agg):
                r += numbers(y) or []
            elif isinstance(y, Lin):
                if y.const is None:
                    return None
                r.append(y.const)
        return r
    return None


def suffix(rep, prog, a, f, name, sp, states):
    me = T("*", T("P", "a0"))
    want = SPONGES[name]
    # fields that a constructor fills with fixed values, as entry facts
    fixed = {}
    for s, o, run in states:
        for i, x in enumerate(o.f):
            fixed.setdefault(i, set()).add(x if isinstance(x, (Lin, Seq)) else None)
    raw = [g for g in local_fns(prog) if len(g["in"]) == 1 and prog.tys[g["in"][0]].get("d") == a["d"] and prog.tys[g["out"]].get("d") == a["d"]]
    n = 0
    for kind, suf, fields in [("", want[2], None)] + [("raw ", (1, 1), g) for g in raw]:
        pin = {i: next(iter(x)) for i, x in fixed.items() if len(x) == 1 and i != sp[0]}
        if fields is not None:
            pin = rawfields(rep, prog, fields, pin)
        def prep(run):
            wide(run)
            for i, x in pin.items():
                # contents that the constructor leaves empty may have grown
                k = prog.tys[a["vars"][0]["f"][i]["t"]]["k"]
                if isinstance(x, Lin) and x.const is not None and k == "uint" or isinstance(x, Seq) and k == "array":
                    run.I.store(run.st, path(run.args[0], i), x)
        run = attempt(rep, prog, f, P(prog), prep=prep)
        if run is None:
            return
        for s, v in run.outs:
            if s.facts.infeasible():
                continue
            out = run.I.freeze(s, run.args[1])
            calls = {t for t in walk(out) if isinstance(t, T) and t.op == "call" and any(adt_last(x) == "KeccakSponge" for x in walk(t.args[1:]) if isinstance(x, Agg))}
            calls = {t for t in calls if not any(u is not t and any(x is t for x in walk(u.args[1:])) for u in calls)}
            if not calls:
                continue
            if len(calls) != 1:
                undecided(rep, "suffix", "%s: %d uses of the sponge" % (name, len(calls)))
                continue
            t, = calls
            n += 1
            obj = next(x for x in walk(t.args[1:]) if isinstance(x, Agg) and adt_last(x) == "KeccakSponge")
            bufs = [x for x in obj.f if isinstance(x, Seq)]
            nums = [x for x in t.args[1:] if isinstance(x, Lin)]
            if len(bufs) != 1 or len(nums) != 1:
                undecided(rep, "suffix", "%s: %s" % (name, show(obj)[:80]))
                continue
            b = bufs[0]
            src = b.p[0] if b.p else None
            old = src is not None and src[0] == "src" and src[1].op == "fld" and src[2] is ZERO and src[3] is Lin.atom(T("len", src[1]))
            tail = Seq(b.p[1:]) if old else b
            k = tail.len.const
            if not old or k is None:
                undecided(rep, "suffix", "%s: %s" % (name, show(b)[:100]))
                continue
            have = [bits(seq_get(s, tail, Lin(i))) for i in range(k)]
            ok = [value(x[0], {}) for x in have] == list(suf) and all(y == frozenset() for x in have for y in x[1:])
            rep.check(ok, "suffix:%s%s" % (kind, name), "%s%s: suffix %s" % (kind, name, "".join(map(str, suf))), where(f),
                      text="%s%s: the message is followed by %s instead of the bits %s" % (kind, name, show(tail)[:60], "".join(map(str, suf))))
            w = want[0]
            if w is not None:
                rep.check(nums[0].const == w, "suffix:length:%s" % name, "%s: %d bits are drawn" % (name, w), where(f), text="%s: %s bits are drawn instead of %d" % (name, show(nums[0])[:60], w))
            else:
                at = unlin(nums[0])
                ok = isinstance(at, T) and at.op == "fld" and at.args[0] is me
                rep.check(ok, "suffix:length:%s" % name, "%s: the configured number of bits is drawn" % name, where(f), text="%s: %s bits are drawn instead of the configured number" % (name, show(nums[0])[:60]))
    if not n:
        undecided(rep, "suffix", "%s: no use of the sponge" % name)


def rawfields(rep, prog, g, pin):
    """the fixed fields after a conversion"""
    run = attempt(rep, prog, g, P(prog), prep=wide)
    pin = dict(pin)
    for s, v in run.outs if run is not None else ():
        o = run.I.freeze(s, v)
        if isinstance(o, Agg):
            for i, x in enumerate(o.f):
                if isinstance(x, Lin) and x.const is not None or isinstance(x, Seq) and x.p and x.p[0][0] == "lit":
                    pin[i] = x
    return pin


class Pad(Contracts):
    """stops where the permutation state is touched first"""
    def __init__(self, prog):
        Contracts.__init__(self)
        self.prog, self.seen = prog, []

    def call(self, I, fr, st, c, fn, args, rty, span):
        if fn is not None:
            for t in fn["in"]:
                y = self.prog.tys[t]
                if y["k"] == "ref" and self.prog.tys[y["e"]].get("n", "").split("::")[-1] in ("Keccak", "KeccakStateArr"):
                    self.seen.append(st)
                    return []
        return Contracts.call(self, I, fr, st, c, fn, args, rty, span)


def pads(rep, prog):
    n = 0
    for f in local_fns(prog):
        a = self_adt(prog, f)
        if a is None or a["n"].split("::")[-1] != "KeccakSponge" or not has_self_ref(prog, f) or f["kind"] != "fn":
            continue
        if not any(prog.tys[t]["k"] == "ref" and prog.tys[prog.tys[t]["e"]].get("n", "").endswith("Vec") for t in f["in"][1:]) or len([t for t in f["in"] if prog.tys[t]["k"] == "uint"]) != 1:
            continue
        n += 1
        for rate in RATES:
            why = guarded(lambda: pad(rep, prog, a, f, rate), 60)
            if why:
                undecided(rep, "pad", why)
    rep.check(n >= 1, "pad:found", "%d functions that close and apply the sponge" % n, text="no function that closes and applies the sponge")


def pad(rep, prog, a, f, rate):
    me = T("*", T("P", "a0"))
    fs = a["vars"][0]["f"]
    ri = [i for i, x in enumerate(fs) if prog.tys[x["t"]]["k"] == "uint"]
    bi = [i for i, x in enumerate(fs) if prog.tys[x["t"]].get("n", "").endswith("Vec")]
    if len(ri) != 1 or len(bi) != 1:
        return undecided(rep, "pad", "fields of the sponge")
    r = T("fld", me, 0, ri[0])
    pol = Pad(prog)

    def prep(run):
        wide(run)
        run.I.store(run.st, path(run.args[0], ri[0]), Lin(rate))
    run = attempt(rep, prog, f, pol, prep=prep)
    if run is None:
        return
    src = T("fld", me, 0, bi[0])
    m = Lin.atom(T("len", src))
    got = 0
    for st in pol.seen:
        if st.facts.infeasible():
            continue
        o = run.I.freeze(st, run.args[0])
        o = o.args[0] if isinstance(o, T) and o.op == "&" else o
        b = o.f[bi[0]] if isinstance(o, Agg) else None
        if not isinstance(b, Seq) or not b.p or b.p[0] != ("src", src, ZERO, m):
            undecided(rep, "pad", "rate %d: the buffer is %s" % (rate, show(b)[:80]))
            continue
        if len(b.p) == 1:
            undecided(rep, "pad", "rate %d: the buffer is not padded when the permutation starts" % rate)
            continue
        got += 1
        fct = st.facts
        extra = b.len - m
        z = extra - 2
        ok = fct.entails_ge(z)
        why = "%s bits are appended" % show(extra)[:80]
        if ok:
            first = seq_get(st, b, m)
            lastb = seq_get(st, b, b.len - 1)
            ok = first == ONE and lastb == ONE
            why = "the first and last bit appended are %s and %s" % (show(first)[:30], show(lastb)[:30])
        if ok:
            mid = Seq(b.p[1:])
            inner = [p for p in mid.p]
            ok = all(p[0] == "lit" and all(x in (ZERO, ONE) for x in p[1]) or p[0] == "fill" and p[1] == ZERO for p in inner) and sum(sum(1 for x in p[1] if x == ONE) for p in inner if p[0] == "lit") == 2
            why = "the bits between are not zero: %s" % show(mid)[:80]
        if ok:
            ok = fct.entails_ge(Lin(rate - 1) - z)
            why = "%s zero bits are appended, more than needed" % show(z)[:80]
        if ok:
            ok = whole(st, b.len, rate)
            why = "the padded length %s is not a multiple of the rate" % show(b.len)[:100]
            if ok is None:
                undecided(rep, "pad", "rate %d: padded length %s" % (rate, show(b.len)[:100]))
                continue
        rep.check(ok, "pad:%s" % f["n"].split("::")[-1], "rate %d: padded by 1 0* 1 to whole blocks" % rate, where(f), text="rate %d: %s" % (rate, why))
    if not got:
        undecided(rep, "pad", "rate %d: no path reaches the permutation" % rate)


def whole(st, n, rate):
    """n is a multiple of rate: True, False or None if not known"""
    f = st.facts
    if rate == 1 or f.entails_eq(n - ops.divc(st, n, rate).scale(rate)):
        return True
    qs = {a for e in list(f.ge) + list(f.eq) + [n] for a, c in e.t if a.op == "div" and a.args[1] in (rate, Lin(rate))}
    for a in qs:
        for c in range(-2 * rate, 2 * rate + 4) if rate < 200 else (-2 * rate, -rate, 0, rate, 2 * rate):
            if f.entails_eq(n - Lin.atom(a).scale(rate) - c):
                return c % rate == 0
        d = n - Lin.atom(a).scale(rate)
        if d.const is not None:
            return d.const % rate == 0
    return None


def path(r, i):
    return Ref(r.obj, r.path + (i,))
