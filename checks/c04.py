"""C04: what an operation delivers replaces the destination, and its length is what is reported and advertised."""
from .common import *
from .c02 import P, ctors_of, success, facade, LIM, holds_big, big_adts
from .invariants import invariants, assume

BLOCK = ("AES", "DES", "TDES", "SM4")


class P4(P):
    """functions that fill a byte vector are followed; loops over a large state array change only that array"""
    def __init__(self, prog, own=()):
        P.__init__(self, prog)
        self.own = own
        if not hasattr(prog, "_c04"):
            prog._c04 = {d for d in self.cores if vecparam(prog, prog.fns[d]) is not None and not (has_self_ref(prog, prog.fns[d]) and self_adt(prog, prog.fns[d])["d"] in big_adts(prog))}
        self.follow = prog._c04
        self.re = self.re - self.follow
        self.key = keyops(prog) | maskgens(prog)

    def inline(self, I, fn):
        if fn["d"] in self.follow:
            return True
        if fn["d"] in self.key:
            return False
        if vecparam(I.p, fn) is None and has_self_ref(I.p, fn) and I.tys[fn["out"]]["s"] == "()":
            a = self_adt(I.p, fn)
            if a is not None and a["kind"] == "struct" and any(holds_big(I.p, f["t"]) is not None for f in a["vars"][0]["f"]):
                return False
        return P.inline(self, I, fn)

    def call(self, I, fr, st, c, fn, args, rty, span):
        if c.get("tname") == "Iterator" and c["name"] == "for_each":
            big = [r for r in refs_in(args[0]) if isbig(I, r)]
            if big:
                for r in big:
                    I.store(st, r, I.fresh(st, "state", I.refty(r)))
                return [(st, UNIT)]
        if fn is not None and c.get("tname") == "Cipher" and fr is not None:
            a = self_adt(I.p, fn)
            if a is not None and not a.get("gen") and a["d"] not in self.own:
                return Contracts.call(self, I, fr, st, c, None, args, rty, span)
        return P.call(self, I, fr, st, c, fn, args, rty, span)


def refs_in(v):
    if isinstance(v, Ref):
        yield v
    elif isinstance(v, (Agg, tuple, list)):
        for x in (v.f if isinstance(v, Agg) else v):
            yield from refs_in(x)


def isbig(I, r):
    t = I.refty(r)
    return t is not None and big_array(I.p, t)


def vecparam(prog, fn):
    for i, ti in enumerate(fn["in"]):
        t = prog.tys[ti]
        if i and t["k"] == "ref" and t.get("m"):
            e = prog.tys[t["e"]]
            if e["k"] == "adt" and e["n"].split("<")[0].endswith("vec::Vec") and prog.tys[e["a"][0]]["s"] == "u8":
                return i
    return None


def operations(prog):
    for fn in local_fns(prog):
        if (fn.get("tname"), fn["name"]) in (("Cipher", "encrypt"), ("Cipher", "decrypt"), ("Digest", "checksum"), ("InitialVec", "initial_vec")) or fn["name"] in ("sponge", "read_full") and fn.get("pub"):
            i = vecparam(prog, fn)
            a = self_adt(prog, fn)
            if i is not None and a is not None:
                yield fn, a, i
        elif fn.get("tname") == "Signature" and fn["name"] == "sign":
            i = 1
            a = self_adt(prog, fn)
            if a is not None:
                yield fn, a, i


def payload(v):
    """value returned on success"""
    return v.f[0] if adt_last(v) == "Result" and v.f else v


def check(progs, rep):
    rep.rule("replaced", "on every success path the destination's content does not depend on its previous content")
    rep.rule("count", "on every success path a returned count equals the destination's length")
    rep.rule("advertised", "a digest's length is the advertised number of bits in bytes; a block operation delivers one block")
    for cfg, prog in both(progs):
        n = 0
        for fn, a, i in operations(prog):
            if cfg != "A" and "aes" not in fn["d"]:
                continue
            if a["kind"] == "struct" and facade(prog, a):
                continue
            n += 1
            one(rep, prog, fn, a, i)
            if fn["name"] == "checksum":
                length(rep, prog, fn, a)
        if cfg == "A":
            rep.check(n >= 55, "operations", "operations with a destination analysed: %d" % n)


def one(rep, prog, fn, a, i):
    inv = invariants(rep, prog, a) if a["kind"] == "struct" and fn["name"] == "checksum" and not facade(prog, a) else ()
    run = attempt(rep, prog, fn, P4(prog, (a["d"],)), prep=lambda r: assume(r, a, inv))
    if run is None:
        return
    I = run.I
    old = roots(I.load(run.entry, run.args[i], I.refty(run.args[i])))
    tt = tainted(I, old)
    short = fn["n"]
    bs = None
    if a["n"].split("::")[-1] in BLOCK:
        bs = blocksize(rep, prog, fn)
    seen = False
    for s, v in run.ok():
        seen = True
        d = run.deref(s, i)
        f = nonempty(s, I.freeze(s, d))
        rep.check(not mentions(f, tt), "replaced:%s" % short, "%s replaces the destination" % short, where(fn),
                  "after %s the destination still depends on what it held before: %s" % (short, show(f)[:LIM]))
        if fn["name"] == "sign":
            continue
        q = I.seq(s, run.args[i])
        r = payload(v)
        if isinstance(r, Lin):
            rep.check(s.facts.entails_eq(r - q.len), "count:%s" % short, "%s returns the destination's length" % short, where(fn),
                      "%s returns %s but the destination has %s bytes" % (short, show(r)[:LIM], show(q.len)[:LIM]))
        if bs is not None:
            rep.check(s.facts.entails_eq(q.len - bs), "block:%s" % short, "%s delivers one block" % short, where(fn),
                      "%s delivers %s bytes, the block size is %s" % (short, show(q.len)[:LIM], show(bs)))
    if not seen:
        rep.notes.setdefault("never_succeeds", []).append(short)


def blocksize(rep, prog, fn):
    pre = fn["n"].rsplit("::", 1)[0]
    for f in local_fns(prog):
        if f["n"] == pre + "::block_size":
            r = attempt(rep, prog, f, P4(prog, (self_adt(prog, fn)['d'],)))
            if r is None:
                return None
            vs = {I_lin(v) for _, v in r.outs}
            return vs.pop() if len(vs) == 1 else None
    return None


def I_lin(v):
    if adt_last(v) == "Option" and v.var == 1:
        return v.f[0]
    return v if isinstance(v, Lin) else None


def length(rep, prog, fn, a):
    """from each constructor: checksum, and checksum after a write"""
    if a["kind"] != "struct" or facade(prog, a):
        return
    pre = fn["n"].rsplit("::", 1)[0]
    sib = {f["name"]: f for f in local_fns(prog) if f["n"].rsplit("::", 1)[0] == pre}
    for c in ctors_of(prog, a):
        run = attempt(rep, prog, c, P4(prog))
        if run is None:
            continue
        I = run.I
        for s0, v in run.outs:
            obj = success(I, s0, v)
            if not isinstance(obj, Agg):
                continue
            st = s0.copy()
            ref = I.alloc(st, obj, fn["self"])
            why = guarded(lambda: lengths(rep, fn, a, c, I, st, ref, sib))
            if why:
                rep.notes.setdefault("undecided", []).append("%s, %s: %s" % (c["n"], fn["name"], why))
                rep.obl += 1


def lengths(rep, fn, a, c, I, st, ref, sib):
    short = a["n"]
    starts = [st]
    if "write" in sib:
        s = st.copy()
        data = I.param(s, "data", sib["write"]["in"][1])
        starts += [x for x, _ in I.run_fn(sib["write"], [ref, data], s, {}, None)]
    for s in starts:
        d = I.param(s, "out", fn["in"][1])
        for s1, _ in I.run_fn(fn, [ref, d], s.copy(), {}, None):
            n = I.seq(s1, d).len
            for s2, bits in I.run_fn(sib["bits_len"], [ref], s1.copy(), {}, None):
                from engine import ops
                want = ops.divc(s2, bits + 7, 8)
                ok = s2.facts.entails_eq(n - want)
                if not ok:
                    ok = s2.facts.entails_eq(n - ops.divc(s2, bits, 8)) and any(isinstance(x, T) and x.op in ("dbits", "bs") for x in walk(bits))
                rep.check(ok, "advertised:%s" % short, "checksum of %s has the advertised length" % short, where(fn),
                          "after %s the checksum of %s has %s bytes while %s bits are advertised" % (c["name"], short, show(n)[:LIM], show(bits)[:LIM]))
