"""Integers: the operations of the big-integer library as an algebra of terms."""
from .common import *
from engine import ops
from engine import models
from engine.num import note_atom
from engine.state import seq_slice, Ev

BIG = "rmath::bigint::BigInt::"


def big(x):
    """the term of an integer value"""
    while True:
        if isinstance(x, Sym):
            x = x.t
        elif isinstance(x, T) and x.op in ("&", "view"):
            x = x.args[-1]
        else:
            return x


def maskroles(prog, fn):
    """((argument, from, to) xored, (argument, from, to) hashed, digest argument); bounds are (argument, index) or 0 / None"""
    if not hasattr(prog, "_roles"):
        prog._roles = {}
    if fn["d"] not in prog._roles:
        prog._roles[fn["d"]] = None
        why = guarded(lambda: prog._roles.__setitem__(fn["d"], _roles(prog, fn)), 60)
    return prog._roles[fn["d"]]


def _roles(prog, fn):
    run = Run(prog, fn, Cored(prog))
    I = run.I
    digs = [i for i, t in enumerate(fn["in"]) if I.tys[t]["k"] == "ref" and I.tys[I.tys[t]["e"]]["k"] == "param"]
    if len(digs) != 1:
        return None

    def root(t):
        while isinstance(t, T) and t.op in ("mu", "app"):
            d = I.mudef[t].get("init")
            if isinstance(d, Seq) and len(d.p) >= 1 and d.p[0][0] == "src":
                t = d.p[0][1]
            else:
                break
        if isinstance(t, T) and t.op == "*" and t.args[0].op == "P":
            return int(t.args[0].args[0][1:])
        return None

    def bound(e, zero):
        if e.const == 0:
            return zero
        if e.c == 0 and len(e.t) == 1 and e.t[0][1] == 1:
            a = e.t[0][0]
            if a.op == "fld" and a.args[0].op == "P":
                return int(a.args[0].args[0][1:]), a.args[2]
        raise Undecided("bound %s" % show(e)[:60])
    seeds, outs = set(), set()

    def look(evs):
        for e in evs:
            if e.kind == "loop":
                for b in e.x["backs"]:
                    look(b)
            elif e.kind == "digest" and e.name == "write" and len(e.args[1].p) == 1 and e.args[1].p[0][0] == "src":
                _, t, off, n = e.args[1].p[0]
                k = root(t)
                if k is not None:
                    whole = off is ZERO and len(n.t) == 1 and n.t[0][0].op == "len"
                    seeds.add((k, bound(off, 0), None if whole else bound(off + n, None)))
    for s, v in run.outs:
        look(s.events())
    for t, d in I.mudef.items():
        if t.op != "app":
            continue
        for x in walk(tuple(y for y in (d.get("extras") or ()) if y is not None)):
            if isinstance(x, T) and x.op == "^":
                for y in x.args:
                    y = y.t[0][0] if isinstance(y, Lin) and len(y.t) == 1 else y
                    if isinstance(y, T) and y.op == "elem" and isinstance(y.args[0], T) and y.args[0].op == "*":
                        k = root(y.args[0])
                        o = Lin(y.args[1].c, tuple((a, c) for a, c in y.args[1].t if a.op == "fld"))
                        if k is not None:
                            o = bound(o, 0)
                            outs.add((k, o, None if o == 0 else (o[0], 1)))
    if len(seeds) != 1 or len(outs) != 1:
        return None
    return next(iter(outs)), next(iter(seeds)), digs[0]


def modulus(prog, I, st, key):
    """the modulus of a private key, as its public part uses it"""
    if not hasattr(prog, "_modulus"):
        prog._modulus = None
        for f in local_fns(prog):
            a = self_adt(prog, f)
            if a is not None and "::rsa::" in a["d"] and a["n"].split("::")[-1] == "PublicKey" and f["name"] == "encrypt":
                pol = Nums(prog)
                r = Run(prog, f, pol)
                for s, v in r.outs:
                    for t in walk(r.I.freeze(s, v)):
                        if isinstance(t, T) and t.op == "exp":
                            prog._modulus = (a["d"], big(t.args[2]).args[2])
    d, i = prog._modulus
    k = I.load(st, key, I.refty(key)) if isinstance(key, Ref) else key
    v = I.freeze(st, k)
    ti = I.refty(key)
    adt = prog.adts[I.tys[I.strip(ti)]["d"]]
    for j, f in enumerate(adt["vars"][0]["f"]):
        if I.tys[f["t"]].get("d") == d:
            x = v.f[j] if isinstance(v, Agg) else T("fld", big(v), 0, j)
            x = x.f[i] if isinstance(x, Agg) else T("fld", big(x), 0, i)
            return big(x)
    return T("fld", big(v), 0, i)


class Nums(Keyed):
    """key generation, private-key powers and curve arithmetic opaque; integers as terms"""
    concrete = ("EllipticCurve",)

    def __init__(self, prog):
        Keyed.__init__(self, prog)
        self.prog = prog
        self.key = {d for d in self.key if not d.endswith("::encrypt") and not d.endswith("decrypt_and_check")}
        self.masks = maskgens(prog)
        self.rsadp = next((d for d in self.key if d.endswith("::decrypt")), None)

    def call(self, I, fr, st, c, fn, args, rty, span):
        n = c["n"]
        if n.startswith(BIG):
            h = getattr(self, "big_" + n[len(BIG):], None)
            if h is not None:
                xs = [big(I.freeze(st, a)) for a in args]
                return h(I, st, xs, args, rty)
        if fn is not None and fn["d"] in self.masks:
            r = self.mask(I, fr, st, fn, args, rty, span)
            if r is not None:
                return r
        if fn is not None and fn["d"] == self.rsadp:
            return self.private(I, st, fn, args, rty)
        if c.get("tname") == "EllipticCurve" and c["name"] in ("scalar", "scalar_base_point", "add", "double"):
            xs = tuple(big(I.freeze(st, a)) for a in args[1:])
            t = T("pt", c["name"], *xs)
            return [(st, I.value_of(st, t, rty))]
        return Keyed.call(self, I, fr, st, c, fn, args, rty, span)

    def private(self, I, st, fn, args, rty):
        """the private-key power: an error or an integer below the modulus"""
        key = big(I.freeze(st, args[0]))
        x = big(I.freeze(st, args[1]))
        n = modulus(self.prog, I, st, args[0])
        t = T("rsadp", n, x, key)
        for i, a in enumerate(args[2:]):
            I.havoc_mut(st, a, fn["in"][i + 2], T("out", t, i + 2))
        st.event(Ev("private", fn["n"], (x, n), None, None, ()))
        s2 = st.copy()
        ok, er = I.tys[rty]["a"]
        return [(st, models.mk(I, "Result", 0, Sym(t, ok))), (s2, models.mk(I, "Result", 1, I.value_of(s2, T("err", t), er)))]

    def mask(self, I, fr, st, fn, args, rty, span):
        """exclusive-or of a range with the mask generated from another range"""
        r = maskroles(self.prog, fn)
        if r is None:
            return None
        (ko, oo, on), (ks, so, sn), kh = r

        def val(e):
            if isinstance(e, int):
                return Lin(e)
            j, i = e
            v = args[j]
            return v.f[i] if isinstance(v, Agg) else None
        out = I.seq(st, args[ko])
        seed = I.seq(st, args[ks])
        a, b = val(oo), val(on) if on is not None else out.len
        c, d = val(so), val(sn) if sn is not None else seed.len
        if not all(isinstance(x, Lin) for x in (a, b, c, d)):
            return None
        data = seq_slice(st, out, a, b - a)
        t = T("mask", data, seq_slice(st, seed, c, d - c))
        new = seq_slice(st, out, ZERO, a) + Seq((("src", t, ZERO, b - a),)) + seq_slice(st, out, b, out.len - b)
        I.store(st, args[ko], new)
        h = I.load(st, args[kh], I.refty(args[kh]))
        if isinstance(h, Sym):
            I.store(st, args[kh], Sym(T("dig", "c", T("dig", "w", T("dig", "r", h.t), Seq((("src", T("mgfin", t), ZERO, ONE),)))), h.ty))
        st.event(Ev("mask", fn["n"], (t,), None, span, fr.stack))
        return [(st, UNIT)]

    def bits(self, st, x):
        a = T("bits", x)
        note_atom(a)
        n = None
        y = x
        while isinstance(y, T):
            if y.op in ("exp", "mod"):
                n = y.args[-1]
                break
            if y.op == "rsadp":
                n = y.args[0]
                break
            break
        if n is not None:
            m = T("bits", n)
            note_atom(m)
            st.facts.add_ge(Lin.atom(m) - Lin.atom(a))
            st.facts.add_ge(ops.divc(st, Lin.atom(m) + 7, 8) - ops.divc(st, Lin.atom(a) + 7, 8))
        return Lin.atom(a)

    def big_bits_len(self, I, st, xs, args, rty):
        return [(st, self.bits(st, xs[0]))]

    def big_to_be_bytes(self, I, st, xs, args, rty):
        t = T("i2os", xs[0])
        n = ops.divc(st, self.bits(st, xs[0]) + 7, 8)
        return [(st, Seq((("src", t, ZERO, n),)))]

    def big_from_be_bytes(self, I, st, xs, args, rty):
        return [(st, Sym(T("os2i", I.seq(st, args[0])), rty))]

    def big_exp(self, I, st, xs, args, rty):
        return [(st, Sym(T("exp", *xs), rty))]

    def big_rem_euclid(self, I, st, xs, args, rty):
        return [(st, Sym(T("mod", *xs), rty))]

    def big_rem_euclid_assign(self, I, st, xs, args, rty):
        I.store(st, args[0], Sym(T("mod", *xs), I.refty(args[0])))
        return [(st, UNIT)]

    def big_mod_inverse(self, I, st, xs, args, rty):
        return [(st, Sym(T("inv", *xs), rty))]


# ---- what a path knows about an integer ---------------------------------------------

def facts_true(st):
    return [b for b, v in st.b.items() if v is True]


def naught(t):
    t = big(t)
    return isinstance(t, T) and t.op == "int" and t.args[0] in (0, ZERO)


def positive(st, x):
    for b in facts_true(st):
        if b.op == "less" and big(b.args[1]) is x and naught(b.args[0]):
            return True
        if b.op == "call" and b.args[0] == BIG + "is_positive" and big(b.args[1]) is x:
            return True
    for t, v in st.vr.items():
        if v == 1 and t.op == "call" and t.args[0] == BIG + "signnum" and big(t.args[1]) is x:
            if st.facts.entails_eq(Lin.atom(T("fld", t, 1, 0)) - 1):
                return True
    return False


def below(st, x, n):
    return any(b.op == "less" and big(b.args[0]) is x and big(b.args[1]) is n for b in facts_true(st))


# ---- polynomials over terms, modulo n ---------------------------------------------

def mono(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda q: q[0].id))


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def pmul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            m = mono(a, b)
            r[m] = r.get(m, 0) + x * y
    return {m: c for m, c in r.items() if c}


def pinv(p, t):
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1:
            return {tuple((k, -e) for k, e in m): 1}
    return {((T("invp", t), 1),): 1}


def poly(t, n):
    """normal form of an integer term modulo n"""
    t = big(t)
    if isinstance(t, Lin) and t.const is not None:
        return {(): t.c} if t.c else {}
    if isinstance(t, T):
        if t.op == "int":
            return {(): t.args[0]} if t.args[0] else {}
        if t.op == "mod" and t.args[1] is n:
            return poly(t.args[0], n)
        if t.op == "inv" and t.args[1] is n:
            return pinv(poly(t.args[0], n), t)
        if t.op == "exp" and t.args[2] is n:
            e = big(t.args[1])
            if isinstance(e, T) and e.op == "op" and e.args[0] == "Sub" and big(e.args[1]) is n and const(big(e.args[2])) == 2:
                return pinv(poly(t.args[0], n), t)
        if t.op == "op" and t.args[0] in ("Mul", "Add", "Sub"):
            a, b = poly(t.args[1], n), poly(t.args[2], n)
            return pmul(a, b) if t.args[0] == "Mul" else padd(a, b, 1 if t.args[0] == "Add" else -1)
    return {((t, 1),): 1}


def const(t):
    if isinstance(t, T) and t.op == "int":
        return t.args[0]
    if isinstance(t, T) and t.op in ("from", "into", "call") and len(t.args) > 1:
        x = big(t.args[-1])
        return x.c if isinstance(x, Lin) and x.const is not None else None
    return None


def var(t, e=1):
    return {((t, e),): 1}


def group(t, p, q):
    """product of powers modulo p: {base: exponent modulo q}, or None"""
    t = big(t)
    if isinstance(t, T):
        if t.op == "mod" and t.args[1] is p:
            return group(t.args[0], p, q)
        if t.op == "exp" and t.args[2] is p:
            return {t.args[0]: poly(t.args[1], q)}
        if t.op == "op" and t.args[0] == "Mul":
            a, b = group(t.args[1], p, q), group(t.args[2], p, q)
            if a is None or b is None:
                return None
            for k, e in b.items():
                a[k] = padd(a[k], e) if k in a else e
            return a
    return None


class Signs(Nums):
    """digests and ciphers of known type by contract as well; their constructors opaque"""
    concrete = ("EllipticCurve", "Cipher", "Digest", "Padding", "Counter", "InitialVec")

    def __init__(self, prog):
        Nums.__init__(self, prog)
        prim = {prog.tys[i["self"]].get("d") for i in prog.impls if i.get("tname") in ("Cipher", "Digest", "Counter")}
        self.makers = set()
        for f in local_fns(prog):
            a = self_adt(prog, f)
            if a is not None and a["d"] in prim and not has_self_ref(prog, f) and not f.get("trait"):
                o = prog.tys[f["out"]]
                if o["k"] == "adt" and (o["d"] == a["d"] or any(prog.tys[x].get("d") == a["d"] for x in o.get("a", ()) if isinstance(x, int))):
                    self.makers.add(f["d"])

    def inline(self, I, fn):
        return fn["d"] not in self.makers and Nums.inline(self, I, fn)
