"""C27: the numbers of a generated key belong together, and the RSA private operation undoes the public one."""
from .common import *
from .bigs import Nums, big, const, naught, facts_true
from .gates import wide
from .c02 import success
from engine.num import note_atom

COUNTS = (2, 3, 4)                # numbers of primes analysed
PAIRS = {(1024, 160), (2048, 224), (2048, 256), (3072, 256)}


class Key(Nums):
    """nothing of the keys opaque; scalar multiplication of the generic curve code opaque"""
    def __init__(self, prog):
        Nums.__init__(self, prog)
        self.key = set()
        self.rsadp = None

    def call(self, I, fr, st, c, fn, args, rty, span):
        if fn is None and c["n"].startswith("std::vec::Vec") and c["name"] == "dedup":
            s = I.seq(st, args[0])
            if s.p and all(p[0] == "lit" for p in s.p):
                xs = [x for p in s.p for x in p[1]]
                s2 = st.copy()
                n = T("len", T("dedup", s))
                note_atom(n)
                s2.facts.add_ge(Lin(len(xs) - 1) - Lin.atom(n))
                I.store(s2, args[0], Seq((("src", T("dedup", s), ZERO, Lin.atom(n)),)))
                for a, b in zip(xs, xs[1:]):
                    st.assume(differ(a, b), False)
                return [(st, UNIT), (s2, UNIT)]
        if fn is not None and multiplies(self.prog, fn):
            t = T("mul", *[big(I.freeze(st, a)) for a in args])
            return [(st, I.value_of(st, t, rty))]
        return Nums.call(self, I, fr, st, c, fn, args, rty, span)

    def big_deep_clone(self, I, st, xs, args, rty):
        return [(st, Sym(xs[0], rty))]

    def big_div_euclid_assign(self, I, st, xs, args, rty):
        I.store(st, args[0], Sym(T("quo", *xs), I.refty(args[0])))
        return [(st, UNIT)]

    def big_div_euclid(self, I, st, xs, args, rty):
        return [(st, Sym(T("quo", *xs), rty))]


def multiplies(prog, fn):
    """a point and octets (or a number) to a point"""
    o = prog.tys[fn["out"]]
    if o["k"] != "tuple" or len(fn["in"]) != 4:
        return False
    a = self_adt(prog, fn)
    last = prog.tys[fn["in"][3]]
    return a is not None and a["n"].endswith("CurveParams") and last["k"] == "ref" and prog.tys[last["e"]]["k"] == "slice"


def differ(a, b):
    return T("same", *sorted((a, b), key=lambda x: x.id))


def amount(x):
    x = big(x)
    if isinstance(x, T):
        x = const(x)
    return (x.c if not x.t else None) if isinstance(x, Lin) else x if isinstance(x, int) else None


# ---- integers modulo a prime -------------------------------------------------------
# {monomial: coefficient}; a monomial is a set of (factor, exponent) and an exponent itself such a
# polynomial, modulo the prime less one

ONE1 = frozenset({(frozenset(), 1)})


class Red:
    """normal form modulo what `zero` recognises; sub: the same for exponents"""
    def __init__(self, zero, sub=None, st=None):
        self.zero, self.sub, self.st = zero, sub, st

    def __call__(self, t):
        t = big(t)
        if self.zero(t):
            return {}
        k = amount(t)
        if k is not None:
            if self.sub is None and abs(k) > 1:
                return {frozenset({(T("int", k), ONE1)}): 1}    # as a factor: it may be inverted
            return {frozenset(): k} if k else {}
        if isinstance(t, T):
            if t.op == "mod" and self.null(t.args[1]):
                return self(t.args[0])
            if t.op == "op" and t.args[0] == "Rem" and self.null(t.args[2]):
                return self(t.args[1])
            if t.op == "inv" and self.null(t.args[1]):
                return self.power(self(t.args[0]), neg(ONE1), t)
            if t.op == "exp" and self.sub is not None and self.null(t.args[2]):
                return self.power(self(t.args[0]), frozenset(self.sub(t.args[1]).items()), t)
            if t.op == "op" and t.args[0] in ("Mul", "Add", "Sub"):
                a, b = self(t.args[1]), self(t.args[2])
                return pmul(a, b) if t.args[0] == "Mul" else padd(a, b, 1 if t.args[0] == "Add" else -1)
            if self.st is not None:
                for b in facts_true(self.st):
                    if b.op == "same":
                        for x, y in (b.args, b.args[::-1]):
                            x, y = big(x), big(y)
                            if naught(y) and isinstance(x, T) and (x.op == "op" and x.args[0] == "Rem" and big(x.args[1]) is t and self.null(x.args[2]) or x.op == "mod" and big(x.args[0]) is t and self.null(x.args[1])):
                                return {}
        return {frozenset({(t, ONE1)}): 1}

    def null(self, t):
        t = big(t)
        return self.zero(t) or isinstance(t, T) and not self(t)

    def power(self, p, e, t):
        if p == {frozenset(): 1}:
            return p
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1:
                r = {}
                for f, x in m:
                    y = frozenset(pmul(dict(x), dict(e)).items())
                    if y:
                        r[f] = y
                return {frozenset(r.items()): 1}
        return {frozenset({(T("pw", t), ONE1)}): 1}


def neg(e):
    return frozenset((m, -c) for m, c in e)


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def mono(a, b):
    d = dict(a)
    for f, e in b:
        if f in d:
            x = frozenset(padd(dict(d[f]), dict(e)).items())
            if x:
                d[f] = x
            else:
                del d[f]
        else:
            d[f] = e
    return frozenset(d.items())


def pmul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            m = mono(a, b)
            r[m] = r.get(m, 0) + x * y
    return {m: c for m, c in r.items() if c}


def less1(p):
    """the term is p - 1"""
    def f(t):
        return isinstance(t, T) and t.op == "op" and t.args[0] == "Sub" and big(t.args[1]) is p and amount(t.args[2]) == 1
    return f


def modulo(p, st=None):
    return Red(lambda t: t is p, Red(less1(p)), st)


PLAIN = Red(lambda t: False)


def factors(t):
    """the factors of a product, or None"""
    p = PLAIN(t)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if c != 1 or any(e != ONE1 and not whole(e) for f, e in m):
        return None
    return [f for f, e in m for _ in range(1 if e == ONE1 else whole(e))]


def whole(e):
    d = dict(e)
    return d[frozenset()] if set(d) == {frozenset()} and d[frozenset()] > 0 else 0


# ---- the check ---------------------------------------------------------------------

def check(progs, rep):
    rep.rule("modulus", "the modulus of a generated RSA key is the product of its primes and has the requested number of bits")
    rep.rule("distinct", "the primes of a generated RSA key were seen to differ pairwise")
    rep.rule("exponents", "the private exponent of a generated RSA key inverts the public one modulo every prime less one")
    rep.rule("private", "the private operation of a generated RSA key, blinded or not, gives modulo every prime the power of the input by the private exponent")
    rep.rule("dsa-parameters", "generated DSA parameters: q and p were tested prime, p = 1 modulo q, p has the requested length, g = h^((p-1)/q) mod p and is not 1")
    rep.rule("dsa-key", "a generated DSA key: the secret is not zero and below q, the public value is g raised to it modulo p")
    rep.rule("curve-key", "a generated curve key: the secret is not zero and below the group order, the public point is the base point multiplied by it")
    prog = progs["A"]
    rsa(rep, prog)
    dsa(rep, prog)
    curve(rep, prog)


def undecided(rep, what, why):
    ls = rep.notes.setdefault("undecided", [])
    x = "%s: %s" % (what, str(why)[:160])
    if x not in ls:
        ls.append(x)
        rep.obl += 1


def of(prog, mod, adt):
    return next((a for a in prog.adts.values() if "::%s::" % mod in "::" + a["n"] and a["n"].split("::")[-1] == adt), None)


def makers(prog, a):
    """functions that make an object of the type from none: (function, ...)"""
    for f in local_fns(prog):
        o = prog.tys[f["out"]]
        if f["kind"] != "fn" or f.get("trait"):
            continue
        ds = {o.get("d")} | {prog.tys[x].get("d") for x in o.get("a", ()) if isinstance(x, int)}
        if a["d"] in ds and not any(reaches(prog, t, a["d"]) for t in f["in"]):
            yield f


def reaches(prog, t, d):
    y = prog.tys[t]
    while y["k"] == "ref":
        y = prog.tys[y["e"]]
    return y.get("d") == d


def uints(prog, f):
    return [i for i, t in enumerate(f["in"]) if prog.tys[t]["k"] == "uint"]


def far(run):
    wide(run)
    run.I.unroll = 8


# ---- RSA ---------------------------------------------------------------------------

def rsa(rep, prog):
    a = of(prog, "rsa", "PrivateKey")
    gens = [f for f in makers(prog, a) if uints(prog, f)] if a else []
    dec = next((f for f in local_fns(prog) if self_adt(prog, f) is a and f["name"] == "decrypt"), None) if a else None
    enc = next((f for f in local_fns(prog) if self_adt(prog, f) is of(prog, "rsa", "PublicKey") and f["name"] == "encrypt"), None)
    rep.check(bool(gens) and dec is not None and enc is not None, "rsa", "RSA key generation and private operation found", text="no RSA key generation and private operation found")
    if not gens or dec is None or enc is None:
        return
    for f in gens:
        us = uints(prog, f)
        for k in COUNTS if len(us) >= 3 else (2,):
            why = guarded(lambda: rsakey(rep, prog, f, us, k, dec, enc), 120)
            if why:
                undecided(rep, "rsa", why)


def rsakey(rep, prog, f, us, k, dec, enc):
    def prep(run):
        far(run)
        if len(us) >= 3:
            run.args[us[0]] = Lin(k)
    run = attempt(rep, prog, f, Key(prog), prep=prep)
    if run is None:
        return
    bits = run.args[us[1] if len(us) >= 3 else us[0]]
    n = 0
    seen = set()
    for s, v in run.ok():
        o = success(run.I, s, v)
        o = run.I.freeze(s, o) if o is not None else None
        if not isinstance(o, Agg) or s.facts.infeasible():
            continue
        n += 1
        why = guarded(lambda: numbers(rep, prog, f, run, s, o, k, bits, dec, enc), 60)
        if why:
            undecided(rep, "rsa", why)
    if not n:
        undecided(rep, "rsa", "%s with %d primes: no key" % (f["n"], k))


def on(rep, prog, fn, obj):
    """the function run on the object"""
    def prep(run):
        far(run)
        run.I.store(run.st, run.args[0], obj)
    return attempt(rep, prog, fn, Key(prog), prep=prep)


def numbers(rep, prog, f, run, s, o, k, bits, dec, enc):
    pub = next((x for x in o.f if isinstance(x, Agg) and adt_last(x) == "PublicKey"), None)
    r = on(rep, prog, enc, pub) if pub is not None else None
    es = {big(r.I.freeze(t, v)) for t, v in r.ok()} if r is not None else set()
    es = [x for x in es if isinstance(x, T) and x.op == "exp"]
    if len(es) != 1:
        return undecided(rep, "modulus", "the public operation is not one power")
    e, n = big(es[0].args[1]), big(es[0].args[2])
    what = "%s, %d primes" % (f["name"], k)
    ps = factors(n)
    if ps is None:
        return undecided(rep, "modulus", show(n)[:100])
    if any(not any(isinstance(x, T) and x.op == "call" and "generate_prime" in str(x.args[0]) for x in walk(p)) for p in ps):
        return undecided(rep, "modulus", "a factor is %s" % next((show(p)[:100] for p in ps if not any(isinstance(x, T) and x.op == "call" and "generate_prime" in str(x.args[0]) for x in walk(p))), ""))
    rep.check(len(ps) == k, "modulus:product", "%s: the modulus is the product of the primes" % what, where(f), text="%s: the modulus has %d factors" % (what, len(ps)))
    a = T("bits", n)
    note_atom(a)
    rep.check(s.facts.entails_eq(Lin.atom(a) - bits), "modulus:bits", "%s: the modulus has the requested length" % what, where(f), text="%s: a key is returned although its modulus was not seen to have the requested number of bits" % what)
    own = [x for y in o.f if isinstance(y, Seq) for x in ([z for p in y.p if p[0] == "lit" for z in p[1]])]
    if own:
        rep.check({big(x) for x in own} == set(ps), "modulus:primes", "%s: the key holds the factors of the modulus" % what, where(f), text="%s: the primes in the key are not the factors of the modulus" % what)
    pairs = [(p, q) for i, p in enumerate(ps) for q in ps[i + 1:]]
    ne = [(p, q) for p, q in pairs if not apart(s, p, q)]
    if any(isinstance(x, T) and x.op in ("perm", "dedup") for p in ps for x in walk(p)):
        if not sorted_apart(s, ps):
            undecided(rep, "distinct", "%s: %s" % (what, show(ps[0])[:80]))
    else:
        rep.check(not ne, "distinct", "%s: the primes differ pairwise" % what, where(f), text="%s: two of the primes can be equal: only %d of %d pairs were seen to differ" % (what, len(pairs) - len(ne), len(pairs)))
    r = on(rep, prog, dec, o)
    if r is None:
        return
    c = big(r.I.freeze(r.entry, r.args[1]))
    c = big(c) if isinstance(big(c), T) else None
    got = 0
    for t, v in r.ok():
        if t.facts.infeasible():
            continue
        m = success(r.I, t, v)
        m = big(r.I.freeze(t, m)) if m is not None else None
        if not isinstance(m, T):
            undecided(rep, "private", show(v)[:80])
            continue
        ts = {x for x in walk(m) if isinstance(x, T) and x.op == "*" and x.args[0] is T("P", "a1")}
        if len(ts) != 1:
            undecided(rep, "private", "the input is not known in %s" % show(m)[:80])
            continue
        c, = ts
        got += 1
        for i, p in enumerate(ps):
            red = modulo(p)
            x = red(m)
            good = None
            if len(x) == 1:
                (mo, co), = x.items()
                d = dict(mo)
                if co == 1 and set(d) == {c}:
                    # the exponent has to invert the public one
                    y = pmul(dict(d[c]), red.sub(e))
                    good = y == {frozenset(): 1}
            if good is None and any(isinstance(y, T) and y.op in ("mu", "pr", "pw", "havoc") for mo in x for y, _ in mo):
                undecided(rep, "private", "%s: %s" % (what, show(m)[:100]))
                continue
            rep.check(bool(good), "private" if good is None else "exponents", "%s: modulo prime %d the private operation undoes the public one" % (what, i + 1), where(dec if good is None else f),
                      text="%s: modulo prime %d the private operation gives %s" % (what, i + 1, text(x)) if good is None else "%s: the exponent used modulo prime %d does not invert the public one" % (what, i + 1))
    if not got:
        undecided(rep, "private", "%s: no result" % what)


def text(p):
    return " + ".join("%s%s" % ("" if c == 1 else "%d*" % c, "*".join("%s%s" % (show(f)[:40], "" if e == ONE1 else "^..") for f, e in m) or "1") for m, c in list(p.items())[:4])[:160] or "0"


def apart(s, p, q):
    for b, v in s.b.items():
        if b.op == "same" and v is False:
            x, y = (big(z) for z in b.args)
            if (x is p and y is q) or (x is q and y is p):
                return True
        if b.op == "less" and v is True:
            x, y = (big(z) for z in b.args)
            if (x is p and y is q) or (x is q and y is p):
                return True
        if b.op == "contains" and v is False:
            x = big(b.args[1])
            xs = {big(z) for r in b.args[0].p if r[0] == "lit" for z in r[1]} if isinstance(b.args[0], Seq) else set()
            if x is p and q in xs or x is q and p in xs:
                return True
    return False


def sorted_apart(s, ps):
    return False


# ---- DSA ---------------------------------------------------------------------------

def dsa(rep, prog):
    a, d = of(prog, "dsa", "PrivateKey"), of(prog, "dsa", "DomainParameters")
    gens = [f for f in makers(prog, d) if len(uints(prog, f)) >= 2] if d else []
    keys = [f for f in makers(prog, a) if any(reaches(prog, t, d["d"]) for t in f["in"])] if a and d else []
    keys = [f for f in keys if len(f["in"]) == 2 and not any(prog.tys[t].get("n", "").endswith("PublicKey") for t in f["in"])]
    keys = [f for f in keys if any(prog.tys[t]["k"] == "ref" and prog.tys[prog.tys[t]["e"]]["k"] == "param" for t in f["in"])]
    rep.check(bool(gens) and bool(keys), "dsa", "DSA parameter and key generation found", text="no DSA parameter and key generation found")
    roles = set()
    for f in gens:
        why = guarded(lambda: params(rep, prog, f, roles), 120)
        if why:
            undecided(rep, "dsa-parameters", why)
    for f in keys:
        why = guarded(lambda: dsakey(rep, prog, f, roles), 60)
        if why:
            undecided(rep, "dsa-key", why)
    pairs(rep, prog, d, gens)


def params(rep, prog, f, roles):
    run = attempt(rep, prog, f, Key(prog), prep=wide)
    if run is None:
        return
    us = uints(prog, f)
    n = 0
    for s, v in run.ok():
        o = success(run.I, s, v)
        o = run.I.freeze(s, o) if o is not None else None
        if not isinstance(o, Agg) or s.facts.infeasible():
            continue
        n += 1
        xs = [big(x) for x in o.f]
        gi = [i for i, x in enumerate(xs) if isinstance(x, T) and x.op == "exp"]
        if len(gi) != 1 or len(xs) != 3:
            rep.violation("dsa-parameters:generator", "the generator is not a power", where(f)) if not gi else undecided(rep, "dsa-parameters", "%d powers" % len(gi))
            continue
        g = xs[gi[0]]
        h, e, p = (big(y) for y in g.args)
        pi = [i for i, x in enumerate(xs) if x is p]
        rep.check(len(pi) == 1, "dsa-parameters:modulus", "the generator is a power modulo p", where(f))
        if len(pi) != 1:
            continue
        qi, = {0, 1, 2} - {gi[0], pi[0]}
        q = xs[qi]
        roles.add((pi[0], qi, gi[0]))
        ok = isinstance(e, T) and e.op == "quo" and big(e.args[1]) is q and less1(p)(big(e.args[0]))
        if not ok and not (isinstance(e, T) and e.op in ("quo", "op", "mod", "inv", "exp")) and not e is q and not e is p:
            undecided(rep, "dsa-parameters", "exponent %s" % show(e)[:80])
        else:
            rep.check(ok, "dsa-parameters:exponent", "the generator is h^((p-1)/q)", where(f), text="the generator is raised to %s instead of (p-1)/q" % show(e)[:60])
        ne = any(b.op == "same" and v is False and g in [big(x) for x in b.args] and 1 in [amount(x) for x in b.args] for b, v in s.b.items())
        rep.check(ne, "dsa-parameters:one", "the generator was seen not to be 1", where(f), text="a generator equal to 1 is not excluded")
        # p and q, through the conversion from naturals
        pn, qn = nat(p), nat(q)
        red = Red(lambda t: t is qn or t is q, None, s)
        x = red(pn)
        if any(isinstance(y, T) and y.op in ("mu", "pr") for m in x for y, _ in m):
            undecided(rep, "dsa-parameters", "p modulo q")
        else:
            rep.check(x == {frozenset(): 1}, "dsa-parameters:congruent", "p = 1 modulo q", where(f), text="p is %s modulo q instead of 1" % text(x))
        pt = [b for b in facts_true(s) if b.op == "call" and "prime_test" in str(b.args[0]) and pn in [big(x) for x in b.args[1:]]]
        rep.check(bool(pt), "dsa-parameters:p-prime", "p was tested prime", where(f), text="p is used without having passed a primality test")
        qg = [y for y in walk(qn) if isinstance(y, T) and y.op == "call" and "generate_prime" in str(y.args[0])]
        qt = [b for b in facts_true(s) if b.op == "call" and "prime_test" in str(b.args[0]) and qn in [big(x) for x in b.args[1:]]]
        rep.check(bool(qg or qt), "dsa-parameters:q-prime", "q is a generated prime", where(f), text="q is used without having passed a primality test")
        if qg:
            ns = [y for y in qg[0].args[1:] if isinstance(y, Lin)]
            rep.check(run.args[us[1]] in ns, "dsa-parameters:q-bits", "q has the requested length", where(f), text="q is generated with %s bits instead of the requested number" % ", ".join(show(y)[:30] for y in ns))
        bl = [y for y in atoms(s) if y.op == "call" and "bits_len" in str(y.args[0]) and big(y.args[1]) is pn] + [T("bits", pn), T("bits", p)]
        ok = any(s.facts.entails_ge(Lin.atom(y) - run.args[us[0]]) for y in bl if note(y))
        rep.check(ok, "dsa-parameters:p-bits", "p has the requested length", where(f), text="p is used although it was not seen to have the requested number of bits")
    if not n:
        undecided(rep, "dsa-parameters", "no parameters")


def note(y):
    note_atom(y)
    return True


def atoms(s):
    r = set()
    for e in list(s.facts.ge) + list(s.facts.eq):
        r |= {a for a, c in e.t if isinstance(a, T)}
    return r


def nat(t):
    t = big(t)
    while isinstance(t, T) and t.op == "call" and len(t.args) == 2 and "::from" in str(t.args[0]):
        t = big(t.args[1])
    return t


def dsakey(rep, prog, f, roles):
    run = attempt(rep, prog, f, Key(prog), prep=wide)
    if run is None:
        return
    if len(roles) != 1:
        return undecided(rep, "dsa-key", "the roles of the parameters are not known")
    (pi, qi, gi), = roles
    n = 0
    for s, v in run.ok():
        o = success(run.I, s, v)
        o = run.I.freeze(s, o) if o is not None else None
        if not isinstance(o, Agg) or s.facts.infeasible():
            continue
        n += 1
        pk = next((x for x in o.f if isinstance(x, Agg)), None)
        dp = next((x for x in pk.f if isinstance(x, Agg)), None) if pk else None
        sec = [big(x) for x in o.f if not isinstance(x, Agg)]
        ys = [big(x) for x in pk.f if not isinstance(x, Agg)] if pk else []
        if dp is None or len(sec) != 1 or len(ys) != 1 or len(dp.f) != 3:
            undecided(rep, "dsa-key", show(o)[:80])
            continue
        p, q, g = (big(dp.f[i]) for i in (pi, qi, gi))
        x, y = sec[0], ys[0]
        keyed(rep, f, s, x, q, "dsa-key")
        ok = isinstance(y, T) and y.op == "exp" and [big(z) for z in y.args] == [g, x, p]
        rep.check(ok, "dsa-key:public", "the public value is g^x mod p", where(f), text="the public value is %s instead of g^x mod p" % show(y)[:100])
    if not n:
        undecided(rep, "dsa-key", "no key")


def nonzero(s, x):
    for b, v in s.b.items():
        if b.op == "same" and v is False and x in [big(z) for z in b.args] and any(amount(z) == 0 for z in b.args):
            return True
        if b.op == "less" and v is True and big(b.args[1]) is x and (amount(b.args[0]) or 0) >= 0 and amount(b.args[0]) is not None:
            return True
        if b.op == "less" and v is False and big(b.args[0]) is x and (amount(b.args[1]) or 0) > 0:
            return True
    return False


def keyed(rep, f, s, x, q, rule, zero=True):
    lt = any(b.op == "less" and v is True and big(b.args[0]) is x and big(b.args[1]) is q for b, v in s.b.items())
    rep.check(lt, "%s:below" % rule, "the secret is below the group order", where(f), text="a key is returned although its secret was not seen to be below the group order")
    if zero:
        ne = nonzero(s, x)
        rep.check(ne, "%s:nonzero" % rule, "the secret is not zero", where(f), text="a key is returned although its secret was not seen to be different from zero")


def pairs(rep, prog, d, gens):
    """functions named after a size generate that size"""
    import re
    ds = {f["d"] for f in gens}

    class Rec(Key):
        def call(self, I, fr, st, c, fn, args, rty, span):
            if fn is not None and fn["d"] in ds:
                self.got.append(tuple(amount(a) for a in args if isinstance(a, Lin)))
                return [(st, I.value_of(st, T("made", len(self.got)), rty))]
            return Key.call(self, I, fr, st, c, fn, args, rty, span)
    for f in local_fns(prog):
        m = re.fullmatch(r"l(\d+)_n(\d+)", f["name"])
        if not m or f["kind"] != "fn":
            continue
        want = (int(m.group(1)), int(m.group(2)))
        pol = Rec(prog)
        pol.got = []
        if attempt(rep, prog, f, pol, prep=wide) is None:
            continue
        if not pol.got:
            undecided(rep, "dsa-parameters", "%s: no call" % f["name"])
        for g in pol.got:
            rep.check(g[:2] == want, "dsa-parameters:size:%s" % f["name"], "%s: sizes %s" % (f["name"], want), where(f), text="%s generates parameters of sizes %s" % (f["name"], g[:2]))


# ---- curves ------------------------------------------------------------------------

def curve(rep, prog):
    a = of(prog, "elliptic", "PrivateKey")
    gens = [f for f in makers(prog, a) if self_adt(prog, f) is not None and self_adt(prog, f)["n"].endswith("CurveParams")] if a else []
    for f in gens:
        why = guarded(lambda: ckey(rep, prog, f), 60)
        if why:
            undecided(rep, "curve-key", why)
    for f in local_fns(prog):
        b = self_adt(prog, f)
        if b is None or b["n"].split("::")[-1] != "ECDSA" or f["kind"] != "fn" or has_self_ref(prog, f):
            continue
        if any(prog.tys[t].get("n", "").endswith("KeyPair") for t in f["in"]):
            continue
        why = guarded(lambda: ckey(rep, prog, f), 60)
        if why:
            undecided(rep, "curve-key", why)


def ckey(rep, prog, f):
    run = attempt(rep, prog, f, Key(prog), prep=far)
    if run is None:
        return
    n = 0
    for s, v in run.ok():
        o = success(run.I, s, v)
        o = run.I.freeze(s, o) if o is not None else None
        if o is None or s.facts.infeasible():
            continue
        for k in {x for x in walk(o) if isinstance(x, Agg) and adt_last(x) == "PrivateKey"}:
            pk = next((x for x in k.f if isinstance(x, Agg)), None)
            sec = [big(x) for x in k.f if not isinstance(x, Agg)]
            pts = [big(x) for x in pk.f] if pk else []
            if len(sec) != 1 or len(pts) != 2:
                undecided(rep, "curve-key", show(k)[:80])
                continue
            n += 1
            d = sec[0]
            ok = False
            if all(isinstance(t, T) and t.op == "fld" for t in pts) and pts[0].args[0] is pts[1].args[0] and [t.args[-1] for t in pts] == [0, 1]:
                m = pts[0].args[0]
                if m.op == "mul":
                    # (curve, x, y, octets): the octets of the secret and the base point of that curve
                    kx = m.args[3]
                    ok = isinstance(d, T) and d.op == "os2i" and unseq(kx) == d.args[0] and all(isinstance(z, T) and z.op == "fld" for z in m.args[1:3])
                    if ok:
                        base = basis(rep, prog)
                        if base:
                            ok = tuple(z.args[-1] for z in m.args[1:3]) in base
                        ls = [big(b.args[1]) for b, v in s.b.items() if b.op == "less" and v is True and big(b.args[0]) is d]
                        o = order(prog)
                        if o is not None:
                            rep.check(any(isinstance(z, T) and z.op == "fld" and z.args[-1] == o for z in ls), "curve-key:below", "%s: the secret is below the group order" % f["name"], where(f), text="%s: a key is returned although its secret was not seen to be below the group order" % f["name"])
                        rep.check(nonzero(s, d), "curve-key:nonzero", "%s: the secret is not zero" % f["name"], where(f), text="%s: a key is returned although its secret was not seen to be different from zero" % f["name"])
                elif m.op == "pt":
                    ok = m.args[0] == "scalar_base_point" and any(z is d or unseq(z) is d for z in m.args[1:])
            if not ok and not all(isinstance(t, T) and (t.op == "fld" and t.args[0].op in ("mul", "pt") or t.op != "fld" and t.op not in ("mu", "pr")) for t in pts):
                undecided(rep, "curve-key", show(pk)[:100])
                continue
            rep.check(ok, "curve-key:public", "%s: the public point is the base point times the secret" % f["name"], where(f), text="%s: the public point is %s" % (f["name"], show(pk)[:120]))
    if n == 0 and any(isinstance(x, Agg) and adt_last(x) == "PrivateKey" for s, v in run.ok() for x in walk(run.I.freeze(s, v))):
        undecided(rep, "curve-key", "%s: no key" % f["n"])


def basis(rep, prog):
    """the fields the multiplication of the base point uses"""
    r = set()
    for f in local_fns(prog):
        a = self_adt(prog, f)
        if a is None or not a["n"].endswith("CurveParams") or len(f["in"]) != 2 or prog.tys[f["out"]]["k"] != "tuple" or f["kind"] != "fn":
            continue
        run = attempt(rep, prog, f, Key(prog), prep=wide)
        for s, v in run.ok() if run is not None else ():
            for m in walk(run.I.freeze(s, v)):
                if isinstance(m, T) and m.op in ("mul", "pt") and len(m.args) == 4 and all(isinstance(big(z), T) and big(z).op == "fld" for z in m.args[1:3]):
                    r.add(tuple(big(z).args[-1] for z in m.args[1:3]))
    return r


def order(prog):
    """the field that holds the order of the base point: what the accessor of that name gives"""
    for f in local_fns(prog):
        a = self_adt(prog, f)
        if a is not None and a["n"].endswith("CurveParams") and f["name"] == "base_point_order":
            run = Run(prog, f, Key(prog))
            vs = {big(run.I.freeze(s, v)) for s, v in run.ok()}
            for v in vs:
                for x in walk(v):
                    if isinstance(x, T) and x.op == "fld":
                        return x.args[-1]
    return None


def unseq(t):
    t = big(t)
    while isinstance(t, T) and t.op in ("seq", "val", "as_ref", "*") and len(t.args) == 1:
        t = big(t.args[0])
    return t
