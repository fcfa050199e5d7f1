"""C29: curve operations follow the group law, as polynomial identities over the field."""
import re
from math import gcd
from .common import *
from .bigs import Nums, Keyed, big, const, BIG
from .gates import wide
from .c27 import amount
from engine import models
from engine.terms import TRUE, FALSE

# what a function of a field does, by the last word of its name
RING = {"sum": "Add", "add": "Add", "diff": "Sub", "sub": "Sub", "mul": "Mul", "square": "sq", "assign": "id", "reduce": "id", "contract": "id", "invert": "inv"}
COST = 4000


class Ring(Nums):
    """integers modulo the field as polynomials; a sign test tells zero from nonzero; `sign` is what it says of the others"""
    def __init__(self, prog, sign=1):
        Nums.__init__(self, prog)
        self.sign = sign
        self.tests = {}                                  # fact -> (polynomial, what is tested is reduced)
        self.mods = set()
        self.shifts = []

    def call(self, I, fr, st, c, fn, args, rty, span):
        n = c["n"]
        m = n[len(BIG):] if n.startswith(BIG) else None
        if c["name"] in SHIFTS and len(args) == 2 and number(I, plainly(I, st, args[0])):
            k = amount(I.freeze(st, args[1]))
            x = poly(big(I.freeze(st, args[0])))
            if k is not None and k >= 32 and (not x or set(x) != {()}):
                z = T("zero", frozen(primitive(x))) if x else None
                self.shifts.append((k, z is not None and st.b.get(z) is False, span))
        if m == "is_nan":
            return [(st, FALSE)]
        if m == "signnum":
            x = big(I.freeze(st, args[0]))
            some = lambda v: models.mk(I, "Option", 1, Lin(v))
            return self.test(st, poly(x), reduced(x), some(0), some(self.sign), some)
        if m in ("deep_clone", "sqr"):
            x = big(I.freeze(st, args[0]))
            return [(st, Sym(x if m == "deep_clone" else T("op", "Mul", x, x), rty))]
        if m in ("rem_euclid", "rem_euclid_assign", "mod_inverse") and len(args) > 1:
            p = big(I.freeze(st, args[1]))
            if p not in self.mods:
                self.mods.add(p)
                MODS.add(p)
                MEMO.clear()
        if c["name"] in ("eq", "ne") and len(args) == 2 and all(number(I, plainly(I, st, a)) for a in args):
            a, b = (big(I.freeze(st, x)) for x in args)
            y, z = (TRUE, FALSE) if c["name"] == "eq" else (FALSE, TRUE)
            return self.test(st, add(poly(a), poly(b), -1), small(a) and small(b), y, z)
        if c.get("tname") == "EllipticCurve":
            return Keyed.call(self, I, fr, st, c, fn, args, rty, span)
        if fn is not None:
            r = fieldop(self.prog, fn)
            if r is not None:
                return self.element(I, st, fn, r, args, rty)
        return Nums.call(self, I, fr, st, c, fn, args, rty, span)

    def test(self, st, p, canon, yes, no, some=None):
        """is it zero"""
        if not p:
            return [(st, yes)]
        if set(p) == {()}:
            return [(st, some(1 if p[()] > 0 else -1) if some else no)]
        p = primitive(p)
        z = T("zero", frozen(p))
        old = self.tests.get(z)
        self.tests[z] = (p, canon or bool(old and old[1]))
        if z in st.b:
            return [(st, yes if st.b[z] else no)]
        s2 = st.copy()
        st.b[z] = True
        s2.b[z] = False
        return [(st, yes), (s2, no)]

    def element(self, I, st, fn, role, args, rty):
        """an operation on elements held in arrays"""
        k, n, pos = role
        plain = "p224" in fn["name"]
        ins = [val(I, st, args[i], plain) for i in pos]
        if k == "from":
            ins = [big(I.freeze(st, args[-1]))]
        if any(x is None for x in ins):
            raise Exception("element of unknown form in %s" % fn["name"])
        if k == "to":
            return [(st, Sym(T("mod", ins[0], T("fieldsize")), rty))]
        if k == "zero":
            return self.test(st, poly(ins[0]), True, Lin(1), Lin(0))
        if k == "if":
            b = args[-1]
            if not isinstance(b, Lin) or b.t or b.c not in (0, 1, 0xffffffff):
                raise Exception("condition of unknown form in %s" % fn["name"])
            t = ins[0] if b.c else val(I, st, args[0], plain)
            if t is None:
                raise Exception("element of unknown form in %s" % fn["name"])
        elif k == "scale":
            t = T("op", "Mul", T("int", n), ins[0])
        elif k in ("Add", "Sub", "Mul"):
            t = T("op", k, *ins)
        elif k == "sq":
            t = T("op", "Mul", ins[0], ins[0])
        elif k == "inv":
            t = T("inv", ins[0], T("fieldsize"))
        else:
            t = T("canon", ins[0]) if n else ins[0]
        at = args[1] if k == "from" and "self" in fn and isinstance(args[0], Ref) and len(args) == 3 else args[0]
        o = I.seq(st, at)
        WIDTH[t] = amount(o.len) or 0
        I.store(st, at, Seq((("src", T("el", t), ZERO, o.len),)))
        return [(st, UNIT)]


def plainly(I, st, a):
    while isinstance(a, Ref):
        a = I.load(st, a, I.refty(a))
    return a


def number(I, x):
    return isinstance(x, Sym) and x.ty is not None and I.tys[I.strip(x.ty)].get("n", "").split("::")[-1] in ("BigInt", "Nat")


SHIFTS = ("shl", "shl_assign")


def shifts(rep, prog):
    """left shifts of integers that may be zero by a word or more: the arithmetic crate then leaves a number with leading zero words, whose remainder is wrong"""
    n = 0
    for f in sorted(local_fns(prog), key=lambda f: f["n"]):
        if f["kind"] != "fn" or not any(shifting(prog, b) for b in f["blocks"]):
            continue
        n += 1
        MODS.clear()
        MEMO.clear()
        pol = Ring(prog)
        guarded(lambda: Run(prog, f, pol, wide), 60)
        for k, ok, span in pol.shifts:
            rep.check(ok, "shift:%s:%d" % (f["n"], k), "%s: shifted by %d bits only if not zero" % (f["name"], k), where(f), text="%s: an integer that may be zero is shifted left by %d bits; the arithmetic crate does not normalise the result, the remainder of which is not zero" % (f["name"], k))
        if not pol.shifts:
            rep.check(True, "shift:%s" % f["n"], "%s: shifts by less than a word" % f["name"], where(f))
    rep.notes["functions shifting integers"] = n


def shifting(prog, b):
    t = b["t"] if isinstance(b, dict) else b[-1]
    if not t or t[0] != "call" or not isinstance(t[1], dict):
        return False
    c = t[1].get("fn") or {}
    return c.get("name") in SHIFTS and c.get("r", {}).get("d", "").startswith("rmath::")


def reduced(t):
    """an integer, reduced or the difference of two such: zero exactly if it is zero modulo the field"""
    if not isinstance(t, T):
        return amount(t) is not None
    if t.op == "op" and t.args[0] == "Add" and any(big(x) in MODS for x in t.args[1:]):
        return any(reduced(big(x)) for x in t.args[1:] if big(x) not in MODS)
    if t.op == "op" and t.args[0] == "Sub":
        return all(small(big(x)) for x in t.args[1:])
    return small(t)


def small(t):
    return t.op != "op" if isinstance(t, T) else amount(t) is not None


def val(I, st, a, plain):
    """the element in an array"""
    s = I.seq(st, a)
    return element(s, plain) if isinstance(s, Seq) else None


def element(s, plain):
    if len(s.p) == 1 and s.p[0][0] == "src" and s.p[0][2] == ZERO:
        t = s.p[0][1]
        return t.args[0] if t.op == "el" else t
    if len(s.p) == 1 and s.p[0][0] == "fill" and s.p[0][1] == ZERO:
        return T("int", 0)
    if not s.p or any(p[0] != "lit" for p in s.p):
        return None
    xs = [x for p in s.p for x in p[1]]
    got = None
    for i, x in enumerate(xs):
        d = limb(x, i)
        if d is None or None in d and not (plain and set(d) == {None}):
            return None
        if None in d:
            if i:
                return None                              # a constant other than a small one
            got = d
        elif got is None or i == 1 and set(got) == {None} and not d:
            got = d if got is None else got
        elif d != got and not (set(got) == {None} and not d):
            return None
    t = None
    for a, k in got.items():
        x = T("int", k) if a is None else T("op", "Mul", T("int", k), a.args[0] if a.op == "el" else a)
        t = x if t is None else T("op", "Add", t, x)
    return T("int", 0) if t is None else t


def limb(x, i):
    """{element: factor} of a linear combination of limbs i; the constant under None"""
    if isinstance(x, Lin):
        r = {None: x.c} if x.c else {}
        for a, k in (x.t.items() if isinstance(x.t, dict) else x.t):
            d = limb(a, i)
            if d is None:
                return None
            for e, c in d.items():
                r[e] = r.get(e, 0) + c * k
        return {e: c for e, c in r.items() if c}
    if not isinstance(x, T):
        return None
    if x.op == "elem" and amount(x.args[1]) == i:
        return {x.args[0]: 1}
    if x.op in ("<<", "wShl") and amount(x.args[1]) is not None:
        d = limb(x.args[0], i)
        return None if d is None else {e: c << amount(x.args[1]) for e, c in d.items()}
    if x.op in ("wAdd", "wSub", "wMul"):
        d, e = limb(x.args[0], i), limb(x.args[1], i)
        if d is None or e is None:
            return None
        if x.op == "wMul":
            if set(d) <= {None}:
                d, e = e, d
            return {a: c * e.get(None, 0) for a, c in d.items() if c * e.get(None, 0)} if set(e) <= {None} else None
        r = dict(d)
        for a, c in e.items():
            r[a] = r.get(a, 0) + (c if x.op == "wAdd" else -c)
        return {a: c for a, c in r.items() if c}
    return None


def pointed(prog, t):
    y = prog.tys[t]
    while y["k"] in ("ref", "ptr", "rawptr"):
        y = prog.tys[y["e"]]
    return y


def limbs(prog, t):
    y = pointed(prog, t)
    return y["k"] == "array" and prog.tys[y["e"]].get("k") == "uint" and prog.tys[y["e"]].get("bits") != 8


def fieldop(prog, fn):
    """(operation, factor, positions of the operands) of a function of field elements"""
    d = fn["d"]
    if d not in ROLES:
        ROLES[d] = _fieldop(prog, fn)
    return ROLES[d]


ROLES = {}


def _fieldop(prog, fn):
    if not re.search(r"elliptic::p\d+", fn["n"]) or fn["kind"] != "fn":
        return None
    w = fn["name"].split("_")
    ins = fn["in"]
    els = [i for i, t in enumerate(ins) if limbs(prog, t)]
    unit = prog.tys[fn["out"]]["k"] == "tuple"
    if w[-1] == "a" or not els or len(w) < 2:
        return None                                      # through raw pointers: look inside
    n = "_".join(w[1:])
    m = re.fullmatch(r"scalar(\d+)", n)
    if m and len(ins) == 1 and unit:
        return "scale", int(m.group(1)), els
    if n in ("from_bigint",) and unit and isbig(prog, ins[-1]):
        return "from", None, []
    if n in ("to_bigint",):
        return "to", None, els
    if n == "is_zero" and len(els) == 1 == len(ins):
        return "zero", None, els
    if n == "copy_conditional" and len(els) == 2 and len(ins) == 3 and unit:
        return "if", None, els[1:]
    if n in RING and unit and els[0] == 0:
        k = RING[n]
        if k == "id":
            return k, n == "contract", els[-1:]
        c = {"Add": 2, "Sub": 2, "Mul": 2, "sq": 1, "inv": 1}[k]
        if len(els) > c:
            return k, None, els[1:1 + c]
    return None


def isbig(prog, t):
    y = prog.tys[t]
    return y["k"] == "ref" and prog.tys[y["e"]].get("n", "").endswith("BigInt")


# ---- polynomials: {((atom, exponent), ...) sorted: coefficient} -----------------------------

MEMO, MODS, INV, WIDTH = {}, set(), {}, {}


def frozen(p):
    return T("poly", tuple(sorted((tuple((a.id, e) for a, e in m), c) for m, c in p.items())))


def primitive(p):
    """up to a constant factor; the field has a large prime size"""
    g = 0
    for c in p.values():
        g = gcd(g, c)
    m = min(p, key=lambda m: tuple((a.id, e) for a, e in m))
    g = -g if p[m] < 0 else g
    return {m: c // g for m, c in p.items()}


def poly(t):
    t = big(t)
    k = amount(t)
    if k is not None:
        return {(): k} if k else {}
    if t in MODS:
        return {}
    if t in MEMO:
        return MEMO[t]
    r = None
    if isinstance(t, T):
        if t.op == "int" and isinstance(t.args[0], int):
            r = {(): t.args[0]} if t.args[0] else {}
        elif t.op in ("mod", "canon"):
            r = poly(t.args[0])
        elif t.op == "op" and t.args[0] in ("Mul", "Add", "Sub"):
            a, b = poly(t.args[1]), poly(t.args[2])
            r = mul(a, b) if t.args[0] == "Mul" else add(a, b, 1 if t.args[0] == "Add" else -1)
        elif t.op == "op" and t.args[0] == "Shl" and amount(t.args[2]) is not None:
            r = {m: c << amount(t.args[2]) for m, c in poly(t.args[1]).items()}
        elif t.op == "inv":
            x = poly(t.args[0])
            if x == {(): 1}:
                r = x
            else:
                a = T("inverse", frozen(x))
                INV[a] = x
                r = {((a, 1),): 1}
    if r is None:
        r = {((t, 1),): 1}
    MEMO[t] = r
    return r


def add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + s * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def mul(a, b):
    if len(a) * len(b) > COST * COST:
        raise Budget("polynomial too large")
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = times(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def times(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def power(a, n):
    r = {(): 1}
    for _ in range(n):
        r = mul(r, a)
    return r


def clear(p):
    """(polynomial, denominator) with the inverses multiplied out"""
    inv = {a for m in p for a, e in m if a in INV}
    den = {(): 1}
    for a in inv:
        k = max(e for m in p for x, e in m if x is a)
        q = INV[a]
        r = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            r = add(r, mul({tuple((x, y) for x, y in m if x is not a): c}, power(q, k - e)))
        p, den = r, mul(den, power(q, k))
    if any(a in INV for m in p for a, e in m):
        x, d = clear(p)
        return x, mul(den, d)
    return p, den


# ---- the law ---------------------------------------------------------------------------------

def jadd(P, Q):
    """the sum in Jacobian coordinates, numerators over (h z1 z2)"""
    (x1, y1, z1), (x2, y2, z2) = P, Q
    u1, u2 = mul(x1, power(z2, 2)), mul(x2, power(z1, 2))
    s1, s2 = mul(y1, power(z2, 3)), mul(y2, power(z1, 3))
    h, r = add(u2, u1, -1), add(s2, s1, -1)
    x = add(add(power(r, 2), power(h, 3), -1), mul({(): 2}, mul(u1, power(h, 2))), -1)
    y = add(mul(r, add(mul(u1, power(h, 2)), x, -1)), mul(s1, power(h, 3)), -1)
    return (x, y, mul(h, mul(z1, z2))), h, r


def jdouble(P):
    x1, y1, z1 = P
    m = mul({(): 3}, add(power(x1, 2), power(z1, 4), -1))
    x = add(power(m, 2), mul({(): 8}, mul(x1, power(y1, 2))), -1)
    y = add(mul(m, add(mul({(): 4}, mul(x1, power(y1, 2))), x, -1)), mul({(): 8}, power(y1, 4)), -1)
    return (x, y, mul({(): 2}, mul(y1, z1)))


def same(A, B):
    """two Jacobian triples are the same point, as identities"""
    if not A[2] or not B[2]:
        return not A[2] and not B[2]
    return not add(mul(A[0], power(B[2], 2)), mul(B[0], power(A[2], 2)), -1) and not add(mul(A[1], power(B[2], 3)), mul(B[1], power(A[2], 3)), -1) and primitive(A[2]) == primitive(B[2])


def check(progs, rep):
    rep.rule("add", "the sum of two points is that of the group law, as a polynomial identity in their coordinates")
    rep.rule("double", "the double of a point is that of the group law for a = -3, as a polynomial identity")
    rep.rule("neutral", "adding the point at infinity gives the other point; a point and itself give its double, a point and its opposite infinity")
    rep.rule("affine", "the projective point (x, y, z) is the point (x/z^2, y/z^3); at infinity (0, 0)")
    rep.rule("equation", "the test for being on the curve compares y^2 with x^3 - 3x + b modulo the field")
    rep.rule("shift", "an integer that may be zero is not shifted left by a word or more, which the arithmetic crate does not normalise")
    rep.rule("field", "all operations of a curve reduce by the same integer")
    prog = progs["A"]
    kinds, mods = {}, {}
    for f in sorted(local_fns(prog), key=lambda f: f["n"]):
        if "elliptic::" not in f["n"] or f["kind"] != "fn":
            continue
        k = shape(prog, f)
        if k is None:
            continue
        kinds[k[0]] = kinds.get(k[0], 0) + 1
        MODS.clear()
        MEMO.clear()
        why = guarded(lambda: law(rep, prog, f, mods, *k), 120)
        if why:
            undecided(rep, f["n"], why)
    for k in ("sum", "twice", "equation"):
        rep.check(kinds.get(k, 0) > 0, "some:%s" % k, "%d operations of the kind '%s'" % (kinds.get(k, 0), k), text="no curve operation of the kind '%s' found" % k)
    for k in ("add", "double", "affine"):
        if not kinds.get(k):
            undecided(rep, k, "no operation in projective coordinates found by its name and arguments")
    rep.notes["operations"] = kinds
    shifts(rep, prog)
    for a, d in sorted(mods.items()):
        rep.check(len(d) <= 1, "field:%s" % a, "%s: one modulus" % a, text="%s: reductions by different integers: %s" % (a, "; ".join("%s in %s" % (show(m)[:60], ", ".join(sorted(fs))) for m, fs in sorted(d.items(), key=lambda x: show(x[0])))))


def undecided(rep, what, why):
    ls = rep.notes.setdefault("undecided", [])
    x = "%s: %s" % (what, str(why)[:200])
    if x not in ls:
        ls.append(x)
        rep.obl += 1


def shape(prog, f):
    """(kind, input argument positions, output: None for the result or positions)"""
    o = prog.tys[f["out"]]
    ins = f["in"]
    if f["name"].endswith("_a") or fieldop(prog, f) is not None:
        return None
    bs = [i for i, t in enumerate(ins) if isbig(prog, t)]
    nout = len(o.get("e", o.get("a", ()))) if o["k"] == "tuple" else 0
    if re.search(r" as [\w:]*EllipticCurve>::", f["n"]) and len(bs) == len(ins) - 1:
        k = {"add": ("sum", 4), "double": ("twice", 2), "is_on_curve": ("equation", 2)}.get(f["name"])
        return (k[0], bs, None) if k and len(bs) == k[1] else None
    m = re.fullmatch(r"(?:p\d+_)?(?:point_)?(add|double|to_affine|affine_from)(?:_jacobian|_mixed|_points?)*", f["name"])
    if not m:
        return None
    k = "affine" if "affine" in m.group(1) else m.group(1)
    if len(bs) == len(ins) - 1 and nout == (2 if k == "affine" else 3) and len(bs) == (6 if k == "add" else 3):
        return k, bs, None
    ls = [i for i, t in enumerate(ins) if limbs(prog, t)]
    if len(ls) == len(ins) and o["k"] == "tuple" and nout == 0:
        muts = [i for i in ls if prog.tys[ins[i]].get("m")]
        if k == "affine" and muts == [0, 1] and len(ls) == 5:
            return k, ls[2:], muts
        if k != "affine" and muts == [0, 1, 2] and len(ls) in ((6,) if k == "double" else (8, 9)):
            return k, ls[3:], muts
    return None


def rolled(run):
    wide(run)
    run.I.unroll = 10


def law(rep, prog, f, mods, kind, ins, outs):
    a = self_adt(prog, f)
    name = "%s::%s" % (a["n"].split("::")[-1], f["name"]) if a is not None else f["name"]
    twin = kind == "double" and outs is not None and any(g["n"] == f["n"] + "_a" for g in prog.fns.values())
    for sign, over in ((1, False), (-1, False)) + (((1, True),) if twin else ()):
        pol = Ring(prog, sign)

        def prep(run):
            rolled(run)
            if over:                                     # the result in place of the first point
                for i, j in zip(outs, ins):
                    run.args[i] = run.args[j]
        run = attempt(rep, prog, f, pol, prep=prep)
        if run is None:
            return
        I = run.I
        for m in pol.mods:
            if a is not None and any(x.op == "P" for x in walk(m)):
                mods.setdefault(a["n"].split("::")[-1], {}).setdefault(m, set()).add(f["name"])
        if outs is None:
            vs = [poly(big(I.freeze(run.entry, run.args[i]))) for i in ins]
        else:
            vs = [poly(val(I, run.entry, run.args[i], False)) for i in ins]
        for s, v in run.outs:
            if s.facts.infeasible():
                continue
            if kind == "equation":
                equation(rep, I, s, v, vs, f, name, Path(pol, s))
                continue
            if outs is None:
                r = I.freeze(s, v)
                if not isinstance(r, Agg):
                    undecided(rep, name, show(r)[:80])
                    continue
                xs = [big(x) for x in r.f]
            else:
                xs = [val(I, s, run.args[i], False) for i in outs]
            if any(x is None for x in xs):
                undecided(rep, name, "the result has an unknown form")
                continue
            p = Path(pol, s)
            R = [poly(x) for x in xs]
            {"add": padd, "double": pdouble, "affine": paffine, "sum": psum, "twice": ptwice}[kind](rep, f, name, vs, R, p, outs is None)


def limbtest(b):
    """((element, element), i): a comparison of their limbs i"""
    if not isinstance(b, T) or b.op != "eq0" or not isinstance(b.args[0], Lin) or b.args[0].c:
        return None
    ts = list(b.args[0].t.items() if isinstance(b.args[0].t, dict) else b.args[0].t)
    if len(ts) != 2 or any(abs(k) != 1 or not isinstance(a, T) or a.op != "elem" or a.args[0].op != "el" for a, k in ts) or ts[0][1] == ts[1][1]:
        return None
    i, j = (amount(a.args[1]) for a, k in ts)
    return (tuple(sorted((a.args[0].args[0] for a, k in ts), key=lambda x: x.id)), i) if i is not None and i == j else None


class Path:
    """what a path has found to vanish and not to"""
    def __init__(self, pol, s):
        self.zero, self.non, self.other = [], [], False
        same = {}
        for b, x in s.b.items():
            d = limbtest(b)
            if d is not None:
                same.setdefault(d[0], {})[d[1]] = x
            elif isinstance(b, T) and b.op == "zero":
                p, canon = pol.tests[b]
                if x:
                    self.zero.append(p)
                elif canon:
                    self.non.append(p)
            else:
                self.other = True
        for (a, b), d in same.items():
            p = add(poly(a), poly(b), -1)
            if not p:
                self.other = True
            elif not all(d.values()):
                if a.op == b.op == "canon":              # else the same element may have other limbs
                    self.non.append(primitive(p))
            elif set(d) == set(range(WIDTH[a])):
                self.zero.append(primitive(p))

    def vanishes(self, p):
        return not p or primitive(p) in self.zero

    def not0(self, p):
        return p and (set(p) == {()} or primitive(p) in self.non)

    def rest(self, p):
        """without the coordinates that vanish"""
        zs = {m[0][0] for q in self.zero for m in q if len(q) == 1 and len(m) == 1}
        return {m: c for m, c in p.items() if not any(a in zs for a, e in m)}


ORIGIN = [{}, {}]
UNIT1 = {(): 1}


def padd(rep, f, name, vs, R, p, strict):
    P = vs[:3]
    Q = vs[3:6] if len(vs) == 6 else vs[3:5] + [UNIT1]
    if p.vanishes(P[2]) or p.vanishes(Q[2]):
        one = p.vanishes(P[2])
        ok = same(R, Q if one else P) or p.vanishes(P[2]) and p.vanishes(Q[2]) and p.vanishes(R[2])
        rep.check(ok, "neutral:%s:%s" % (name, "first" if one else "second"), "%s: the sum with infinity is the other point" % name, where(f), text="%s: the sum of %s is not that point" % (name, "infinity and a point" if one else "a point and infinity"))
        return
    B, h, r = jadd(P, Q)
    if p.vanishes(h) and p.vanishes(r):
        rep.check(same(R, jdouble(P)) or same(R, jdouble(Q)), "neutral:%s:equal" % name, "%s: P + P is the double of P" % name, where(f), text="%s: the sum of two equal points is not their double" % name)
        return
    ok = same(R, B) or p.vanishes(h) and p.vanishes(R[2])
    rep.check(ok, "add:%s" % name, "%s: the sum of the group law" % name, where(f), text="%s: the sum of two different points is not that of the group law" % name)
    if strict:
        apart(rep, f, name, p, [([P[2]], "the first point at infinity"), ([Q[2]], "the second point at infinity"), ([h, r], "equal points")])


def apart(rep, f, name, p, cases):
    for ps, what in cases:
        ok = any(p.not0(x) for x in ps)
        if not ok and p.other:
            undecided(rep, name, "whether %s is told apart" % what)
            continue
        rep.check(ok, "neutral:%s:%s" % (name, what.replace(" ", "-")), "%s: %s told apart" % (name, what), where(f), text="%s: the formula for different finite points is also used for %s" % (name, what))


def pdouble(rep, f, name, vs, R, p, strict):
    ok = same(R, jdouble(vs)) or p.vanishes(vs[2]) and p.vanishes(R[2])
    rep.check(ok, "double:%s" % name, "%s: the double of the group law" % name, where(f), text="%s: the result is not the double of the point by the group law" % name)


def affine(R, J, p):
    """is (x, y) the point with these Jacobian coordinates"""
    for r, n, k in ((R[0], J[0], 2), (R[1], J[1], 3)):
        a, d = clear(r)
        if p.rest(add(mul(a, power(J[2], k)), mul(n, d), -1)):
            return False
    return True


def paffine(rep, f, name, vs, R, p, strict):
    if strict and p.vanishes(vs[2]):
        rep.check(R == ORIGIN, "affine:%s:infinity" % name, "%s: infinity becomes (0, 0)" % name, where(f), text="%s: the point at infinity does not become (0, 0)" % name)
        return
    rep.check(affine(R, vs, p), "affine:%s" % name, "%s: x/z^2, y/z^3" % name, where(f), text="%s: the point (x, y, z) does not become (x/z^2, y/z^3)" % name)
    if strict:
        apart(rep, f, name, p, [([vs[2]], "infinity")])


def psum(rep, f, name, vs, R, p, strict):
    x1, y1, x2, y2 = vs
    one, two = (p.vanishes(x) and p.vanishes(y) for x, y in ((x1, y1), (x2, y2)))
    h, r = add(x2, x1, -1), add(y2, y1, -1)
    if one or two:
        ok = R == ORIGIN if one and two else affine(R, (x2, y2, UNIT1) if one else (x1, y1, UNIT1), p)
        what, key = "the sum of infinity and a point is not that point", "neutral"
    elif p.vanishes(h) and p.vanishes(r):
        ok = R == ORIGIN if p.vanishes(y1) else affine(R, jdouble((x1, y1, UNIT1)), p) or affine(R, jdouble((x2, y2, UNIT1)), p)
        what, key = "the sum of two equal points is not their double", "equal"
    elif p.vanishes(h):
        ok = R == ORIGIN
        what, key = "the sum of two opposite points is not infinity", "opposite"
    else:
        ok = affine(R, jadd((x1, y1, UNIT1), (x2, y2, UNIT1))[0], p)
        what, key = "the sum of two different points is not that of the group law", "add"
        if ok:
            apart(rep, f, name, p, [([x1, y1], "the first point at infinity"), ([x2, y2], "the second point at infinity"), ([h], "opposite points"), ([h, r], "equal points")])
    rep.check(ok, "%s:%s" % (key, name), "%s: %s" % (name, key), where(f), text="%s: %s" % (name, what))


def ptwice(rep, f, name, vs, R, p, strict):
    x, y = vs
    if p.vanishes(y):
        ok = R == ORIGIN
    else:
        ok = affine(R, jdouble((x, y, UNIT1)), p)
    rep.check(ok, "double:%s" % name, "%s: the double of the group law" % name, where(f), text="%s: the result is not the double of the point by the group law" % name)
    if not p.vanishes(y):
        apart(rep, f, name, p, [([y], "points that are their own opposite")])


def equation(rep, I, s, v, vs, f, name, p):
    x, y = vs
    v = I.freeze(s, v)
    if v is not TRUE and v is not FALSE:
        undecided(rep, name, "the answer has an unknown form: %s" % show(v)[:120])
        return
    base = add(add(power(y, 2), power(x, 3), -1), x, 3)
    own = {a for q in vs for m in q for a, e in m}

    def curve(q):
        """y^2 - x^3 + 3x - b for some constant b, or its negative"""
        for k in (1, -1):
            d = add(base, q, -k)
            if len(d) == 1:
                (m, c), = d.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] not in own and m[0][0] not in INV:
                    return True
        return False
    if v is TRUE:
        ok = any(curve(q) for q in p.zero)
        if not ok and p.other:
            undecided(rep, name, "when the answer is yes")
            return
        rep.check(ok, "equation:%s:yes" % name, "%s: yes if the equation holds" % name, where(f), text="%s: a point is accepted without y^2 = x^3 - 3x + b modulo the field" % name)
    else:
        ok = any(curve(q) for q in p.non)
        if not ok and p.other:
            undecided(rep, name, "when the answer is no")
            return
        rep.check(ok, "equation:%s:no" % name, "%s: no if the equation does not hold" % name, where(f), text="%s: a point is rejected for another reason than y^2 = x^3 - 3x + b modulo the field" % name)
