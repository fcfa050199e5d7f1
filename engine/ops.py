"""Scalar operations of the abstract domain."""
from .terms import *
from .num import note_atom, UNSIGNED


def lin(v):
    """view a scalar as an affine expression"""
    if isinstance(v, Lin):
        return v
    if v is TRUE:
        return ONE
    if v is FALSE:
        return ZERO
    if isinstance(v, T):
        a = T("b2i", v)
        if a not in UNSIGNED:
            UNSIGNED[a] = 1
        return Lin.atom(a)
    if isinstance(v, Sym):
        return Lin.atom(v.t)
    return Lin.atom(T("val", v))


def atom(op, bits, *args):
    t = T(op, *args)
    note_atom(t, bits)
    return Lin.atom(t)


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if isinstance(b, T) and b.op == "not":
        return b.args[0]
    if isinstance(b, T) and b.op == "ge0":
        return ge0(-b.args[0] - 1)
    return T("not", b)


def _g(e):
    from math import gcd
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
    return g


def ge0(e):
    if e.const is not None:
        return TRUE if e.c >= 0 else FALSE
    g = _g(e)
    if g > 1:
        e = Lin(e.c // g, tuple((a, k // g) for a, k in e.t))
    return T("ge0", e)


def eq0(e):
    if e.const is not None:
        return TRUE if e.c == 0 else FALSE
    g = _g(e)
    if g > 1:
        if e.c % g:
            return FALSE
        e = Lin(e.c // g, tuple((a, k // g) for a, k in e.t))
    if e.t[0][1] < 0:
        e = -e
    return T("eq0", e)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    s = set()
    for x in (a, b):
        s.update(x.args if isinstance(x, T) and x.op == "and" else (x,))
    return T("and", *sorted(s, key=lambda x: x.id))


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    s = set()
    for x in (a, b):
        s.update(x.args if isinstance(x, T) and x.op == "or" else (x,))
    return T("or", *sorted(s, key=lambda x: x.id))


def beq(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    return T("beq", *sorted((a, b), key=lambda x: x.id))


def xor(a, b, bits):
    """n-ary xor, pairs cancel"""
    c = 0
    cnt = {}
    for x in (a, b):
        if x.const is not None:
            c ^= x.c
            continue
        t = x.t[0][0] if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 else None
        parts = t.args if t is not None and t.op == "^" else (x,)
        for p in parts:
            if p.const is not None:
                c ^= p.c
            else:
                cnt[p] = cnt.get(p, 0) ^ 1
    ps = sorted((p for p, k in cnt.items() if k), key=lambda x: x.id)
    if not ps:
        return Lin(c)
    if c:
        ps.append(Lin(c))
    if len(ps) == 1:
        return ps[0]
    return atom("^", bits, *ps)


def bitor(a, b, bits):
    if a.const is not None and b.const is not None:
        return Lin(a.c | b.c)
    if a.const == 0:
        return b
    if b.const == 0 or a is b:
        return a
    ps = set()
    c = 0
    for x in (a, b):
        t = x.t[0][0] if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 else None
        for p in (t.args if t is not None and t.op == "|" else (x,)):
            if p.const is not None:
                c |= p.c
            else:
                ps.add(p)
    l = sorted(ps, key=lambda x: x.id)
    if c:
        l.append(Lin(c))
    return atom("|", bits, *l)


def bitand(st, a, b, bits):
    if a.const is not None and b.const is not None:
        return Lin(a.c & b.c)
    if a.const is not None:
        a, b = b, a
    if b.const is not None:
        m = b.c
        full = (1 << bits) - 1
        if m == 0:
            return ZERO
        if m == full:
            return a
        if m & (m + 1) == 0:
            return rem(st, a, m + 1)
        im = full & ~m
        if im & (im + 1) == 0 and a.const is None:
            return a - rem(st, a, im + 1)
        t = T("&", a, b)
        if t not in UNSIGNED:
            UNSIGNED[t] = m
        return Lin.atom(t)
    if a is b:
        return a
    return atom("&", bits, *sorted((a, b), key=lambda x: x.id))


def rebuild(v, args):
    """re-normalise a bit operation after substitution"""
    from .num import UNSIGNED as U
    bits = None
    m = U.get(v)
    if m is not None:
        bits = m.bit_length()
    r = args[0]
    for x in args[1:]:
        r = xor(r, x, bits) if v.op == "^" else bitor(r, x, bits)
    return r


def divc(st, x, c):
    """floor(x / c) for a positive constant c, x >= 0"""
    if x.const is not None:
        return Lin(x.c // c)
    if c == 1:
        return x
    # split off multiples of c
    hi = Lin.make(x.c // c, {a: k // c for a, k in x.t if k % c == 0})
    lo = Lin.make(x.c % c, {a: k for a, k in x.t if k % c})
    if not lo.t:
        return hi        # constant remainder < c
    f = st.facts
    if f.entails_ge(lo) and f.entails_ge(Lin(c - 1) - lo):
        return hi
    if not f.entails_ge(lo):
        lo, hi = x, ZERO
    q = T("div", lo, c)
    if q not in UNSIGNED:
        note_atom(q)
    ql = Lin.atom(q)
    f.add_ge(lo - ql.scale(c))
    f.add_ge(ql.scale(c) + (c - 1) - lo)
    return hi + ql


def rem(st, x, c):
    if x.const is not None:
        return Lin(x.c % c)
    if c == 1:
        return ZERO
    if st.facts.entails_ge(x) and st.facts.entails_ge(Lin(c - 1) - x):
        return x
    if len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0].op == "wSub" and c & (c - 1) == 0:
        return frem(st, x.t[0][0].args[0] - x.t[0][0].args[1] + x.c, c)      # c divides the word size
    return x - divc(st, x, c).scale(c)


def frem(st, x, c):
    """x mod c for x of any sign"""
    f = st.facts
    x = Lin.make(x.c % c, {a: k for a, k in x.t if k % c})
    if not x.t or f.entails_ge(x) and f.entails_ge(Lin(c - 1) - x):
        return x
    q = Lin.atom(T("fdiv", x, c))
    r = x - q.scale(c)
    f.add_ge(r)
    f.add_ge(Lin(c - 1) - r)
    return r


def mults(st, b):
    return st.meta.get(("mult", b), ())


def add_mult(st, b, e):
    """e is a multiple of b (b symbolic): multiples closer than b to each other are equal"""
    f = st.facts
    cur = mults(st, b)
    if e in cur:
        return
    near(f, b, e, cur)
    st.meta[("mult", b)] = cur + (e,)


def near(f, b, e, others):
    for m in others + (ZERO, b):
        d = m - e
        if f.entails_eq(d):
            continue
        if f.entails_ge(b - 1 - d) and f.entails_ge(b - 1 + d):
            f.add_eq(d)


def rems(st, x, b):
    """x mod b, b symbolic and >= 1"""
    f = st.facts
    for m in (ZERO,) + mults(st, b):
        r = x - m
        if f.entails_ge(r) and f.entails_ge(b - 1 - r):
            return r
    for m in mults(st, b):
        if f.entails_eq(x - m):
            return ZERO
    t = T("rem", x, b)
    note_atom(t)
    r = Lin.atom(t)
    f.add_ge(b - 1 - r)
    f.add_ge(x - r)
    add_mult(st, b, x - r)
    return r


def divs(st, x, b):
    t = T("divs", x, b)
    note_atom(t)
    r = rems(st, x, b)
    st.facts.add_ge(x - r - Lin.atom(t)) if st.facts.entails_ge(b - 1) else None
    return Lin.atom(t)


def quotient(a, b):
    """a * b is (x div b) * b: the operands of the division"""
    for x, y in ((a, b), (b, a)):
        if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0].op == "divs" and x.t[0][0].args[1] == y:
            return x.t[0][0].args
    return None
