"""Substitution of terms inside abstract values."""
from .terms import *


def subst(v, m, vs=None, memo=None):
    """m: {T atom -> Lin or T}; vs: {T source -> ('copy', T, off Lin) | ('fill', v) | ('map', lam)}"""
    if memo is None:
        memo = {}
    return _s(v, m, vs or {}, memo)


def _s(v, m, vs, memo):
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(_s(x, m, vs, memo) for x in v)
    if isinstance(v, FnV):
        return v
    k = v
    r = memo.get(k)
    if r is not None:
        return r
    if isinstance(v, T):
        if v in m:
            r = m[v]
        elif v.op == "elem" and v.args[0] in vs:
            r = velem(vs[v.args[0]], _s(v.args[1], m, vs, memo))
        elif v.op == "elem":
            a = _s(v.args[0], m, vs, memo)
            i = _s(v.args[1], m, vs, memo)
            if isinstance(a, T) and a.op == "map":
                r = inst(a.args[0], i)
            else:
                r = T("elem", a, i)
        elif v.op in ("^", "|", "&x"):
            from .ops import rebuild
            r = rebuild(v, tuple(_s(x, m, vs, memo) for x in v.args))
        elif v.args:
            na = tuple(_s(x, m, vs, memo) for x in v.args)
            r = v if na == v.args else T(v.op, *na)
            if r is not v:
                from .num import UNSIGNED
                if v in UNSIGNED and r not in UNSIGNED:
                    UNSIGNED[r] = UNSIGNED[v]
        else:
            r = v
    elif isinstance(v, Lin):
        r = Lin(v.c)
        same = True
        for a, k2 in v.t:
            n = _s(a, m, vs, memo)
            if n is not a:
                same = False
            if isinstance(n, Sym):
                n = n.t
            if isinstance(n, T):
                from .num import UNSIGNED
                if a in UNSIGNED and n not in UNSIGNED:
                    UNSIGNED[n] = UNSIGNED[a]
                n = Lin.atom(n)
            elif not isinstance(n, Lin):
                n = Lin.atom(T("val", n))
            r = r + n.scale(k2)
        if same:
            r = v
    elif isinstance(v, Seq):
        out = []
        for q in v.p:
            if q[0] == "src":
                off = _s(q[2], m, vs, memo)
                n = _s(q[3], m, vs, memo)
                if q[1] in vs:
                    out.append(vpiece(vs[q[1]], off, n))
                else:
                    out.append(("src", _s(q[1], m, vs, memo), off, n))
            elif q[0] == "lit":
                out.append(("lit", tuple(_s(x, m, vs, memo) for x in q[1])))
            else:
                out.append(("fill", _s(q[1], m, vs, memo), _s(q[2], m, vs, memo)))
        r = Seq(out)
    elif isinstance(v, Agg):
        r = Agg(v.kind, v.var, tuple(_s(x, m, vs, memo) for x in v.f))
    elif isinstance(v, Ref):
        r = Ref(_obj(v.obj, m, vs, memo), tuple(_s(e, m, vs, memo) if isinstance(e, tuple) else e for e in v.path))
    elif isinstance(v, Sym):
        t = _s(v.t, m, vs, memo)
        r = Sym(t, v.ty) if isinstance(t, T) else t
    else:
        r = v
    memo[k] = r
    return r


def _obj(o, m, vs, memo):
    if o[0] == "D":
        t = _s(o[1], m, vs, memo)
        return ("D", t) if isinstance(t, T) else o
    if o[0] == "K":
        return ("K", _s(o[1], m, vs, memo))
    return o


def jdepth(v):
    d = 0
    for x in walk(v):
        if isinstance(x, T) and x.op == "J":
            d = max(d, x.args[0])
    return d


def jatom(depth):
    return T("J", depth)


def inst(lam, idx):
    """instantiate the outermost placeholder of a map body"""
    d = lam.args[0] if isinstance(lam, T) and lam.op == "lam" else None
    body = lam.args[1]
    return subst(body, {T("J", d): idx})


def mklam(v, at):
    """abstract atom `at` in v"""
    d = jdepth(v) + 1
    return T("lam", d, subst(v, {at: Lin.atom(T("J", d))}))


def velem(k, idx):
    if k[0] == "copy":
        return T("elem", k[1], k[2] + idx)
    if k[0] == "fill":
        return k[1]
    return inst(k[1], idx)


def vpiece(k, off, n):
    if k[0] == "copy":
        return ("src", k[1], k[2] + off, n)
    if k[0] == "fill":
        return ("fill", k[1], n)
    return ("src", T("map", k[1]), off, n)


def contains(v, pred):
    for x in walk(v):
        if isinstance(x, T) and pred(x):
            return True
    return False
