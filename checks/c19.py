"""C19: Clone copies every state-carrying field."""
from .common import *

DEEP = ("deep_clone", "clone", "to_owned", "to_vec")


def canon(v, memo):
    """value with copies of big integers identified with the originals"""
    if v in memo:
        return memo[v]
    r = v
    if isinstance(v, Sym):
        t = canon_t(v.t, memo)
        r = t if isinstance(t, Sym) else Sym(t, v.ty) if t is not v.t else v
    elif isinstance(v, Agg):
        r = Agg(v.kind, v.var, tuple(canon(x, memo) for x in v.f))
    elif isinstance(v, Seq):
        ps = []
        for p in v.p:
            if p[0] == "src":
                ps.append(("src", canon_t(p[1], memo), p[2], p[3]))
            elif p[0] == "lit":
                ps.append(("lit", tuple(canon(x, memo) for x in p[1])))
            else:
                ps.append(p)
        r = Seq(tuple(ps))
    elif isinstance(v, T):
        r = canon_t(v, memo)
    memo[v] = r
    return r


def canon_t(t, memo):
    if t.op == "call" and t.args[0].split("::")[-1] in DEEP and len(t.args) == 2:
        x = t.args[1]
        while isinstance(x, T) and x.op in ("&", "ref"):
            x = x.args[0]
        x = canon(x, memo) if not isinstance(x, T) else canon_t(x, memo)
        return x.t if isinstance(x, Sym) else x
    if t.op == "map" and len(t.args) >= 1:
        # a copy element by element
        m = canon_map(t, memo)
        if m is not None:
            return m
    return t


def canon_map(t, memo):
    lam = t.args[0]
    if isinstance(lam, T) and lam.op == "lam":
        b = lam.args[-1]
        b = canon(b, memo) if not isinstance(b, T) else canon_t(b, memo)
        b = b.t if isinstance(b, Sym) else b
        if isinstance(b, T) and b.op == "elem" and isinstance(b.args[1], (T, Lin)):
            ix = b.args[1]
            if isinstance(ix, Lin):
                if ix.c or len(ix.t) != 1 or ix.t[0][1] != 1:
                    return None
                ix = ix.t[0][0]
            if ix.op == "J":
                return b.args[0]
    return None


def same(I, a, b, memo):
    return canon(a, memo) is canon(b, memo)


def check(progs, rep):
    rep.rule("fidelity", "every field of the clone equals the field of the original at the time of the call; only a field whose content never influences any function (scratch space) may differ")
    rep.rule("original", "cloning leaves the original unchanged")
    rep.rule("derive", "a derived Clone copies field by field; every field type is itself covered by these rules, a value type, or owns its storage")
    for cfg, prog in both(progs):
        n = 0
        for fn in local_fns(prog):
            if fn.get("tname") != "Clone" or fn["name"] != "clone":
                continue
            a = self_adt(prog, fn)
            if a is None:
                continue
            n += 1
            bad = shared_fields(prog, a)
            rep.check(not bad, "shared:" + a["n"], "no field of %s shares storage between clones" % a["n"], where(fn), "fields %s of %s share storage between clones" % (bad, a["n"]))
            if fn.get("derived"):
                rep.hold("%s: derived, field by field" % a["n"])
                continue
            r = attempt(rep, prog, fn, Contracts())
            if r is None:
                continue
            one(rep, prog, a, fn, r)
        rep.check(n >= 40, "clones", "Clone implementations analysed: %d" % n)


def one(rep, prog, a, fn, r):
    I = r.I
    memo = {}
    e = I.freeze(r.entry, I.load(r.entry, r.args[0], I.refty(r.args[0])))
    for s, v in r.outs:
        z = I.freeze(s, v)
        after = I.freeze(s, I.load(s, r.args[0], I.refty(r.args[0])))
        rep.check(after is e or same(I, after, e, memo), "original:" + a["n"], "cloning %s leaves the original unchanged" % a["n"], where(fn))
        if not isinstance(z, Agg) or not isinstance(e, Agg):
            rep.check(same(I, z, e, memo), "clone:" + a["n"], "the clone of %s equals the original" % a["n"], where(fn))
            continue
        if z.var != e.var or len(z.f) != len(e.f):
            rep.violation("clone:%s" % a["n"], "clone builds another variant", where(fn))
            continue
        for i in range(len(z.f)):
            nm = fieldname(a, i, z.var)
            if same(I, z.f[i], e.f[i], memo):
                rep.hold("%s.%s is copied" % (a["n"], nm))
            elif scratch(rep, prog, a, i):
                rep.hold("%s.%s is scratch space: no function reads what an earlier call left in it" % (a["n"], nm))
            else:
                rep.violation("clone:%s:field%d" % (a["n"], i), "the clone's field %s is %s, not the original's value, and other functions depend on it" % (nm, show(z.f[i])[:160]), where(fn))


SHARED = ("std::rc::Rc", "std::sync::Arc", "std::rc::Weak")


def shared_fields(prog, a):
    r = []
    for v in a["vars"]:
        for f in v["f"]:
            t = prog.tys[f["t"]]
            if t["k"] in ("ptr",) or (t["k"] == "ref" and t["m"]) or (t["k"] == "adt" and t["n"].split("<")[0] in SHARED):
                r.append(f["n"])
    return r
