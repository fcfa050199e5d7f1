"""C02: reset puts an object back into the state its constructor produced."""
from .common import *
from engine import fielduse
from engine.state import seq_get, seq_put

import os
LIM = int(os.environ.get("VERIF_SHOW", "120"))
SKIP_TRAITS = ("Clone", "Drop", "Debug", "Display", "Default")


class P(Cored):
    """cores opaque; a sponge that clears its permutation state before using it does not depend on that state"""
    def __init__(self, prog):
        Cored.__init__(self, prog)
        if not hasattr(prog, "_reinit"):
            prog._reinit = {d for d in self.cores if reinit(prog, prog.fns[d])}
            prog._rounds = rounds(prog)
        self.re = prog._reinit

    def inline(self, I, fn):
        return fn["d"] not in I.p._rounds and Cored.inline(self, I, fn)

    def call(self, I, fr, st, c, fn, args, rty, span):
        r = Cored.call(self, I, fr, st, c, fn, args, rty, span)
        if r is not None or fn is None or fn["d"] not in self.re:
            return r
        keep = [I.load(st, a, I.refty(a)) if isinstance(a, Ref) else None for a in args]
        for a, v in zip(args, keep):
            if v is not None:
                I.store(st, a, blank(I.p, v))
        return I.opaque(fr, st, fn["n"], args, rty, fn["in"], span, fn)


def rounds(prog):
    """private functions that only drive a mixing core over their receiver"""
    uses = set(cores(prog))
    grew = True
    while grew:
        grew = False
        for f in local_fns(prog):
            if f["d"] in uses:
                continue
            for b in f["blocks"]:
                t = b["t"]
                if t[0] == "call" and "fn" in t[1] and (t[1]["fn"].get("r") or t[1]["fn"])["d"] in uses:
                    uses.add(f["d"])
                    grew = True
                    break
    r = set()
    for d in uses:
        f = prog.fns.get(d)
        if f is None or f.get("pub") or f.get("trait") or not has_self_ref(prog, f):
            continue
        if all(prog.tys[t]["k"] in ("int", "uint", "bool") for t in f["in"][1:]):
            r.add(d)
    return r


def blank(prog, v):
    """object with the permutation state replaced by a fixed value"""
    if isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "adt":
        a = prog.adts.get(v.kind[1])
        if a is not None and a["kind"] == "struct":
            hot = any(holds_big(prog, f["t"]) == 1 for f in a["vars"][0]["f"])
            fs = []
            for f, x in zip(a["vars"][0]["f"], v.f):
                if holds_big(prog, f["t"]) == 0:
                    fs.append(Seq((("src", T("cleared"), ZERO, x.len),)) if isinstance(x, Seq) else x)
                elif hot and prog.tys[f["t"]]["k"] == "bool":
                    fs.append(FALSE)
                else:
                    fs.append(blank(prog, x))
            return Agg(v.kind, v.var, tuple(fs))
    return v


def holds_big(prog, ti, depth=0):
    """0: a large array itself, 1: a struct directly holding one, None otherwise"""
    if big_array(prog, ti):
        return 0
    t = prog.tys[ti]
    if t["k"] == "adt" and t["d"] in prog.adts and prog.adts[t["d"]]["local"] and depth < 1:
        a = prog.adts[t["d"]]
        if a["kind"] == "struct" and any(big_array(prog, f["t"]) for f in a["vars"][0]["f"]):
            return 1
    return None


def big_adts(prog):
    return {a["d"] for a in prog.adts.values() if a["local"] and a["kind"] == "struct" and any(big_array(prog, f["t"]) for f in a["vars"][0]["f"])}


def filler(prog, fn):
    """sets its whole receiver to constants"""
    if len(fn["in"]) != 1 or not has_self_ref(prog, fn) or not prog.tys[fn["in"][0]].get("m"):
        return False
    try:
        r = Run(prog, fn, Contracts())
    except Exception:
        return False
    for s, _ in r.outs:
        z = r.I.freeze(s, r.self_after(s))
        if any(isinstance(x, T) and x.op in ("P", "*") for x in walk(z)):
            return False
    return bool(r.outs)


def reinit(prog, fn):
    """every use of the permutation state in fn comes after a call that clears it"""
    bigs = big_adts(prog)
    fill = {f["d"] for f in local_fns(prog) if f.get("self") is not None and prog.tys[f["self"]].get("d") in bigs and filler(prog, f)}
    fills, uses = set(), set()
    for i, b in enumerate(fn["blocks"]):
        t = b["t"]
        if t[0] != "call" or "fn" not in t[1]:
            continue
        c = t[1]["fn"]
        d = (c.get("r") or c)["d"]
        if d in fill:
            fills.add(i)
            continue
        g = prog.fns.get(d)
        if g is not None and any(x in fielduse.use(prog, g) for x in bigs):
            uses.add(i)
        for a in t[2]:
            ty = prog.tys[fn["locals"][a["p"][0]][0]] if isinstance(a, dict) and "p" in a and len(a["p"]) == 1 else None
            if ty is not None and ty["k"] == "closure":
                h = prog.fns.get(ty["d"])
                if h is not None and any(x in fielduse.use(prog, h) for x in bigs):
                    uses.add(i)
    if not fills or not uses:
        return False
    seen, todo = set(), [0]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in uses:
            return False
        if n in fills:
            continue
        todo.extend(fn["succ"][n])
    return True


def ops_of(prog, adt):
    for fn in local_fns(prog):
        a = self_adt(prog, fn)
        if a is None or a["d"] != adt["d"] or not has_self_ref(prog, fn) or fn.get("tname") in SKIP_TRAITS:
            continue
        if fn["name"] == "reset" or fn["name"].startswith(("set_", "update_iv")):
            continue
        ot = prog.tys[fn["out"]]
        if not fn.get("pub") and not fn.get("trait"):
            continue
        yield fn


def ctors_of(prog, adt):
    for fn in local_fns(prog):
        if fn["d"] in ():
            continue
        if fn.get("tname") in SKIP_TRAITS:
            continue
        o = prog.tys[fn["out"]]
        if o["k"] == "adt" and o["n"].split("<")[0].endswith(("Result", "Option")) and o.get("a"):
            o = prog.tys[o["a"][0]]
        if o["k"] != "adt" or o["d"] != adt["d"]:
            continue
        if has_self_ref(prog, fn):
            continue
        if any(peel_refs(prog, t)[1].get("d") == adt["d"] for t in fn["in"]):
            continue                                     # a transformation of an existing object
        yield fn


def success(I, s, v):
    """the object built on this path, or None"""
    if adt_last(v) == "Result":
        return v.f[0] if v.var == 0 else None
    if adt_last(v) == "Option":
        return v.f[0] if v.var == 1 else None
    return v if isinstance(v, Agg) else None


def put(v, path, x):
    if not path:
        return x
    return Agg(v.kind, v.var, tuple(put(y, path[1:], x) if i == path[0] else y for i, y in enumerate(v.f)))


def stale(I, v, path, keep):
    t = T("stale", path)
    if isinstance(v, Seq):
        n = v.len
        if keep == "prefix":
            return v + Seq((("src", t, ZERO, I.lenatom(t)),))
        if keep == "fixed":
            return Seq((("src", t, ZERO, n),))
        return Seq((("src", t, ZERO, I.lenatom(t)),))
    if isinstance(v, Lin):
        from engine.num import note_atom
        note_atom(t)
        return Lin.atom(t)
    if isinstance(v, Sym):
        if isinstance(v.t, T) and v.t.op == "dig" or keep == "digest":
            return Sym(T("dig", "c", T("dig", "w", v.t, Seq((("src", t, ZERO, I.lenatom(t)),)))), v.ty)
        if keep == "counter":
            return Sym(T("ctr+", v.t, t), v.ty)
        return Sym(t, v.ty)
    if isinstance(v, T):
        return t
    if isinstance(v, Agg) and adt_last(v) == "Option":
        return Sym(t, keep) if isinstance(keep, int) else Agg(v.kind, v.var, v.f)
    return None


def has_stale(v, path=None):
    for x in walk(v):
        if isinstance(x, T) and x.op == "stale" and (path is None or x.args[0] == path):
            return x
    return None


def leaf_type(prog, adt, path):
    ti = None
    a = adt
    for i in path:
        ti = a["vars"][0]["f"][i]["t"]
        t = prog.tys[ti]
        while t["k"] == "adt" and (t["d"] not in prog.adts or not prog.adts[t["d"]]["local"]) and t.get("a") and t["n"].split("<")[0] == "std::cell::Cell":
            ti = t["a"][0]
            t = prog.tys[ti]
        a = prog.adts.get(t["d"]) if t["k"] == "adt" else None
        if a is None:
            break
    return ti


def state_leaves(rep, prog, adt):
    """{path: how} of the leaves some operation modifies"""
    r = {}
    for fn in ops_of(prog, adt):
        run = attempt(rep, prog, fn, P(prog))
        if run is None:
            continue
        I = run.I
        e = dict(leaves(I.load(run.entry, run.args[0], I.refty(run.args[0]))))
        for s, _ in run.outs:
            for p, v in leaves(I.load(s, run.args[0], I.refty(run.args[0]))):
                o = e.get(p)
                if o is None or v is o:
                    continue
                k = "any"
                if isinstance(o, Seq) and isinstance(v, Seq) and len(o.p) == 1 and o.p[0][0] == "src" and v.p and v.p[0][0] == "src" and v.p[0][1] is o.p[0][1] and v.p[0][2] is ZERO:
                    n = v.p[0][3]
                    if n is o.len or not mentions(n, {o.p[0][1]}) and not any(isinstance(x, T) and x.op == "len" and x.args[0] is o.p[0][1] for x in walk(n)):
                        k = "prefix"
                if p in r and r[p] != k:
                    k = "any"
                r[p] = k
    return r


def check(progs, rep):
    rep.rule("reset-equals-new", "run reset on an object as a constructor made it, with every part an operation may have changed replaced by an arbitrary value: each part afterwards equals what the constructor produced")
    rep.rule("no-influence", "a part that may differ after reset does not influence any operation started in the reset state")
    for cfg, prog in both(progs):
        n = 0
        for fn in local_fns(prog):
            if fn["name"] != "reset" or not has_self_ref(prog, fn) or len(fn["in"]) != 1:
                continue
            a = self_adt(prog, fn)
            if a is None or a["d"] in big_adts(prog) or not a.get("pub", True):
                continue
            if a["kind"] != "struct":
                continue
            if cfg != "A" and fn["d"] in progs["A"].fns and not differs(progs["A"], prog, fn["d"]):
                continue
            if facade(prog, a):
                continue
            n += 1
            one(rep, prog, a, fn)
        if cfg == "A":
            rep.check(n >= 20, "resets", "reset methods analysed: %d" % n)


def differs(pa, pb, d):
    return "aes" in d or d not in pa.fns


def facade(prog, a):
    """holds the state in an enum: decided by C16 and by the selected type"""
    for f in a["vars"][0]["f"]:
        t = prog.tys[f["t"]]
        if t["k"] == "adt" and t["d"] in prog.adts and prog.adts[t["d"]]["local"] and prog.adts[t["d"]]["kind"] == "enum":
            return True
    return False


def one(rep, prog, a, fn):
    sl = state_leaves(rep, prog, a)
    short = a["n"]
    done = False
    ctors = list(ctors_of(prog, a))
    for c in ctors:
        run = attempt(rep, prog, c, P(prog))
        if run is None:
            continue
        I = run.I
        for s, v in run.outs:
            obj = success(I, s, v)
            if not isinstance(obj, Agg):
                continue
            done = True
            compare(rep, prog, a, fn, c, I, s, obj, sl)
    if not done:
        rep.notes.setdefault("no_constructor", []).append(short)


def mkstale(I, prog, a, obj, sl):
    for p, how in sl.items():
        lv = dict(leaves(obj))
        if p not in lv:
            continue
        v = lv[p]
        ti = leaf_type(prog, a, p)
        keep = how
        t = prog.tys[ti] if ti is not None else {"k": "?"}
        if isinstance(v, Seq) and t["k"] == "array":
            keep = "fixed"
        elif isinstance(v, Sym) and t["k"] == "param":
            keep = bound(prog, a, t["n"])
        elif isinstance(v, Agg) and adt_last(v) == "Option":
            keep = ti
        x = stale(I, v, p, keep)
        if x is not None:
            obj = put(obj, p, x)
    return obj


def bound(prog, a, name):
    """what trait the type parameter has to implement, as far as it matters here"""
    for f in local_fns(prog):
        sa = self_adt(prog, f)
        if sa is not None and sa["d"] == a["d"]:
            for b in f["blocks"]:
                t = b["t"]
                if t[0] == "call" and "fn" in t[1]:
                    c = t[1]["fn"]
                    if c.get("tname") in ("Digest", "Counter") and c.get("a") and prog.tys[c["a"][0]].get("n") == name:
                        return {"Digest": "digest", "Counter": "counter"}[c["tname"]]
    return "any"


def compare(rep, prog, a, fn, ctor, I, s, obj, sl):
    st = s.copy()
    o2 = mkstale(I, prog, a, obj, sl)
    ref = I.alloc(st, o2, fn["self"])
    fr = None
    try:
        outs = I.run_fn(fn, [ref], st, {}, None)
    except Budget as e:
        rep.notes.setdefault("undecided", []).append("%s after %s: %s" % (fn["n"], ctor["n"], e))
        rep.obl += 1
        return
    fresh = {p: I.freeze(s, v) for p, v in leaves(obj)}
    for s2, _ in outs:
        after = I.load(s2, ref, I.refty(ref))
        for p, v in leaves(after):
            f = I.freeze(s2, v)
            w = fresh.get(p)
            nm = "%s.%s" % (a["n"], leafname(prog, a, p))
            key = "%s:%s" % (a["n"], ".".join(map(str, p)))
            if f is w or same_value(I, s2, f, w) or alike(I, s2, f, w):
                rep.hold("%s is as %s makes it after reset" % (nm, ctor["n"].split("::")[-1]))
                continue
            hits = set()
            if alike(I, s2, f, w, None, lambda x: pure_stale(x) and (hits.add(x if isinstance(x, T) else x.t[0][0]) or True)) and overwritten(rep, prog, a, hits):
                rep.hold("%s is as %s makes it after reset (the stale part is overwritten before it is read)" % (nm, ctor["n"].split("::")[-1]))
                continue
            why = influence(rep, prog, a, I, s2, after, p, v)
            if why is None:
                rep.hold("%s does not influence anything after reset" % nm)
            elif why == "undecided":
                rep.obl += 1
            else:
                txt = "still depends on earlier use" if has_stale(f) else "differs from a new object"
                rep.violation("reset:" + key, "after reset %s %s (%s; newly constructed: %s) and influences %s" % (nm, txt, show(f)[:LIM], show(w)[:LIM], why), where(fn))


def pure_stale(v):
    """an element of a stale array"""
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        v = v.t[0][0]
    return isinstance(v, T) and v.op == "elem" and isinstance(v.args[0], T) and v.args[0].op == "stale" and isinstance(v.args[1], Lin) and v.args[1].const is not None


class Own(Cored):
    """methods of one type kept opaque; the element under study does not reach them"""
    def __init__(self, prog, adt, path, idx):
        Cored.__init__(self, prog)
        self.adt, self.path, self.idx = adt, path, idx

    def call(self, I, fr, st, c, fn, args, rty, span):
        r = Cored.call(self, I, fr, st, c, fn, args, rty, span)
        if r is not None or fn is None:
            return r
        a = self_adt(I.p, fn)
        if a is None or a["d"] != self.adt["d"] or not has_self_ref(I.p, fn) or not args or not isinstance(args[0], Ref):
            return None
        v = I.load(st, args[0], I.refty(args[0]))
        lv = dict(leaves(v)).get(self.path) if isinstance(v, Agg) else None
        if isinstance(lv, Seq):
            I.store(st, args[0], put(v, self.path, seq_put(st, lv, Lin(self.idx), Seq((("lit", (ZERO,)),)))))
        return I.opaque(fr, st, fn["n"], args, rty, fn["in"], span, fn)


def elem_scratch(rep, prog, adt, field, idx):
    """every function that touches the array writes element idx before reading it"""
    memo = prog.__dict__.setdefault("_elemscratch", {})
    k = (adt["d"], field, idx)
    if k in memo:
        return memo[k]
    memo[k] = True
    t = T("stale", ("elem", field, idx))
    for fn in local_fns(prog):
        if not has_self_ref(prog, fn) or self_adt(prog, fn) is None or self_adt(prog, fn)["d"] != adt["d"] or fn.get("tname") in SKIP_TRAITS:
            continue
        used = {}
        for d in [fn["d"]] + [x for x in prog.fns if x.startswith(fn["d"] + "::{closure")]:
            for q, m in fielduse.direct(prog, prog.fns[d])[0].items():
                used.setdefault(q, {}).update(m)
        if field not in used.get(adt["d"], {}):
            continue
        I = Interp(prog, Own(prog, adt, (field,), idx))
        st = State()
        args = [I.param(st, "a%d" % i, ti) for i, ti in enumerate(fn["in"])]
        v = I.load(st, args[0], I.refty(args[0]))
        lv = dict(leaves(v)).get((field,))
        if not isinstance(lv, Seq) or lv.len.const is None:
            memo[k] = False
            return False
        from engine.num import note_atom
        note_atom(t)
        I.store(st, args[0], put(v, (field,), seq_put(st, lv, Lin(idx), Seq((("lit", (Lin.atom(t),)),)))))
        try:
            outs = I.run_fn(fn, args, st, {}, None)
        except Budget as e:
            rep.notes.setdefault("undecided", []).append("%s: %s" % (fn["n"], e))
            continue
        tt = tainted(I, {t})
        for s2, r in outs:
            bad = mentions(I.freeze(s2, r), tt) or ev_mentions(s2.events(), tt)
            for q, w in leaves(I.load(s2, args[0], I.refty(args[0]))):
                if q == (field,) and isinstance(w, Seq) and w.len is lv.len:
                    bad = bad or any(mentions(seq_get(s2, w, Lin(i)), tt) for i in range(lv.len.const) if i != idx)
                else:
                    bad = bad or mentions(I.freeze(s2, w), tt)
            if bad:
                if os.environ.get("VERIF_TRACE"):
                    print("scratch", fn["n"], show(I.freeze(s2, r))[:300], show(I.freeze(s2, I.load(s2, args[0], I.refty(args[0]))))[:3000])
                memo[k] = False
                return False
    return memo[k]


def overwritten(rep, prog, a, hits):
    """the stale elements are scratch"""
    for h in hits:
        path, idx = h.args[0].args[0], h.args[1].const
        owner = a
        for i in path[:-1]:
            ti = owner["vars"][0]["f"][i]["t"]
            t = prog.tys[ti]
            while t["k"] == "adt" and t["n"].split("<")[0] == "std::cell::Cell":
                t = prog.tys[t["a"][0]]
            owner = prog.adts.get(t.get("d")) if t["k"] == "adt" else None
            if owner is None:
                return False
        if not elem_scratch(rep, prog, owner, path[-1], idx):
            return False
    return bool(hits)


def same_value(I, s, f, w):
    """equal under the facts of the path"""
    if isinstance(f, Lin) and isinstance(w, Lin):
        return s.facts.entails_eq(f - w)
    if isinstance(f, Seq) and isinstance(w, Seq):
        if len(f.p) != len(w.p):
            # a prefix of the constructor's contents
            return False
        for x, y in zip(f.p, w.p):
            if x[0] != y[0]:
                return False
            if x[0] == "src":
                if x[1] is not y[1] or not (x[2] is y[2] or s.facts.entails_eq(x[2] - y[2])) or not (x[3] is y[3] or s.facts.entails_eq(x[3] - y[3])):
                    return False
            elif x[0] == "fill":
                if x[1] is not y[1] or not (x[2] is y[2] or s.facts.entails_eq(x[2] - y[2])):
                    return False
            elif x is not y and x != y:
                return False
        return True
    if isinstance(f, Sym) and isinstance(w, Sym) and isinstance(f.t, T) and f.t.op == "ctr0":
        return True
    return False


def influence(rep, prog, a, I, s, after, p, v):
    """description of what leaf p (as left by reset) influences, None if nothing"""
    x = stale(I, v, ("left",) + p, "fixed" if isinstance(v, Seq) else "digest" if isinstance(v, Sym) and isinstance(v.t, T) and v.t.op == "dig" else "any")
    if x is None:
        return "an operation"
    terms = {T("stale", ("left",) + p)}
    obj = put(after, p, x)
    for fn in ops_of(prog, a):
        run = Run.__new__(Run)
        J = Interp(prog, P(prog))
        J.dty.update(I.dty)
        st = s.copy()
        st.ev = None
        args = [J.alloc(st, obj, fn["self"])] + [J.param(st, "b%d" % i, t) for i, t in enumerate(fn["in"][1:], 1)]
        ref = args[0]
        try:
            outs = J.run_fn(fn, args, st, {}, None)
        except Budget:
            return "undecided"
        tt = tainted(J, terms)
        for s2, r in outs:
            if any(mentions(k, tt) for k in s2.b if k not in s.b) or not isinstance(v, Seq) and any(mentions(k, tt) for q in ("ge", "eq", "ne") for k in getattr(s2.facts, q) if k not in getattr(s.facts, q)):
                return "the course of " + fn["name"]
            if mentions(J.freeze(s2, r), tt) or ev_mentions([e for e in s2.events() if e.name != "reset"], tt):
                return "the result of " + fn["name"]
            for q, w in leaves(J.load(s2, ref, J.refty(ref))):
                if q != p and mentions(J.freeze(s2, w), tt):
                    return "%s after %s" % (leafname(prog, a, q), fn["name"])
            for arg in args[1:]:
                if isinstance(arg, Ref) and mentions(J.freeze(s2, J.load(s2, arg, J.refty(arg))), tt):
                    return "what %s writes" % fn["name"]
    return None
