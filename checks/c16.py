"""C16: facades and wrappers perform the same operation of the selected algorithm with the same arguments."""
import re
from .common import *

FAMILY = {"Digest": "d", "DigestXOF": "d", "Cipher": "c", "EncryptStream": "s", "DecryptStream": "s"}


class Deleg(Contracts):
    """methods of other local types become events"""
    def __init__(self, prog, own):
        self.prog, self.own = prog, own

    def call(self, I, fr, st, c, fn, args, rty, span):
        r = Contracts.call(self, I, fr, st, c, fn, args, rty, span)
        if r is not None or fn is None:
            return r
        a = self_adt(self.prog, fn)
        if a is None or a["d"] in self.own or not a["local"] or fn.get("tname") in ("From", "Into", "Display", "Debug", "Drop"):
            return None
        if a["n"].split("::")[0] in ("crypto_err",) or a["n"].endswith("Pond"):
            return None
        n = self.serial(I)
        fz = tuple(I.freeze(st, x) for x in args)
        t = T("ret", a["d"], fn["name"], n)
        for i, x in enumerate(args):
            I.havoc_mut(st, x, fn["in"][i], T("mut", t, i))
        st.event(Ev("m", (a["d"], fn["name"], fn.get("tname")), (t,) + tuple(args), fz, span, fr.stack))
        return [(st, I.value_of(st, t, rty))]


def ret_of(ev, v):
    """is v the value this event returned (whole, or rebuilt from its parts)?"""
    return v is UNIT or part_of(v, ev.args[0], ())


def made_by(ev, v):
    """v consists of what this call returned, unwrapped or not"""
    t = ev.args[0]
    return any(part_of(v, w, ()) for w in (t, T("fld", t, 1, 0), T("fld", t, 0, 0)))


def part_of(v, t, path):
    """v is the component of t at path"""
    w = t
    for q in path:
        w = T("fld", w, *q)
    if v is w or (isinstance(v, Sym) and v.t is w):
        return True
    if isinstance(v, Lin):
        return v.c == 0 and v.t == ((w, 1),)
    if isinstance(v, Seq):
        return len(v.p) == 1 and v.p[0][0] == "src" and v.p[0][1] is w and v.p[0][2] is ZERO
    if isinstance(v, Ref):
        return v.obj == ("D", w) and not v.path
    if isinstance(v, Agg) and v.kind not in ("closure",):
        return all(part_of(x, t, path + ((v.var, i),)) for i, x in enumerate(v.f))
    return False


def norm(s):
    s = s.upper().replace("_", "")
    return re.sub(r"T(?=\d)", "", s)


def facade_enum(prog, a):
    """struct with a field of local enum type all of whose variants carry one local type"""
    if a["kind"] != "struct":
        return None
    for i, f in enumerate(a["vars"][0]["f"]):
        t = prog.tys[f["t"]]
        if t["k"] != "adt":
            continue
        e = prog.adts.get(t["d"])
        if e is None or not e["local"] or e["kind"] != "enum":
            continue
        ps = []
        for v in e["vars"]:
            if len(v["f"]) != 1:
                break
            pt = prog.tys[v["f"][0]["t"]]
            if pt["k"] != "adt" or pt["d"] not in prog.adts or not prog.adts[pt["d"]]["local"]:
                break
            ps.append(prog.adts[pt["d"]])
        else:
            return i, e, ps
    return None


def check(progs, rep):
    rep.rule("dispatch", "for every variant, a method of the facade performs exactly one call: the method of the same name on that variant's object, with the caller's arguments, and returns its result")
    rep.rule("selector", "a constructor named after an algorithm stores an object built by that algorithm's own constructor, in the variant of that type")
    rep.rule("wrapper", "a wrapper around one object of the same trait family forwards each trait method to the method of the same name with the same data")
    prog = progs["A"]
    nf = 0
    for a in prog.adts.values():
        if not a["local"]:
            continue
        fe = facade_enum(prog, a)
        if fe:
            nf += 1
            check_facade(prog, rep, a, *fe)
    rep.check(nf >= 2, "facades", "run-time selected algorithm types found: %d (SHA, SHA3)" % nf)
    check_wrappers(prog, rep)


def check_facade(prog, rep, a, fi, enum, payloads):
    own = {a["d"], enum["d"]}
    short = a["n"].split("::")[-1]
    for fn in prog.methods(a):
        if fn.get("tname") in ("Clone", "Drop", "Debug", "Display"):
            continue
        if not has_self_ref(prog, fn):
            # constructors
            if fn["out"] is None or enum["d"] == "":
                continue
            check_ctor(prog, rep, a, enum, payloads, fn)
            continue
        if fn.get("pub") is False and not fn.get("trait"):
            continue
        r = attempt(rep, prog, fn, Deleg(prog, own))
        if r is None:
            continue
        seen = set()
        for s, v in r.outs:
            ks = [(t, k) for t, k in s.vr.items() if k < len(payloads)]
            evs = [e for e in s.events() if e.kind == "m"]
            k = None
            for t, kk in ks:
                if t.op == "fld" and isinstance(t.args[2], int) and t.args[2] == fi:
                    k = kk
            key = "%s::%s" % (short, fn["name"])
            if k is None:
                rep.violation("dispatch:%s:novariant" % key, "a path of %s does not look at the selected variant" % key, where(fn))
                continue
            seen.add(k)
            vn = enum["vars"][k]["n"]
            key = "%s:%s" % (key, vn)
            want = payloads[k]
            good = len(evs) == 1 and evs[0].name[0] == want["d"] and evs[0].name[1] == fn["name"]
            if not good:
                rep.violation("dispatch:" + key, "%s with %s selected performs %s instead of %s::%s" % (fn["n"], vn, [e.name[0].split("::")[-1] + "::" + e.name[1] for e in evs], want["n"], fn["name"]), where(fn))
                continue
            e = evs[0]
            same = all(x is y for x, y in zip(e.args[2:], r.args[1:])) and len(e.args) - 2 == len(r.args) - 1
            if not same:
                same = all(eqv(r, s, x, y, f) for x, y, f in zip(e.args[2:], r.args[1:], e.x[1:]))
            rep.check(same, "dispatch-args:" + key, "%s with %s passes the caller's arguments to %s" % (fn["n"], vn, want["n"]), where(fn))
            rep.check(ret_of(e, v), "dispatch-result:" + key, "%s with %s returns the result of %s::%s" % (fn["n"], vn, want["n"], fn["name"]), where(fn))
        miss = [v["n"] for i, v in enumerate(enum["vars"]) if i not in seen]
        rep.check(not miss, "dispatch-total:%s::%s" % (short, fn["name"]), "%s handles every variant" % fn["n"], where(fn), "%s never returns for %s" % (fn["n"], miss))


def eqv(r, s, x, y, frozen):
    """argument passed on denotes the same data as the parameter at entry"""
    I = r.I
    if isinstance(x, Ref) and isinstance(y, Ref):
        return I.seqref(s, x).obj == I.seqref(s, y).obj and not any(isinstance(q, tuple) and q[0] in ("rng", "ix") for q in x.path) or frozen is I.freeze(r.entry, y)
    return x is y


def check_ctor(prog, rep, a, enum, payloads, fn):
    out = prog.tys[fn["out"]]
    isopt = out["k"] == "adt" and out["n"].endswith("Option")
    if not (out["k"] == "adt" and (out["d"] == a["d"] or isopt)):
        return
    short = a["n"].split("::")[-1]
    r = attempt(rep, prog, fn, Deleg(prog, {a["d"], enum["d"]}))
    if r is None:
        return
    cand = [i for i, v in enumerate(enum["vars"]) if norm(v["n"]) == norm(fn["name"]) or norm(payloads[i]["n"].split("::")[-1]) == norm(fn["name"])]
    key = "%s::%s" % (short, fn["name"])
    if len(cand) != 1:
        rep.notes.setdefault("unnamed_constructors", []).append(fn["n"])
        return
    want = cand[0]
    got = False
    for s, v in r.outs:
        if isopt:
            if adt_last(v) != "Option" or v.var == 0:
                continue
            v = v.f[0]
        evs = [e for e in s.events() if e.kind == "m"]
        inner = [x for x in (v.f if isinstance(v, Agg) else ()) if isinstance(x, Agg) and isinstance(x.kind, tuple) and x.kind[1] == enum["d"]]
        ok = len(inner) == 1 and inner[0].var == want and any(e.name[0] == payloads[want]["d"] and made_by(e, inner[0].f[0]) for e in evs) and len(evs) == 1
        args_ok = ok and all(x is y for x, y in zip(evs[0].args[1:], r.args)) and len(evs[0].args) - 1 == len(r.args)
        got = True
        rep.check(ok and args_ok, "selector:" + key, "%s selects %s built by its own constructor" % (fn["n"], enum["vars"][want]["n"]), where(fn),
                  "%s stores %s from %s" % (fn["n"], [enum["vars"][i.var]["n"] for i in inner], [e.name[0].split("::")[-1] + "::" + e.name[1] for e in evs]))
    if not got:
        rep.violation("selector:" + key, "%s never produces an object" % fn["n"], where(fn))


def check_wrappers(prog, rep):
    impl = {}
    for i in prog.impls:
        t = prog.tys[i["self"]]
        if t["k"] == "adt" and i.get("tname") in FAMILY:
            impl.setdefault(t["d"], set()).add(i["tname"])
    n = 0
    for a in prog.adts.values():
        if not a["local"] or a["kind"] != "struct" or a["d"] not in impl:
            continue
        fs = []
        for i, f in enumerate(a["vars"][0]["f"]):
            t = prog.tys[f["t"]]
            if t["k"] == "adt" and t["d"] in impl:
                fs.append((i, t["d"]))
        if len(fs) != 1:
            continue
        fi, fd = fs[0]
        for fn in prog.methods(a):
            tn = fn.get("tname")
            if tn not in FAMILY:
                continue
            fams = {FAMILY[x] for x in impl[fd]}
            if FAMILY[tn] not in fams or fn["name"] in ("reset", "set_digest_len"):
                continue
            pol = Deleg(prog, {a["d"]})
            r = attempt(rep, prog, fn, pol)
            if r is None:
                continue
            n += 1
            key = "%s::%s" % (a["n"].split("::")[-1], fn["name"])
            for s, v in r.outs:
                evs = [e for e in s.events() if e.kind == "m" and e.name[0] == fd]
                tr = [e for e in evs if FAMILY.get(e.name[2]) == FAMILY[tn]]
                if fn["name"] in ("block_size", "bits_len"):
                    bad = [e for e in tr if e.name[1] != fn["name"]]
                    rep.check(not bad, "wrapper:" + key, "%s consults only %s of the wrapped object" % (fn["n"], fn["name"]), where(fn))
                    continue
                ok = len(tr) == 1 and tr[0].name[1] == fn["name"]
                if rep.check(ok, "wrapper:" + key, "%s forwards to %s of the wrapped object exactly once" % (fn["n"], fn["name"]), where(fn),
                             "%s calls %s on the wrapped object" % (fn["n"], [e.name[1] for e in tr])):
                    e = tr[0]
                    same = len(e.args) - 2 == len(r.args) - 1 and all(x is y or eqv(r, s, x, y, f) for x, y, f in zip(e.args[2:], r.args[1:], e.x[1:]))
                    rep.check(same, "wrapper-args:" + key, "%s passes its arguments on unchanged" % fn["n"], where(fn))
                    if prog.tys[fn["out"]]["k"] != "tuple":
                        rep.check(ret_of(e, v), "wrapper-result:" + key, "%s returns the wrapped object's result" % fn["n"], where(fn))
    rep.check(n >= 10, "wrappers", "wrapper methods analysed: %d" % n)
