"""C14: an error of an inner step never ends in success."""
from .common import *
from engine.models import mk, OK, ERR


def result_err(I, rty):
    """error type index if rty is Result<_, E>"""
    if rty is None:
        return None
    s = I.strip(rty)
    t = I.tys[s]
    if t["k"] == "adt" and t["n"].split("<")[0].endswith("result::Result"):
        return I.fty(s, ERR, 0)
    return None


class Modular(Contracts):
    """every call of a function of the crate is opaque; a call returning Result splits into its two outcomes"""
    def call(self, I, fr, st, c, fn, args, rty, span):
        r = Contracts.call(self, I, fr, st, c, fn, args, rty, span)
        if r is not None:
            return r
        tn = c.get("tname")
        if fn is None and tn is None:
            return None
        if fn is not None and (fn["kind"] != "fn"):
            return None
        if fn is None and not local_trait(I, c):
            return None
        if tn in ("From", "Into", "Deref", "DerefMut", "Drop", "Clone", "Fn", "FnMut", "FnOnce", "Iterator"):
            return None
        et = result_err(I, rty)
        if fn is not None and et is None and len(fn["blocks"]) <= 8 and tn is None:
            return None                      # accessors
        if fn is not None and helper(I.p, fn):
            return None
        I.nser += 1
        t = T("ret", c["n"], I.nser)
        for i, x in enumerate(args):
            if fn is not None and i < len(fn["in"]):
                I.havoc_mut(st, x, fn["in"][i], T("mut", t, i))
            elif isinstance(x, Ref):
                try:
                    I.store(st, x, I.value_of(st, T("mut", t, i), I.refty(x)))
                except Exception:
                    pass
        if et is None:
            return [(st, I.value_of(st, t, rty))]
        s2 = st.copy()
        s2.event(Ev("fail", c["n"], (t,), None, span, fr.stack))
        okv = I.value_of(st, T("fld", t, OK, 0), I.fty(I.strip(rty), OK, 0))
        return [(st, mk(I, "Result", OK, okv)), (s2, mk(I, "Result", ERR, Sym(T("err", t), et)))]

    def inline(self, I, fn):
        return True


def helper(prog, fn):
    """private function that reports failures of its calls otherwise than by Result: judged within its callers"""
    return not fn.get("pub") and not fn.get("trait") and not is_result(prog.tys[fn["out"]]) and any_fallible(prog, fn) and called(prog, fn)


def called(prog, fn):
    if not hasattr(prog, "_called"):
        prog._called = set()
        for f in prog.fns.values():
            for b in f["blocks"]:
                t = b["t"]
                if t[0] == "call" and "fn" in t[1]:
                    c = t[1]["fn"]
                    prog._called.add((c.get("r") or c)["d"])
                    prog._called.add(c["d"])
    return fn["d"] in prog._called


def is_result(ty):
    return ty["k"] == "adt" and ty["n"].split("<")[0].endswith("result::Result")


def local_trait(I, c):
    return c.get("d", "").startswith("rcrypto::") or c.get("trait", "") in I.p.fns or str(c.get("trait", "")).startswith("rcrypto::")


def fails(evs):
    for e in evs:
        if e.kind == "fail":
            yield e
        elif e.kind == "loop":
            for b in e.x["backs"]:
                yield from fails(b)


def check(progs, rep):
    rep.rule("propagate", "on every path on which a call of a fallible operation of the library reported an error, the calling function itself returns an error (or does not return)")
    for cfg, prog in both(progs):
        nc = 0
        for fn in local_fns(prog):
            if fn.get("derived"):
                continue
            if cfg != "A" and fn["d"] in progs["A"].fns and progs["A"].fns[fn["d"]]["blocks"] == fn["blocks"]:
                continue
            if not any_fallible(prog, fn) or helper(prog, fn):
                continue
            r = attempt(rep, prog, fn, Modular())
            if r is None:
                continue
            nc += 1
            bad = {}
            for s, v in r.outs:
                if is_err(r.I, s, v):
                    continue
                if adt_last(v) == "Option" and v.var == 0:
                    continue
                for e in fails(s.events()):
                    bad[e.name] = e
            for n, e in bad.items():
                rep.violation("swallow:%s:%s" % (fn["n"], n), "%s returns normally on a path on which %s reported an error" % (fn["n"], n), "%s:%s in %s" % (rel(e.span[0]), e.span[1], fn["n"]))
            if not bad:
                rep.hold("%s: errors of its fallible calls are always reported" % fn["n"])
        if cfg == "A":
            rep.check(nc >= 40, "functions", "functions with fallible calls analysed: %d" % nc)


def any_fallible(prog, fn):
    seen = [fn] + [f for f in prog.fns.values() if f["kind"] == "closure" and f["d"].startswith(fn["d"] + "::{closure")]
    for f in seen:
        for b in f["blocks"]:
            t = b["t"]
            if t[0] == "call":
                ty = place_ty(prog, f, t[3])
                if ty is not None and is_result(ty):
                    return True
    return False


def place_ty(prog, f, place):
    ty = f["locals"][place[0]][0]
    return prog.tys[ty] if len(place) == 1 else None
