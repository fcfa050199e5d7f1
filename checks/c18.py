"""C18: in-place big-integer arithmetic reaches only storage that the operation owns."""
from .common import *
from engine.alias import Alias


def check(progs, rep):
    rep.rule("param", "storage changed in place is not reached from a key, parameter object or number the function received by reference or inside an object")
    rep.rule("alias", "storage changed in place is not also held by another value that is read later")
    rep.rule("store", "no number inside an object received by mutable reference is replaced")
    rep.rule("own", "what a public function builds from numbers passed by reference does not share storage with them")
    for cfg, prog in progs.items():
        if cfg != "A":
            continue                    # the big-integer code does not depend on the build configuration
        A = Alias(prog).run()
        n = 0
        bad = {}
        for (d, kind, who, line), (f, ln, how, what) in sorted(A.found.items(), key=str):
            bad.setdefault((d, ln), 0)
            k = "%s:%s:%s" % (kind, short(f), what)
            if kind == "param":
                t = "changes the storage of `%s` in place (%s)" % (what, how)
            elif kind == "alias":
                t = "changes storage in place (%s) that `%s` still holds" % (how, what)
            else:
                t = "replaces a number inside `%s`" % what
            rep.violation(k, "%s:%d in %s: %s" % (rel(f["span"][0]), ln, f["n"], t), where(f, ln))
        for d, sites in sorted(A.seen.items()):
            f = A.fns[d]
            for (bi, line, how), os in sorted(sites.items(), key=str):
                if (d, line) in bad:
                    continue
                n += 1
                if os:
                    rep.hold("%s:%d in %s: %s on %s" % (rel(f["span"][0]), line, f["n"], how, ", ".join(sorted({"fresh" if o[0] == "N" else "given" for o in os}))))
                else:
                    rep.obl += 1
                    rep.notes.setdefault("undecided", []).append("%s:%d in %s: origin of the number is not known" % (rel(f["span"][0]), line, f["n"]))
        objs = [f for f in A.fns.values() if f["kind"] == "fn" and any(A.holds(f["locals"][i + 1][0]) for i in range(f["argc"]))]
        for f in objs:
            if not any(k[0] == f["d"] for k in A.found):
                rep.hold("%s leaves the numbers it is given alone" % f["n"])
            owns(rep, prog, A, f)
        rep.check(n + len(bad) >= 10 and len(objs) >= 50, "param:some", "%d in-place operations, %d functions that receive numbers" % (n, len(objs)),
                  text="only %d in-place operations and %d functions that receive numbers found" % (n, len(objs)))


def owns(rep, prog, A, f):
    """a key made of the caller's integers keeps copies of its own"""
    if not f["reach"] or prog.tys[f["locals"][0][0]]["k"] == "ref":
        return
    ps = [i for i in range(f["argc"]) if byref(prog, A, f["locals"][i + 1][0])]
    if not ps or not A.holds(f["locals"][0][0]):
        return
    ret = A.sum.get(f["d"], {"ret": ()})["ret"]
    for i in ps:
        n = f["locals"][i + 1][1] or "argument %d" % (i + 1)
        rep.check(not any(o == ("P", i) for _, o in ret), "own:%s:%s" % (short(f), n), "%s takes a copy of %s" % (f["n"], n), where(f, f["span"][1]),
                  text="%s:%d: what %s returns shares its storage with the caller's `%s`" % (rel(f["span"][0]), f["span"][1], f["n"], n))


def byref(prog, A, ti):
    t = prog.tys[ti]
    if t["k"] != "ref" or t.get("m"):
        return False
    e = t["e"]
    while prog.tys[e]["k"] in ("ref", "slice", "array"):
        e = prog.tys[e]["e"]
    t = prog.tys[e]
    return A.isnum(e) or t["k"] == "adt" and t["d"].split("::")[-1] == "Vec" and A.isnum(t["a"][0])


def short(f):
    return f["n"]
