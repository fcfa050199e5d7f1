"""C12: signing and decryption need the private key; nothing else reads it; RSA signatures are checked before release."""
from .bigs import *
from .gates import wide
from .common import *

PRIVATE = {"sign": "Signature", "decrypt": "Cipher"}
PUBLIC = {"verify": "Signature", "encrypt": "Cipher"}


def check(progs, rep):
    rep.rule("needs", "on an object without private key signing and decryption have error results only")
    rep.rule("error", "without a private key the operation does not abort by unwrapping a missing key")
    rep.rule("secret", "nothing reachable from verification or encryption reads a secret field of a private key")
    rep.rule("checked", "every RSA signature released is the private-key power of an encoding that the public exponent was seen to restore")
    for cfg, prog in progs.items():
        if cfg != "A":
            continue
        n = {"private": 0, "public": 0, "signs": 0}
        for f in local_fns(prog):
            a = self_adt(prog, f)
            if a is None or f.get("intrait"):
                continue
            ks = options(prog, f)
            if not ks:
                continue
            if f.get("tname") and PRIVATE.get(f["name"]) == f["tname"]:
                n["private"] += 1
                needs(rep, prog, f, ks)
                if f["name"] == "sign" and "::rsa::" in a["d"]:
                    n["signs"] += 1
                    checked(rep, prog, f)
            elif f.get("tname") and PUBLIC.get(f["name"]) == f["tname"]:
                n["public"] += 1
                secret(rep, prog, f)
        for f in local_fns(prog):
            a = self_adt(prog, f)
            if a is not None and "::rsa::" in a["d"] and a["n"].split("::")[-1] == "PrivateKey" and f["name"] == "decrypt_and_check":
                checked(rep, prog, f)
        rep.check(n["private"] >= 6, "count:private", "%d operations that need the private key" % n["private"], text="%d instead of 6 signing and decryption operations found" % n["private"])
        rep.check(n["public"] >= 6, "count:public", "%d operations of the public key" % n["public"], text="%d instead of 6 verification and encryption operations found" % n["public"])
        rep.check(n["signs"] >= 2, "count:signs", "%d RSA signature schemes" % n["signs"], text="%d instead of 2 RSA signature schemes found" % n["signs"])


def last(t):
    return t["n"].split("::")[-1] if t.get("k") == "adt" or "vars" in t else None


def options(prog, f):
    """terms of the optional keys held by self: [(term, type of the key)]"""
    return held(prog, f["self"], T("*", T("P", "a0"))) if has_self_ref(prog, f) else []


def held(prog, ti, term, depth=0):
    t = prog.tys[ti]
    if t["k"] != "adt" or depth > 6:
        return []
    if last(t) == "Option":
        k = prog.tys[t["a"][0]]
        return [(term, prog.adts[k["d"]])] if last(k) in ("PrivateKey", "PublicKey") else []
    if t["d"] in prog.adts and prog.adts[t["d"]]["local"]:
        return [y for i, x in enumerate(prog.adts[t["d"]]["vars"][0]["f"]) for y in held(prog, x["t"], T("fld", term, 0, i), depth + 1)]
    if last(t) in ("Cell", "RefCell", "UnsafeCell", "Box"):
        return held(prog, t["a"][0], term, depth + 1)
    return []


def needs(rep, prog, f, ks):
    name = short(prog, f)

    der = derived(prog, f)
    runs = []
    for have in (0, 1):
        def prep(run):
            wide(run)
            for t, k in ks:
                run.st.vr[t] = have if last(k) == "PrivateKey" else 1
            for t in der:
                run.st.vr[t] = have
        runs.append(attempt(rep, prog, f, Signs(prog), prep=prep))
    run, full = runs
    if run is None or full is None:
        return
    ok = [s for s, v in run.ok() if not s.facts.infeasible()]
    er = [s for s, v in run.errs() if not s.facts.infeasible()]
    rep.check(not ok, "needs:%s" % name, "%s without a private key: %d paths, all end with an error" % (name, len(er)), where(f),
              text="%s can succeed on an object without a private key" % name)
    rep.check(bool(er), "error:%s" % name, "%s without a private key reports an error" % name, where(f), text="%s without a private key never returns an error" % name)
    bad = {(k[2], k[3]): k for k in run.I.panics if k[2] in ("unwrap", "expect", "panic")}
    for k in full.I.panics:
        bad.pop((k[2], k[3]), None)
    for file, line, kind, fn in bad.values():
        rep.violation("error:%s:%s" % (name, fn), "%s aborts in %s when the private key is missing instead of returning an error" % (name, fn), "%s:%s in %s" % (rel(file), line, fn))


def derived(prog, f):
    """fields of the scheme that a constructor fills from secret fields"""
    a = self_adt(prog, f)
    if not hasattr(prog, "_derived"):
        prog._derived = {}
    if a["d"] not in prog._derived:
        r = set()
        for g in local_fns(prog):
            if g.get("self") is None or self_adt(prog, g) is not a or has_self_ref(prog, g):
                continue
            keys = {k: w for i, t in enumerate(g["in"]) for k, w in held(prog, t, T("P", "a%d" % i)) if last(w) == "PrivateKey"}
            if keys:
                guarded(lambda: r.update(filled(prog, g, a, keys)), 60)
        prog._derived[a["d"]] = r
    return {T("fld", T("*", T("P", "a0")), 0, i) for i in prog._derived[a["d"]]}


def issecret(prog, I, t, keys):
    """a field, other than the public part, of the content of an optional private key"""
    if not (isinstance(t, T) and t.op == "fld" and isinstance(t.args[0], T) and t.args[0].op == "fld" and t.args[0].args[1] == 1):
        return False
    adt = keys.get(t.args[0].args[0])
    return adt is not None and last(prog.tys[adt["vars"][0]["f"][t.args[2]]["t"]]) != "PublicKey"


def filled(prog, g, a, keys):
    run = Run(prog, g, Signs(prog), wide)
    for s, v in run.ok():
        for x in walk(run.I.freeze(s, v)):
            if isinstance(x, Agg) and adt_last(x) == a["n"].split("::")[-1]:
                for i, y in enumerate(x.f):
                    if last(prog.tys[a["vars"][0]["f"][i]["t"]]) != "KeyPair" and any(issecret(prog, run.I, t, keys) for t in walk(y)):
                        yield i


def short(prog, f):
    return "%s::%s" % (self_adt(prog, f)["n"].split("::")[-1], f["name"])


def calls(prog):
    """local call graph: {function: functions it may enter}"""
    if hasattr(prog, "_callgraph"):
        return prog._callgraph
    g = {d: set() for d in prog.fns}

    def ops(x, r):
        if isinstance(x, dict):
            c = x.get("fn")
            if c:
                for q in (c, c.get("r") or {}):
                    if q.get("d") in g:
                        r.add(q["d"])
                if (c.get("r") or {}).get("closure") in g:
                    r.add(c["r"]["closure"])
            for v in x.values():
                if isinstance(v, (list, dict)):
                    ops(v, r)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (list, dict)):
                    ops(v, r)
                elif isinstance(v, str) and "{closure" in v and v in g:
                    r.add(v)
    for d, f in prog.fns.items():
        for b in f["blocks"]:
            if not b.get("c"):
                ops(b["s"], g[d])
                ops(b["t"], g[d])
        if "::{closure" in d:
            g[d.split("::{closure")[0]].add(d) if d.split("::{closure")[0] in g else None
    prog._callgraph = g
    return g


def reach(prog, d):
    g = calls(prog)
    seen, todo = set(), [d]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += g.get(x, ())
    return seen


def reads(prog, f):
    """(adt, field index, line) for every field a function touches"""
    def walkplace(p, line):
        ti = f["locals"][p[0]][0]
        for q in p[1:]:
            if q == "*":
                ti = prog.tys[ti].get("e") if ti is not None else None
            elif isinstance(q, list) and q[0] == "f":
                if ti is not None and prog.tys[ti]["k"] == "adt":
                    yield prog.tys[ti]["d"], q[1], line
                ti = q[2] if isinstance(q[2], int) else None
            elif isinstance(q, list) and q[0] in ("i", "ci"):
                ti = prog.tys[ti].get("e") if ti is not None else None
            elif isinstance(q, list) and q[0] == "dc":
                pass
            else:
                ti = None

    def find(x, line):
        if isinstance(x, dict):
            if x.get("k") in ("copy", "move"):
                yield from walkplace(x["p"], line)
            else:
                for v in x.values():
                    if isinstance(v, (list, dict)):
                        yield from find(v, line)
        elif isinstance(x, list):
            if x and x[0] in ("ref", "rawptr", "discr") and isinstance(x[-1], list):
                yield from walkplace(x[-1], line)
            for v in x:
                if isinstance(v, (list, dict)):
                    yield from find(v, line)
    for b in f["blocks"]:
        if b.get("c"):
            continue
        for s in b["s"]:
            if s[0] == "=":
                yield from find(s[2], s[3])
        yield from find(b["t"], b.get("sp"))


def secret(rep, prog, f):
    name = short(prog, f)
    fs = reach(prog, f["d"])
    own = self_adt(prog, f)
    der = {t.args[2] for t in derived(prog, f)}
    bad = []
    n = 0
    for d in sorted(fs):
        g = prog.fns[d]
        for adt, i, line in reads(prog, g):
            n += 1
            a = prog.adts.get(adt)
            if a is None or not a["local"]:
                continue
            if a["n"].split("::")[-1] == "PrivateKey" and last(prog.tys[a["vars"][0]["f"][i]["t"]]) != "PublicKey":
                bad.append((g, a["n"], a["vars"][0]["f"][i]["n"], line))
            elif adt == own["d"] and i in der:
                bad.append((g, a["n"], a["vars"][0]["f"][i]["n"], line))
    if not bad:
        rep.hold("secret: %s reaches %d functions, %d field accesses, none to a secret field" % (name, len(fs), n))
    for g, a, fld, line in bad:
        rep.violation("secret:%s:%s.%s:%s" % (name, a, fld, g["n"]), "%s reaches %s, which reads the secret field %s of %s" % (name, g["n"], fld, a), where(g))


def powers(v):
    return {t for t in walk(v) if isinstance(t, T) and t.op == "rsadp"}


def checked(rep, prog, f):
    name = short(prog, f)
    run = attempt(rep, prog, f, Signs(prog), prep=wide)
    if run is None:
        return
    n = 0
    for s, v in run.ok():
        if s.facts.infeasible():
            continue
        ps = powers(run.I.freeze(s, v)) | powers(tuple(run.I.freeze(s, a) for a in run.args[1:]))
        outer = {p for p in ps if not any(q is not p and p in powers(q.args) for q in ps)}
        if not outer:
            rep.notes.setdefault("undecided", []).append("%s: the released value is not a private-key power" % name)
            rep.obl += 1
            continue
        for p in outer:
            n += 1
            rep.check(any(restores(b, p) for b in facts_true(s)), "checked:%s" % name, "%s: the signature was seen to give back the encoding" % name, where(f),
                      text="%s can release a signature that was not compared with its encoding after raising it to the public exponent" % name)
    rep.check(n > 0, "checked:%s:some" % name, "%s releases %d private-key powers" % (name, n), where(f), text="%s releases no private-key power" % name)


def restores(b, p):
    if b.op != "same":
        return False
    n, x = big(p.args[0]), big(p.args[1])
    for u, w in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
        u, w = big(u), big(w)
        if u is x and isinstance(w, T) and w.op == "exp" and big(w.args[0]) is p and big(w.args[2]) is n:
            e = big(w.args[1])
            if isinstance(e, T) and e.op == "fld" and isinstance(n, T) and n.op == "fld" and e.args[0] is n.args[0] and e is not n:
                return True
    return False
