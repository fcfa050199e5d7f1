"""C03: a second checksum gives the same bytes and changes nothing; a write invalidates the cached digest."""
from .common import *
from .c02 import P, facade, influence, ctors_of, success, LIM
from .invariants import invariants, assume

DIGEST = "Digest"


def digests(prog):
    for fn in local_fns(prog):
        if fn.get("tname") == DIGEST and fn["name"] == "checksum" and len(fn["in"]) == 2:
            a = self_adt(prog, fn)
            if a is not None and a["kind"] == "struct" and not facade(prog, a):
                yield a, fn


def writers(prog, a):
    """operations that add to the message"""
    for f in local_fns(prog):
        sa = self_adt(prog, f)
        if sa is not None and sa["d"] == a["d"] and f["name"].split("_")[0] == "write" and len(f["in"]) == 2 and has_self_ref(prog, f) and (f.get("pub") or f.get("trait")):
            yield f


def newvec(I, st, fn, name):
    return I.param(st, name, fn["in"][1])


def check(progs, rep):
    rep.rule("same-bytes", "checksum run again in every state checksum can leave the object in: the bytes delivered are the same")
    rep.rule("same-state", "the second checksum leaves every part of the object as the first did")
    rep.rule("write-invalidates", "new object, checksum, non-empty write, checksum: the second result depends on the data written")
    for cfg, prog in both(progs):
        n = 0
        for a, fn in digests(prog):
            if cfg != "A" and "sha" not in fn["d"] and "md5" not in fn["d"] and "sm3" not in fn["d"]:
                continue
            n += 1
            twice(rep, prog, a, fn)
            for w in writers(prog, a):
                after_write(rep, prog, a, fn, w)
        if cfg == "A":
            rep.check(n >= 15, "digests", "digest types analysed: %d" % n)


def twice(rep, prog, a, fn):
    inv = invariants(rep, prog, a)
    run = attempt(rep, prog, fn, P(prog), prep=lambda r: assume(r, a, inv))
    if run is None:
        return
    I = run.I
    short = a["n"]
    for s1, _ in run.outs:
        d1 = I.freeze(s1, run.deref(s1, 1))
        before = {p: I.freeze(s1, v) for p, v in leaves(run.self_after(s1))}
        st = s1.copy()
        nb = len(st.events())
        d2r = newvec(I, st, fn, "again")
        try:
            outs = I.run_fn(fn, [run.args[0], d2r], st, {}, None)
        except Budget as e:
            rep.notes.setdefault("undecided", []).append("%s: second call: %s" % (fn["n"], e))
            rep.obl += 1
            continue
        for s2, _ in outs:
            d2 = I.freeze(s2, I.load(s2, d2r, I.refty(d2r)))
            ok = alike(I, s2, d2, d1)
            rep.check(ok, "again:%s" % short, "second checksum of %s gives the same bytes" % short, where(fn),
                      "a second checksum of %s yields %s, the first %s" % (short, show(d2)[:160], show(d1)[:160]))
            after = run.self_after(s2)
            for p, v in leaves(after):
                f = I.freeze(s2, v)
                if f is before.get(p) or alike(I, s2, f, before.get(p)):
                    rep.hold("%s.%s unchanged by the second checksum" % (short, leafname(prog, a, p)))
                elif isinstance(v, (Seq, Sym)) and influence(rep, prog, a, I, s2, after, p, v) in (None, "undecided"):
                    rep.hold("%s.%s changed by the second checksum without influence" % (short, leafname(prog, a, p)))
                else:
                    rep.violation("state:%s:%s" % (short, ".".join(map(str, p))), "a second checksum changes %s.%s from %s to %s" % (short, leafname(prog, a, p), show(before.get(p))[:120], show(f)[:120]), where(fn))


def after_write(rep, prog, a, fn, w):
    """new object, checksum, write of at least one byte, checksum"""
    short = a["n"]
    for c in ctors_of(prog, a):
        run = attempt(rep, prog, c, P(prog))
        if run is None:
            continue
        I = run.I
        for s0, v in run.outs:
            obj = success(I, s0, v)
            if not isinstance(obj, Agg):
                continue
            st = s0.copy()
            ref = I.alloc(st, obj, fn["self"])
            why = guarded(lambda: history(rep, prog, a, fn, w, c, I, st, ref))
            if why:
                rep.notes.setdefault("undecided", []).append("%s, %s, %s: %s" % (c["n"], fn["name"], w["name"], why))
                rep.obl += 1


def history(rep, prog, a, fn, w, c, I, st, ref):
    short = a["n"]
    d1r = newvec(I, st, fn, "first")
    for s1, _ in I.run_fn(fn, [ref, d1r], st, {}, None):
        data = I.param(s1, "data", w["in"][1])
        if isinstance(data, Ref):
            src = I.seq(s1, data).p[0][1]
            s1.facts.add_ge(I.lenatom(src) - 1)
        else:
            src = T("P", "data")
        for s2, _ in I.run_fn(w, [ref, data], s1.copy(), {}, None):
            d2r = newvec(I, s2, fn, "later")
            for s3, _ in I.run_fn(fn, [ref, d2r], s2, {}, None):
                d = I.freeze(s3, I.load(s3, d2r, I.refty(d2r)))
                tt = tainted(I, {src})
                tt |= {t for t, q in I.mudef.items() if "backs" in q and len(set(q["backs"])) > 1}       # a branch in the loop decides
                rep.check(mentions(d, tt) or isinstance(d, Seq) and s3.facts.entails_eq(d.len), "stale:%s" % short, "checksum of %s after another write depends on the data" % short, where(w),
                          "after %s, checksum and a further %s, the checksum of %s is %s, which does not depend on the data written" % (c["name"], w["name"], short, show(d)[:LIM]))
