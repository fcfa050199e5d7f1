"""C24: block padding is minimal and is taken off exactly."""
from .common import *
from .c02 import put
from .absorb import *
from .absorb import flat
from .gates import Known, wide
from engine.num import note_atom

BLOCKS = (1, 8, 16)


def check(progs, rep):
    rep.rule("padded", "a buffer of q blocks and k bytes, for every q and every k below the block size: what padding leaves is the buffer, one 0x80 byte and zero bytes up to the next block boundary, or the buffer itself")
    rep.rule("restored", "unpadding such a buffer succeeds and leaves exactly what was padded")
    rep.rule("rejected", "unpadding succeeds only after every byte behind the cut was seen to be zero and the byte at the cut to be 0x80")
    for cfg, prog in both(progs):
        if cfg != "A":
            continue
        n = 0
        for fn in local_fns(prog):
            if fn.get("tname") != "Padding" or fn["name"] != "padding" or self_adt(prog, fn) is None:
                continue
            a = self_adt(prog, fn)
            un = next((f for f in local_fns(prog) if f.get("tname") == "Padding" and f["name"] == "unpadding" and self_adt(prog, f) is not None and self_adt(prog, f)["d"] == a["d"]), None)
            if un is None:
                continue
            n += 1
            one(rep, prog, a, fn, un)
        rep.check(n >= 2, "padded:some", "padding schemes analysed: %d" % n, text="only %d padding schemes found" % n)


def sized(prog, fn):
    """the path of the block size in the object, None if it keeps none"""
    r = Run(prog, fn, Contracts())
    ps = [p for p, v in leaves(r.self_after(r.entry)) if isinstance(v, Lin)]
    return ps[0] if len(ps) == 1 else None


def one(rep, prog, a, fn, un):
    at = sized(prog, fn)
    q = T("q")
    note_atom(q)
    none = None
    for b in BLOCKS if at is not None else (1,):
        for k in range(b):
            def prep(r):
                begin(r, at, b, Lin.atom(q).scale(b) + k)
                r.st.facts.add_ge(Lin.atom(q))
            run = attempt(rep, prog, fn, Contracts(), prep=prep)
            if run is None:
                continue
            I = run.I
            what = "%s of q*%d+%d bytes" % (a["n"], b, k)
            key = "padded:%s:%d:%d" % (a["n"], b, k)
            if not run.outs:
                rep.violation(key, "padding %s does not return" % what, where(fn))
            for s, _ in run.outs:
                got = flat(s, I.freeze(s, run.deref(s, 1)))
                src = flat(run.entry, I.freeze(run.entry, run.deref(run.entry, 1)))
                if same(s, got, src):
                    none = True
                    rep.hold("%s: unchanged" % what)
                    continue
                none = False
                want = src + Seq((("lit", (Lin(0x80),)),)) + Seq((("lit", (Lin(0),) * (b - k - 1)),))
                r = same(s, got, want)
                if r is None:
                    rep.obl += 1
                    rep.notes.setdefault("undecided", []).append("%s: %s" % (what, show(got)[:120]))
                else:
                    rep.check(r, key, "%s: 0x80 and %d zero bytes" % (what, b - k - 1), where(fn), text="padding %s gives %s instead of the data, 0x80 and %d zero bytes" % (what, show(got)[:160], b - k - 1))
    if none is None:
        return
    restored(rep, prog, a, fn, un, at, none)
    rejected(rep, prog, a, un, at, none)


def begin(r, at, b, n):
    I, st = r.I, r.st
    if at is not None:
        I.store(st, r.args[0], put(I.load(st, r.args[0], I.refty(r.args[0])), at, Lin(b)))
    v = I.load(st, r.args[1], I.refty(r.args[1]))
    r.buf = flat(st, I.freeze(st, v))
    st.facts.add_eq(length(r.buf) - n)


def length(seq):
    n = Lin(0)
    for p in seq.p:
        n = n + plen(p)
    return n


def same(s, a, b):
    """two sequences agree; None when that is not known"""
    d = length(a) - length(b)
    if not s.facts.entails_eq(d):
        return False if d.const is not None or s.facts.entails_ge(d - 1) or s.facts.entails_ge(Lin(-1) - d) else None
    a, b = list(a.p), list(b.p)
    while a and b:
        x, y = a[0], b[0]
        if x[0] == "src" and y[0] == "src":
            if x[1] is not y[1] or not s.facts.entails_eq(x[2] - y[2]) or not s.facts.entails_eq(x[3] - y[3]):
                return False if x[1] is not y[1] else None
            a.pop(0)
            b.pop(0)
            continue
        nx, ny = plen(x), plen(y)
        if x[0] == "src" or y[0] == "src":
            # an empty piece of the source may stand before literal bytes
            if x[0] == "src" and s.facts.entails_eq(nx):
                a.pop(0)
            elif y[0] == "src" and s.facts.entails_eq(ny):
                b.pop(0)
            else:
                return None
            continue
        vx, rx = head(s, x)
        vy, ry = head(s, y)
        if vx is None or vy is None:
            if vx is None and rx is None:
                a.pop(0)
            elif vy is None and ry is None:
                b.pop(0)
            else:
                return None
            continue
        if not (isinstance(vx, Lin) and isinstance(vy, Lin) and s.facts.entails_eq(vx - vy)):
            return False if isinstance(vx, Lin) and isinstance(vy, Lin) and (vx - vy).const else None
        a[0:1] = [rx] if rx is not None else []
        b[0:1] = [ry] if ry is not None else []
    rest = a or b
    return all(s.facts.entails_eq(plen(p)) for p in rest) or None


def head(s, p):
    """(first element, rest); (None, None) for an empty piece, (None, p) when not known"""
    if p[0] == "lit":
        return (p[1][0], ("lit", p[1][1:]) if len(p[1]) > 1 else None) if p[1] else (None, None)
    n = plen(p)
    c = n.const
    if c is None:
        for k in range(0, 17):
            if s.facts.entails_eq(n - k):
                c = k
                break
    if c is None:
        return None, p
    return (p[1], ("fill", p[1], Lin(c - 1)) if c > 1 else None) if c else (None, None)


def restored(rep, prog, a, fn, un, at, none):
    for b in BLOCKS if at is not None else (1,):
        for n in ((0,) if none else range(b)):
            def prep(r):
                begin(r, at, b, Lin.atom(T("m")))
                note_atom(T("m"))
                r.st.facts.add_ge(Lin.atom(T("m")))
                if not none:
                    r.I.store(r.st, r.args[1], r.buf + Seq((("lit", (Lin(0x80),) + (Lin(0),) * n),)))
            run = attempt(rep, prog, un, Contracts(), prep=prep)
            if run is None:
                continue
            I = run.I
            key = "restored:%s:%d:%d" % (a["n"], b, n)
            what = "%s with %d zero bytes" % (a["n"], n)
            bad = run.errs()
            rep.check(not bad and run.outs, key + ":ok", "%s: taken off" % what, where(un), text="unpadding %s %s" % (what, "is refused" if bad else "does not return"))
            for s, v in run.ok():
                got = flat(s, I.freeze(s, run.deref(s, 1)))
                r = same(s, got, run.buf)
                if r is None:
                    rep.obl += 1
                    rep.notes.setdefault("undecided", []).append("unpadding %s: %s" % (what, show(got)[:120]))
                else:
                    rep.check(r, key, "%s: what was padded is left" % what, where(un), text="unpadding %s leaves %s" % (what, show(got)[:160]))


def rejected(rep, prog, a, un, at, none):
    if none:
        return
    run = attempt(rep, prog, un, Contracts(), prep=wide)
    if run is None:
        return
    I = run.I
    src = flat(run.entry, I.freeze(run.entry, run.deref(run.entry, 1)))
    if len(src.p) != 1 or src.p[0][0] != "src":
        rep.obl += 1
        rep.notes.setdefault("undecided", []).append("unpadding of %s: buffer %s" % (a["n"], show(src)[:100]))
        return
    base, total = src.p[0][1], src.p[0][3]
    rep.check(run.ok(), "rejected:%s:some" % a["n"], "%s accepts some data" % a["n"], where(un), text="unpadding of %s never succeeds" % a["n"])
    for s, v in run.ok():
        try:
            got = flat(s, I.freeze(s, run.deref(s, 1)))
            if not all(p[0] == "src" and p[1] is base for p in got.p) or len(got.p) > 1 or got.p and not s.facts.entails_eq(got.p[0][2]):
                raise Differ("what is left is not a leading part of the data: %s" % show(got)[:100])
            m = length(got)
            k = Known(I, s, lambda t, o: o if t is base else None)
            if not k.holds(m, Lin(1), Seq((("lit", (Lin(0x80),)),))):
                raise Differ("the byte at the cut is not known to be 0x80")
            n = total - m - 1
            if not s.facts.entails_eq(n) and not k.holds(m + 1, n, Seq((("fill", Lin(0), n),))):
                raise Differ("bytes behind the cut are not known to be zero")
            rep.hold("%s: cut off only 0x80 and zero bytes" % a["n"])
        except Differ as e:
            rep.violation("rejected:%s" % a["n"], "unpadding of %s succeeds on data that does not end in 0x80 and zero bytes: %s" % (a["n"], e), where(un))
        except Shape as e:
            rep.obl += 1
            rep.notes.setdefault("undecided", []).append("unpadding of %s: %s" % (a["n"], e))
