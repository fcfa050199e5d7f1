"""C08: which blocks the cipher is applied to in each mode, and what each result is combined with."""
from .modes import *
from .common import *


def check(progs, rep):
    rep.rule("formula", "every piece of output is the mode's formula: ECB cipher(block); CBC cipher(block xor previous ciphertext), decryption the inverse; CFB and OFB message xor cipher(register); CTR message xor cipher(counter value)")
    rep.rule("chained", "the chaining value of the first piece is the configured initial vector or counter, and of every later piece what the piece before it leaves: its ciphertext, its keystream block, the register shifted by it, or the next counter value")
    rep.rule("direction", "encryption uses the cipher's forward direction, decryption its inverse in ECB and CBC and the forward direction in CFB, OFB and CTR")
    rep.rule("whole-message", "one-shot: the message bytes consumed by the pieces are the data passed followed by its padding, each once and in order")
    rep.rule("continued", "streams: a new stream starts from the configured initial vector or counter, and a write leaves behind the chaining value of its last piece")
    rep.rule("counter-tail", "CTR: the part of the counter value given to the cipher includes the end that counts")
    for cfg, prog in progs.items():
        if cfg != "A":
            continue
        for name in MODES:
            m = Mode(rep, prog, name)
            if m.adt is None or m.cipher is None:
                rep.violation("missing:%s" % name, "the mode %s is not found" % name)
                continue
            ops = [f for f in local_fns(prog) if self_adt(prog, f) is m.adt and f.get("tname") == "Cipher" and f["name"] in ("encrypt", "decrypt")]
            rep.check(len(ops) == 2, "operations:%s" % name, "%s has both operations" % name)
            for f in ops:
                oneshot(rep, prog, m, f)
            ss = streams(rep, prog, m)
            rep.check(len(ss) == 2, "streams:%s" % name, "%s has a stream for each direction" % name)
            for s in ss:
                begins(rep, prog, s)
                for f in s.ops:
                    stream(rep, prog, s, f)


def oneshot(rep, prog, m, f):
    run = attempt(rep, prog, f, P(prog), prep=m.prep())
    if run is None:
        return
    enc = f["name"] == "encrypt"
    ok = run.ok()
    rep.check(bool(ok), "succeeds:%s" % f["n"], "%s can succeed" % f["n"], where(f))
    for s, v in ok:
        reg = start(run, m, run.lv, ())
        data = run.I.seq(run.entry, run.args[2])
        decide(rep, prog, m, f, run, s, enc, reg, run.I.seq(s, run.args[1]), lambda w: whole(run, s, m, enc, data, w))


def start(run, m, lv, pre):
    if m.iv is not None:
        return lv[pre + m.iv]
    if m.counter is not None:
        return unlin(lv[pre + m.counter])
    return None


def whole(run, s, m, enc, data, w):
    """bytes consumed = data and padding"""
    x = Seq(())
    for y in w.xs:
        x = x + y
    e = data
    for ev in pads(s, enc, m.name):
        if enc:
            pt, src, t = ev.args
            tail = seq_slice(s, data, data.len - src.len, src.len)
            match(run.I, s, src, tail)
            e = e + Seq((("src", t, ZERO, run.I.lenatom(t)),))
    gap(run, s, x, e)
    match(run.I, s, x, e)


def decide(rep, prog, m, f, run, s, enc, reg, out, rest, old=None):
    short = f["n"]
    leaf = set(roots(reg)) if isinstance(reg, Seq) else {reg} if reg is not None else set()
    w = Walk(run.I, s, m.name, enc, run.unit, run.bs, reg, leaf, old)
    for kind, go in (("chained", lambda: w.run(out)), ("whole-message" if old is None else "continued", lambda: rest(w))):
        err = []

        def body():
            try:
                go()
            except Differ as e:
                err.append(("differ", str(e)))
            except Shape as e:
                err.append(("shape", str(e)))
        why = guarded(body)
        if why or err and err[0][0] == "shape":
            rep.notes.setdefault("undecided", []).append("%s (%s): %s" % (short, kind, why or err[0][1]))
            rep.obl += 1
            return
        rep.check(not err, "%s:%s" % (kind, short), "%s: %s" % (short, kind), where(f), "%s: %s" % (short, err[0][1] if err else ""))
        if err:
            return
    for g, q in w.tails:
        n = counterlen(run, g.st, q[1])
        rep.check(g.st.facts.entails_eq(q[2] + q[3] - n), "counter-tail:%s" % short, "%s gives the cipher the end of the counter value" % short, where(f),
                  "%s gives the cipher bytes %s to %s of a counter value of %s bytes: when the counter is longer than a block successive values differ only beyond them" % (short, show(q[2]), show(q[2] + q[3])[:80], show(n)[:80]))
    for e in deep(s.events()):
        if e.kind == "cipher":
            want = "D" if m.name in ("ECB", "CBC") and not enc else "E"
            rep.check(e.name == want, "direction:%s" % short, "%s uses the cipher in the right direction" % short, where(f))


def counterlen(run, st, t):
    from engine import ops
    a = T("cbits", run.I.pol.ctr_root(t.args[0]))
    return ops.divc(st, Lin.atom(a) + 7, 8)


def stream(rep, prog, s, f):
    run = s.run(rep, f)
    if run is None:
        return
    for st, v in run.ok():
        out, old = s.pond_after(run, st)
        decide(rep, prog, s.m, f, run, st, s.enc, s.register(run), out, lambda w: s.left(run, st, f, w), old)


def begins(rep, prog, s):
    for c, obj, st, run in s.made:
        short = c["n"]
        if s.m.name == "ECB":
            continue
        if s.m.name == "CTR":
            t = unlin(dict(leaves(obj))[s.pre + s.m.counter])
            rep.check(t.op == "ctr0", "begins:%s" % short, "%s starts from the configured counter" % short, where(c),
                      "%s starts from the counter state %s" % (short, show(t)[:80]))
            continue
        lv = dict(leaves(obj))
        a, b = lv[s.ij], lv[s.pre + s.m.iv]
        rep.check(a == b, "begins:%s" % short, "%s starts from the configured initial vector" % short, where(c),
                  "%s starts from %s" % (short, show(a)[:80]))
