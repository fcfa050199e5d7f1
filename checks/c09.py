"""C09: cipher streams neither lose, repeat nor reorder bytes, and start over after finish."""
from .modes import *
from .common import *


def check(progs, rep):
    rep.rule("conserved", "write: the bytes that were pending followed by the bytes passed are the bytes this call turned into output followed by the bytes now pending")
    rep.rule("appended", "write and finish: the output is what was not collected yet followed by this call's pieces, in order")
    rep.rule("flushed", "finish: the bytes turned into output are the pending bytes followed, when encrypting, by their padding; nothing stays pending")
    rep.rule("unpadded", "finish: padding is taken off what this call decrypted, not off output of earlier calls")
    rep.rule("restarted", "finish: the chaining value is the configured initial vector, the counter the configured start")
    rep.rule("bounded", "the pending bytes never exceed one block and one segment")
    for cfg, prog in progs.items():
        if cfg != "A":
            continue
        n = 0
        for name in MODES:
            m = Mode(rep, prog, name)
            if m.adt is None or m.cipher is None:
                rep.violation("missing:%s" % name, "the mode %s is not found" % name)
                continue
            ss = streams(rep, prog, m)
            rep.check(len(ss) == 2, "streams:%s" % name, "%s has a stream for each direction" % name)
            for s in ss:
                if s.data is None or s.pond is None:
                    rep.notes.setdefault("undecided", []).append("%s: parts not recognised" % s.adt["n"])
                    rep.obl += 1
                    continue
                rep.check(sorted(f["name"] for f in s.ops) == ["finish", "write"], "operations:%s" % s.adt["n"], "%s has write and finish" % s.adt["n"])
                if s.bound is None:
                    rep.notes.setdefault("undecided", []).append("%s: no bound on the pending bytes" % s.adt["n"])
                    rep.obl += 1
                else:
                    rep.hold("bounded: %s" % s.adt["n"])
                for f in s.ops:
                    n += 1
                    one(rep, s, f)
        rep.check(n >= 20, "operations", "stream operations analysed: %d" % n)


def one(rep, s, f):
    run = s.run(rep, f)
    if run is None:
        return
    ok = run.ok()
    short = f["n"]
    rep.check(bool(ok), "succeeds:%s" % short, "%s can succeed" % short, where(f))
    for st, v in ok:
        out, old = s.pond_after(run, st)
        reg = s.register(run)
        leaf = set(roots(reg)) if isinstance(reg, Seq) else {reg} if reg is not None else set()
        w = Loose(run.I, st, s.m.name, s.enc, run.unit, run.bs, reg, leaf, old)
        lv = dict(leaves(run.self_after(st)))

        def consumed():
            x = Seq(())
            for y in w.xs:
                x = x + y
            return x

        def conserved():
            e = run.lv[s.data] + run.I.seq(run.entry, run.args[1])
            match2(run, st, consumed() + lv[s.data], e)

        def flushed():
            e = run.lv[s.data]
            for ev in pads(st, s.enc, s.m.name):
                if s.enc:
                    pt, src, t = ev.args
                    match(run.I, st, src, run.lv[s.data])
                    e = e + Seq((("src", t, ZERO, run.I.lenatom(t)),))
            match2(run, st, consumed(), e)
            if not st.facts.entails_eq(lv[s.data].len):
                raise Differ("still pending: %s" % show(lv[s.data])[:120])

        def unpad():
            for ev in deep(st.events()):
                if ev.kind == "pad" and ev.name == "unpad":
                    for q in flat(st, ev.args[1]).p:
                        if q[0] == "src" and q[1] in roots(old):
                            raise Differ("takes padding off output of earlier calls: %s" % show(ev.args[1])[:120])

        def restarted():
            if s.m.name == "ECB":
                return
            if s.m.name == "CTR":
                t = unlin(lv[s.pre + s.m.counter])
                c = unlin(run.lv[s.pre + s.m.counter])
                if not (t.op == "ctr0" and root_counter(run.I, t.args[0]) is c):
                    raise Differ("the counter is left at %s" % show(t)[:80])
                return
            settled(run.I, st, lv[s.ij], run.lv[s.pre + s.m.iv])
            match(run.I, st, lv[s.pre + s.m.iv], run.lv[s.pre + s.m.iv])

        todo = [("appended", lambda: w.run(out))]
        if f["name"] == "write":
            todo += [("conserved", conserved)]
        else:
            todo += [("flushed", flushed), ("restarted", restarted)]
            if not s.enc:
                todo += [("unpadded", unpad)]
        bad = False
        for rule, go in todo:
            if bad and rule in ("conserved", "flushed"):
                continue
            r = verdict(go)
            if r is None:
                rep.hold("%s: %s" % (rule, short))
            elif r[0] == "shape":
                rep.notes.setdefault("undecided", []).append("%s (%s): %s" % (short, rule, r[1]))
                rep.obl += 1
                bad = True
            else:
                rep.violation("%s:%s" % (rule, short), "%s: %s" % (short, r[1]), where(f))
                bad = True


def settled(I, st, v, want):
    """v is want, also when a loop set it"""
    t = pure(st, v) if isinstance(v, Seq) else None
    d = I.mudef.get(t) if t is not None else None
    if d is not None and t.op == "mu" and isinstance(d["init"], Seq):
        settled(I, st, d["init"], want)
        for b, y in zip(d["states"][1], d["backs"]):
            if not isinstance(y, Seq):
                raise Shape("chaining value lost")
            match(I, b, y, want)
        return
    match(I, st, v, want)


def verdict(go):
    r = []

    def body():
        try:
            go()
        except Differ as e:
            r.append(("differ", str(e)))
        except Shape as e:
            r.append(("shape", str(e)))
    why = guarded(body)
    if why:
        return ("shape", why)
    return r[0] if r else None


def match2(run, st, a, b):
    gap(run, st, a, b)
    match(run.I, st, a, b)


class Loose(Walk):
    """only where the bytes come from and in which order; the chaining is C08's"""
    def chain1(self, f):
        pass

    def chain(self, s, fs):
        pass

    def seg(self, s):
        if s.kind == "blocks":
            f = Formula(self.I, self.mode, self.enc, s.ems[0], self.unit, self.bs, self.leaf)
            self.xs.append(self.moved(s, f, s.d["w"]))
            return
        Walk.seg(self, s)
