"""C21: word arithmetic never traps: every overflow and shift-range check in the cores is dead."""
from .common import *
from engine.intervals import Analysis

SCHEMES = ("rsa", "dsa", "ecdsa")        # their arithmetic is on lengths; see C20
PATIENT = 2 ** 31


def check(progs, rep):
    rep.rule("word", "the operand ranges of an addition, subtraction, multiplication or negation of fixed-width words keep the result in range")
    rep.rule("shift", "the range of a shift distance lies below the width of the shifted word")
    total = 0
    for cfg, prog in progs.items():
        an = Analysis(prog).run()
        seen = {}
        for (d, bi), (ok, a, b, op, n, f) in sorted(an.sites.items(), key=lambda x: (x[0][0], x[0][1])):
            if top(f) in SCHEMES or op != "shift" and n in ("usize", "isize", None):
                continue
            total += 1
            name = f["n"]
            line = f["blocks"][bi]["sp"][1]
            if ok:
                rep.hold("%s:%d %s of %s: %s and %s" % (rel(f["span"][0]), line, op, n or "word", span(a), span(b)))
            elif op == "shift" and n:
                # a distance computed from lengths or from a size kept in an object is not a word operand
                rep.obl += 1
                rep.notes.setdefault("undecided", []).append("%s:%d in %s: shift distance %s depends on a %s" % (rel(f["span"][0]), line, name, span(a), n))
            elif op == "step":
                rep.obl += 1
                rep.notes.setdefault("undecided", []).append("%s:%d in %s: step of a loop counter in %s" % (rel(f["span"][0]), line, name, span(a)))
            else:
                k = "%s:%s:%s" % ("shift" if op == "shift" else "word", name.split("<")[0] + "::" + f["name"] if "<" in name else name, op)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > 1:
                    k += ":%d" % seen[k]
                rep.violation(k, "%s:%d in %s: %s of %s can trap: left in %s, right in %s" % (rel(f["span"][0]), line, name, op, n or "a word", span(a), span(b)), where(f, line))
    rep.check(total >= 300, "word:some", "%d trapping operations analysed" % total, text="only %d trapping operations found in the cores" % total)
    positive(rep)


def top(f):
    p = rel(f["span"][0]).split("/")
    return p[1] if len(p) > 2 else p[-1]


def span(r):
    return "?" if r is None else "%d" % r[0] if r[0] == r[1] else "[%d, %d]" % r


def positive(rep):
    """the transfer functions on known cases: an addition of full words must be seen to leave the range"""
    from engine.intervals import Fn
    ar = Fn.arith
    R = (0, 2 ** 32 - 1)
    rep.check(ar(None, "Add", R, R, R, "u32")[1] > R[1] and ar(None, "Sub", (0, 5), (1, 1), R, "u32")[0] < 0 and ar(None, "BitAnd", R, (0, 7), R, "u32") == (0, 7),
              "word:self", "the range rules see an overflow and a mask", text="the range rules do not see an overflow")
