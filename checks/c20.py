"""C20: verification and decryption of arbitrary byte strings end with a result, never with an abort."""
from .bigs import *
from .gates import wide
from .c12 import options, last, derived
from .c02 import ctors_of, success, P
from .c10 import plain_self, unlin
from .invariants import invariants, assume
from itertools import product

ENTRY = {("Cipher", "decrypt"), ("Signature", "verify"), ("DecryptStream", "write"), ("DecryptStream", "finish"), ("Padding", "unpadding")}
SKIPKIND = ("assert:null", "assert:align")


class Aborts(Signs):
    """what may be assumed of a valid object: digests are whole bytes, the numbers of a key are positive,
    a counter is as wide as the cipher block (both are decided where they are accepted)"""
    whole = True

    def __init__(self, prog):
        Signs.__init__(self, prog)
        self.pending = {}

    def bits(self, st, x):
        r = Signs.bits(self, st, x)
        if plain_self(x):
            st.facts.add_ge(r - 1)
        return r

    def discharge(self, I, st, c, exp):
        g = goal(c, exp)
        if g is None:
            return False
        h = steps(I, st, tables(g))
        if h is not g and st.facts.entails_ge(h):
            return True
        if counters(st, g) or multiple(st, g):
            return True
        # what a loop does to its variables is known only when it has been closed
        self.pending.setdefault(show(c)[:300], []).append((st.copy(), g))
        return False

    def later(self, I, text):
        ps = self.pending.get(text.split(": ")[-1])
        return bool(ps) and all(s.facts.entails_ge(steps(I, s, tables(g))) for s, g in ps)


def goal(c, exp):
    """the affine form that is not negative when the condition has the expected outcome"""
    c = unlin(c) if isinstance(c, Lin) else c
    if isinstance(c, T) and c.op == "not":
        return goal(c.args[0], not exp)
    if isinstance(c, T) and c.op == "ge0":
        e = c.args[0]
        return e if exp else -e - 1
    return None


def tables(g):
    """entries of a literal table replaced by the worst one"""
    out = g
    for a, k in g.t:
        if isinstance(a, T) and a.op == "elem" and isinstance(a.args[0], T) and a.args[0].op == "seq":
            vs = [v for q in a.args[0].args[0].p for v in (q[1] if q[0] == "lit" else (None,))]
            vs = [v.const if isinstance(v, Lin) else None for v in vs]
            if vs and None not in vs:
                out = out - Lin.atom(a).scale(k) + k * (min(vs) if k > 0 else max(vs))
    return out


def counters(st, g):
    """the bytes of a counter are at least the block of the cipher it serves"""
    cs = [a for a, k in g.t if k == 1 and isinstance(a, T) and a.op == "div" and mentions_op(a, "cbits")]
    bs = [a for a, k in g.t if k == -1 and isinstance(a, T) and a.op == "bs"]
    if len(cs) == 1 and len(bs) == 1:
        return st.facts.entails_ge(g - Lin.atom(cs[0]) + Lin.atom(bs[0]))
    return False


def mentions_op(x, op):
    if isinstance(x, T):
        return x.op == op or any(mentions_op(y, op) for y in x.args)
    if isinstance(x, Lin):
        return any(mentions_op(a, op) for a, _ in x.t)
    return False


def multiple(st, g):
    """a positive multiple of s is at least s"""
    for x, s in wholes(st, g):
        y = g + Lin.atom(s)
        d = y - x
        if d.c == 0 and all(a == s or isinstance(a, T) and a.op == "pr" and unlin(a.args[1]) == s for a, _ in d.t) and st.facts.entails_ge(y - 1):
            return True
    return False


def wholes(st, g):
    """(x, s): x is known to be a multiple of s"""
    for b, v in st.b.items():
        r = unlin(b.args[0]) if v is True and isinstance(b, T) and b.op == "eq0" else None
        if isinstance(r, T) and r.op == "rem":
            s = unlin(r.args[1])
            if isinstance(s, T):
                yield lin(r.args[0]), s
    for a, k in g.t:
        if k == -1 and isinstance(a, T) and a.op == "rem":
            s = unlin(a.args[1])
            if isinstance(s, T):
                yield lin(a.args[0]) - Lin.atom(a), s


def lin(x):
    return x if isinstance(x, Lin) else Lin.atom(x)


def steps(I, st, g):
    """a variable that grows by at most one in each iteration is at most the number of iterations so far"""
    out = g
    for a, k in g.t:
        d = I.mudef.get(a) if k < 0 and isinstance(a, T) and a.op == "mu" else None
        if d is None or not isinstance(d.get("init"), Lin) or not d.get("states"):
            continue
        ok = all(isinstance(v, Lin) and s.facts.entails_ge(Lin.atom(a) + 1 - v) for s, v in zip(d["states"][1], d.get("backs") or ()))
        n = T("pr", "%d" % d["loop"], ONE)
        if ok:
            out = out - Lin.atom(a).scale(k) + (d["init"] + Lin.atom(n)).scale(k)
    return out


def nested(rep, prog, a, pre=(), depth=0):
    """the facts of the objects an object is made of"""
    inv = {(None if p is None else pre + p, None if q is None else pre + q, k) for p, q, k in invariants(rep, prog, a, low=True)}
    if depth < 3 and len(a["vars"]) == 1:
        for i, x in enumerate(a["vars"][0]["f"]):
            t = prog.tys[x["t"]]
            b = prog.adts.get(t["d"]) if t["k"] == "adt" else None
            if b is not None and b["local"]:
                inv |= nested(rep, prog, b, pre + (i,), depth + 1)
    return inv


def check(progs, rep):
    rep.rule("abort", "no path through verification or decryption, whatever the bytes and lengths given, reaches a panic: "
                      "an index or slice outside its range, an arithmetic trap, an unwrapped absence or error, an explicit panic")
    rep.rule("key", "every way of building a key pair leaves at least one key in it")
    seen = 0
    for cfg, prog in progs.items():
        if cfg == "A":
            keypairs(rep, prog)
        for f in local_fns(prog):
            if (f.get("tname"), f["name"]) not in ENTRY or f.get("intrait") or self_adt(prog, f) is None:
                continue
            a = self_adt(prog, f)
            if cfg != "A" and "aes" not in a["d"]:
                continue
            seen += 1
            entry(rep, prog, f, a, along)
    rep.check(seen >= 30, "abort:some", "%d decrypting and verifying operations analysed" % seen, text="only %d decrypting and verifying operations found" % seen)


def short(prog, f):
    a = self_adt(prog, f)
    return "%s::%s" % (a["n"].split("::")[-1], f["name"])


def along(ps):
    """the condition is about a loop that runs along something the object keeps between calls"""
    for s, g in ps:
        ls = {x for x, _ in g.t if isinstance(x, T) and x.op in ("pr", "mu")}
        if any(any(x in ls for x, _ in e.t) and any(isinstance(x, T) and x.op == "len" and own(x.args[0]) for x, _ in e.t) for e in s.facts.ge):
            return True
    return False


def own(t):
    while isinstance(t, T) and t.op == "fld":
        t = t.args[0]
    return t is T("*", T("P", "a0"))


def entry(rep, prog, f, a, unsure=None):
    """unsure: tells whether a condition that was not established is a matter of what earlier calls left in the object"""
    name = short(prog, f)
    ks = options(prog, f)
    inv = set()
    if not ks:
        u = len(rep.notes.get("undecided", []))
        inv = nested(rep, prog, a)
        if len(rep.notes.get("undecided", [])) > u:
            return                                       # what its constructors establish is not known
    bad = {}
    n = 0
    der = derived(prog, f) if ks else ()
    for combo in product((0, 1), repeat=len(ks)):
        if ks and not any(combo):
            continue

        def prep(run):
            wide(run)
            for (t, k), h in zip(ks, combo):
                run.st.vr[t] = h
                if last(k) == "PrivateKey":
                    for d in der:
                        run.st.vr[d] = h
            assume(run, a, inv)
        run = attempt(rep, prog, f, Aborts(prog), prep=prep)
        if run is None:
            return
        n += 1
        for (file, line, kind, fn), v in run.I.panics.items():
            v = [x for x in v if not run.I.pol.later(run.I, x[0])]
            if unsure is not None:
                ps = [x for x in v if unsure(run.I.pol.pending.get(x[0].split(": ")[-1], ()))]
                if ps:
                    rep.obl += 1
                    rep.notes.setdefault("undecided", []).append("%s: %s" % (name, ps[0][0][:160]))
                    v = [x for x in v if x not in ps]
            if v and kind not in SKIPKIND:
                bad.setdefault((fn, kind), ((file, line), v[0][0], v[0][1]))
    if not bad:
        rep.hold("%s: no panic reachable (%d cases of held keys)" % (name, n))
    for (fn, kind), (at, text, stack) in sorted(bad.items()):
        rep.violation("abort:%s:%s:%s" % (name, fn.split("::")[-1] if "closure" not in fn else "::".join(fn.split("::")[-2:]), kind.split(":")[-1]),
                      "%s can abort at %s:%d in %s (%s): not established there: %s" % (name, rel(at[0]), at[1], fn, kind, text[:160]), "%s:%d in %s" % (rel(at[0]), at[1], fn))


def keypairs(rep, prog):
    n = 0
    for adt in prog.adts.values():
        if not adt["local"] or adt["n"].split("::")[-1] != "KeyPair":
            continue
        for c in ctors_of(prog, adt):
            run = attempt(rep, prog, c, Signs(prog), prep=wide)
            if run is None:
                continue
            for s, v in run.outs:
                o = success(run.I, s, v)
                if not isinstance(o, Agg):
                    continue
                n += 1
                some = any(isinstance(x, Agg) and x.var == 1 for x in o.f)
                rep.check(some, "key:%s" % c["n"].split("::")[-1], "%s leaves a key in the pair" % c["n"], where(c), text="%s can build a pair without any key" % c["n"])
