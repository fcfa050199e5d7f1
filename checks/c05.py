"""C05: wrong sizes and parameters are rejected, right ones accepted."""
from engine import ops
from .common import *
from .c04 import P4

WIDTHS = {25, 50, 100, 200, 400, 800, 1600}
CMACS = {4, 6, 8, 12, 16, 20, 24, 28, 32, 40, 48, 56, 64, 96, 128, 256}
BLOCKS = {"AES": 16, "SM4": 16, "DES": 8, "TDES": 8}


class P5(P4):
    """functions that see no length - only fixed arrays and words - cannot validate one and stay opaque"""
    def inline(self, I, fn):
        if fn["in"] and not is_fallible(I.tys[fn["out"]]) and all(fixed(I, t) for t in fn["in"]):
            return False
        return P4.inline(self, I, fn)

    def call(self, I, fr, st, c, fn, args, rty, span):
        """a block cipher called from elsewhere succeeds exactly on one block (what is decided for it separately)"""
        a = self_adt(I.p, fn) if fn is not None and c.get("tname") == "Cipher" and c["name"] in ("encrypt", "decrypt") and fr is not None else None
        n = BLOCKS.get(a["n"].split("::")[-1]) if a is not None and a["d"] not in self.own else None
        if n is None:
            return P4.call(self, I, fr, st, c, fn, args, rty, span)
        e = I.seq(st, args[2]).len - n
        out = []
        for s, v in P4.call(self, I, fr, st, c, fn, args, rty, span):
            if is_err(I, s, v):
                s.facts.add_ne(e)
                if s.facts.entails_eq(e):
                    continue
            else:
                s.facts.add_eq(e)
                if e.const not in (None, 0) or s.facts.infeasible():
                    continue
            out.append((s, v))
        return out


def is_fallible(t):
    return t["k"] == "adt" and t["n"].split("::")[-1].split("<")[0] in ("Result", "Option") or t["k"] == "bool"


def fixed(I, ti):
    t = I.tys[ti]
    return t["k"] == "array"


# ---- what each operation must accept -------------------------------------------------

def length(i):
    return lambda run, s: run.I.seq(run.entry, run.args[i]).len


def value(i):
    return lambda run, s: run.args[i]


def bs(run, s):
    """block size of the underlying cipher as seen on the path"""
    return atom(run, s, "bs")


def atom(run, s, op):
    c = {x for e in s.facts.ge + s.facts.eq + tuple(s.facts.ne) for x in walk(e) if isinstance(x, T) and x.op == op}
    return Lin.atom(c.pop()) if len(c) == 1 else None


def modlen(run, s):
    """byte length of the modulus as seen on the path"""
    r = set()
    for e in s.facts.ge + s.facts.eq:
        for x in walk(e):
            if isinstance(x, T) and x.op == "div" and any(isinstance(y, T) and y.op == "call" and "bits_len" in str(y.args[0]) for y in walk(x.args[0])):
                r.add(x)
    return [Lin.atom(x) for x in r]


IN, EQ, GE, MULT = "in", "eq", "ge", "mult"


def table():
    """(what, matches(fn, adt name), conditions, both ways?)"""
    def named(ty, *names):
        return lambda fn, a: a == ty and fn["name"] in names and not fn.get("trait")
    t = [
        ("key length", named("AES", "new"), [(IN, length(0), {16, 24, 32})]),
        ("key length", named("SM4", "from_slice"), [(EQ, length(0), 16)]),
        ("key and IV length", named("ZUC", "from_slice"), [(EQ, length(0), 16), (EQ, length(1), 16)]),
        ("key and IV length", named("ZUC", "set_slice"), [(EQ, length(1), 16), (EQ, length(2), 16)]),
        ("key length", named("ZUCCipher", "from_slice"), [(EQ, length(3), 16)]),
        ("key length", named("ZUCMac", "from_slice"), [(EQ, length(3), 16)]),
        ("digest bits", named("SHA512T", "new"), [(IN, value(0), set(range(1, 512)) - {384})]),
        ("digest bits", named("SHA", "sha512t"), [(IN, value(0), set(range(1, 512)) - {384})]),
        ("permutation width", named("Keccak", "new"), [(IN, value(0), WIDTHS)]),
        ("rate", named("KeccakSponge", "new"), [(GE, value(1), 1), (GE, width, lambda r, s: value(1)(r, s) + 1)]),
        ("block size", named("CMAC", "new"), [(IN, bs, CMACS)]),
        ("counter length", named("DefaultCounter", "new"), [(GE, lambda r, s: ops.divc(s, r.args[1] + 7, 8), length(0))]),
        ("counter length", named("CTR", "new", "set_counter"), [(GE, lambda r, s: atom(r, s, "cbits"), lambda r, s: times(bs(r, s), 8))]),
        ("IV length", lambda fn, a: a in ("CBC", "CFB", "OFB") and fn["name"] == "set_iv" and not fn.get("trait"), [(EQ, bs, length(1))]),
        ("IV length", lambda fn, a: a in ("CBC", "CFB", "OFB") and fn["name"] in ("new", "update_iv") and not fn.get("trait"), [(EQ, bs, lambda r, s: drawn(r, s))]),
        ("segment size", named("CFB", "new"), [(GE, lambda r, s: ops.divc(s, r.args[3], 8), 1), (GE, bs, lambda r, s: ops.divc(s, r.args[3], 8)),
                                               (EQ, lambda r, s: ops.rem(s, r.args[3], 8), 0)]),
        ("ciphertext length", lambda fn, a: a in ("CBC", "ECB") and fn.get("tname") == "Cipher" and fn["name"] == "decrypt", [(MULT, length(2), bs)]),
    ]
    for ty, n in BLOCKS.items():
        t.append(("block length", lambda fn, a, ty=ty: a == ty and fn.get("tname") == "Cipher" and fn["name"] in ("encrypt", "decrypt"), [(EQ, length(2), n)]))
    return t


def times(x, k):
    return None if x is None else x.scale(k)


def width(run, s):
    """the permutation width: what the accessor returns"""
    for f in local_fns(run.prog):
        if f["name"] == "widths" and f.get("self") == run.fn["in"][0]:
            st = run.entry.copy()
            ref = run.I.alloc(st, run.args[0], run.fn["in"][0])
            vs = run.I.run_fn(f, [ref], st, {}, None)
            return vs[0][1] if len(vs) == 1 else None
    return None


def drawn(run, s):
    """length of the IV the generator has just produced"""
    c = {x for e in s.facts.ge + s.facts.eq + tuple(s.facts.ne) for x in walk(e) if isinstance(x, T) and x.op == "len" and isinstance(x.args[0], T) and x.args[0].op == "freshiv"}
    return Lin.atom(c.pop()) if len(c) == 1 else None


def val(f, run, s):
    return f(run, s) if callable(f) else f if isinstance(f, Lin) else Lin(f)


# ---- deciding ---------------------------------------------------------------------------

def holds(run, s, c):
    """True | False | None (cannot be expressed on this path)"""
    x = val(c[1], run, s)
    if x is None:
        return None
    if c[0] == IN:
        st = c[2]
        hi = max(st)
        if not s.facts.entails_ge(Lin(hi) - x):
            return False
        return all(v in st or excl(s, x - v) for v in range(0, hi))
    y = val(c[2], run, s)
    if y is None:
        return None
    if c[0] == EQ:
        return s.facts.entails_eq(x - y)
    if c[0] == GE:
        return s.facts.entails_ge(x - y)
    if c[0] == MULT:
        if s.facts.entails_eq(ops.rems(s, x, y)) or s.facts.entails_eq(x):
            return True
        at = {a for a, _ in x.t}
        if any(isinstance(z, T) and z.op in ("mul", "chunks", "call") and any(w in at for w in walk(z)) and any(a in set(walk(z)) for a, _ in y.t) for e in s.facts.ge + s.facts.eq for z in walk(e)):
            return None
        return False


def excl(s, e):
    """e = 0 is impossible on the path"""
    return s.facts.entails_ne(e) or refuted(s, [("eq", e)])


def refuted(s, conj):
    f = s.facts.copy()
    for k, e in conj:
        if e.const is not None:
            if (k == "eq" and e.c != 0) or (k == "ge" and e.c < 0):
                return True
            continue
        (f.add_eq if k == "eq" else f.add_ge)(e)
    return f.infeasible() or any(f.entails_eq(e) for e in f.ne)


def possible(run, s, conds):
    """the conditions may all hold on the path (so it must not be a rejection)"""
    base, sets = [], []
    for c in conds:
        x = val(c[1], run, s)
        y = None if c[0] == IN else val(c[2], run, s)
        if x is None or (c[0] != IN and y is None):
            return False
        if c[0] == IN:
            sets.append((x, c[2]))
        elif c[0] == EQ:
            base.append(("eq", x - y))
        elif c[0] == GE:
            base.append(("ge", x - y))
        elif c[0] == MULT:
            base.append(("eq", ops.rems(s, x, y)))
    if not sets:
        return not refuted(s, base)
    x, vs = sets[0]
    return any(not refuted(s, base + [("eq", x - v)]) for v in sorted(vs))


def accepted(v):
    """True: a value delivered; False: refused; None: not told apart"""
    n = adt_last(v)
    if n == "Result":
        return v.var == 0
    if n == "Option":
        return v.var == 1
    return None


def foreign(I, s, v):
    """an error handed up from a call whose inside is not followed"""
    return any(isinstance(x, T) and (x.op == "err" or x.op == "call" and "into" not in str(x.args[0])) for x in walk(I.freeze(s, v)))


def check(progs, rep):
    rep.rule("wrong-accepted", "every path that delivers a result has established the size or parameter condition")
    rep.rule("right-rejected", "no path that refuses is compatible with the condition being met")
    rep.rule("aborts", "no constructor or setter ends in a panic where it has to refuse")
    tab = table()
    for cfg, prog in both(progs):
        used = [0] * len(tab)
        for fn in local_fns(prog):
            a = self_adt(prog, fn)
            if a is None or (cfg != "A" and "aes" not in fn["d"]):
                continue
            last = a["n"].split("::")[-1]
            for i, (what, match, conds) in enumerate(tab):
                if match(fn, last):
                    used[i] += 1
                    one(rep, prog, fn, a, what, conds)
        if cfg == "A":
            for i, n in enumerate(used):
                rep.check(n > 0, "anchor:%d" % i, "operation with a %s found" % tab[i][0])
        sizes(rep, prog, cfg)


def prep(run):
    run.I.split = 24
    run.I.unroll = 20


def one(rep, prog, fn, a, what, conds):
    r = []
    if guarded(lambda: r.append(Run(prog, fn, P5(prog, (a["d"],)), prep))):
        run = attempt(rep, prog, fn, P5(prog, (a["d"],)))
        if run is None:
            return
    else:
        run = r[0]
    why = guarded(lambda: decide(rep, run, fn, what, conds))
    if why:
        rep.notes.setdefault("undecided", []).append("%s: %s" % (fn["n"], why))
        rep.obl += 1


def decide(rep, run, fn, what, conds):
    I = run.I
    got = False
    for s, v in run.outs:
        ok = accepted(v)
        if ok is None:
            rep.notes.setdefault("undecided", []).append("%s: outcome not told apart" % fn["n"])
            rep.obl += 1
            continue
        if ok:
            got = True
            for n, c in enumerate(conds):
                h = holds(run, s, c)
                if h is None and what != "ciphertext length":
                    h = False
                if h is None:
                    rep.notes.setdefault("undecided", []).append("%s: %s" % (fn["n"], what))
                    rep.obl += 1
                    continue
                rep.check(h, "wrong-accepted:%s:%s:%d" % (fn["n"], what, n), "%s: %s on success" % (fn["n"], what), where(fn),
                          "%s can succeed although the %s does not satisfy its condition %s" % (fn["n"], what, text(run, s, c)))
        elif not foreign(I, s, v) and not extra(run, s, fn):
            rep.check(not possible(run, s, conds), "right-rejected:%s:%s" % (fn["n"], what), "%s: %s on refusal" % (fn["n"], what), where(fn),
                      "%s can refuse although the %s satisfies %s" % (fn["n"], what, " and ".join(text(run, s, c) for c in conds)))
    if not fn.get("trait"):
        aborts(rep, run, fn, what)
    rep.check(got, "accepts:%s:%s" % (fn["n"], what), "%s can succeed" % fn["n"], where(fn), "%s never succeeds" % fn["n"])


def aborts(rep, run, fn, what):
    """a value that is to be refused must not end in an abort instead"""
    bad = {}
    for (file, line, kind, at), v in run.I.panics.items():
        if kind in ("assert:null", "assert:align"):
            continue
        if any(x in v[0][0] for x in ("mu(", "pr(")):    # what a loop does to its variables is decided elsewhere
            rep.notes.setdefault("undecided", []).append("%s: %s" % (fn["n"], v[0][0][:160]))
            rep.obl += 1
            continue
        bad.setdefault((at, kind), (file, line, v[0][0]))
    if not bad:
        rep.hold("%s: no abort instead of a refusal" % fn["n"])
    for (at, kind), (file, line, why) in sorted(bad.items()):
        rep.violation("aborts:%s:%s:%s" % (fn["n"], what, kind), "%s can abort at %s:%d in %s (%s) instead of refusing the %s: not established there: %s" % (fn["n"], rel(file), line, at, kind, what, why[:160]),
                      "%s:%d in %s" % (rel(file), line, at))


def extra(run, s, fn):
    """refusals for a reason that is not a size: the padding scheme or an IV generator of another length"""
    return any(isinstance(x, T) and x.op in ("pad", "freshiv", "unpad", "D") for e in s.facts.ge + s.facts.eq + tuple(s.facts.ne) for x in walk(e)) and fn["name"] in ("new", "decrypt") and self_adt(run.prog, fn)["n"].split("::")[-1] in ("CFB", "CBC", "ECB")


def text(run, s, c):
    x = val(c[1], run, s)
    if c[0] == IN:
        st = sorted(c[2])
        return "%s in %s" % (show(x) if x is not None else "?", st if len(st) < 20 else "%d..%d" % (st[0], st[-1]))
    y = val(c[2], run, s)
    return "%s %s %s" % (show(x)[:80] if x is not None else "?", {EQ: "=", GE: ">=", MULT: "multiple of"}[c[0]], show(y)[:80] if y is not None else "?")


# ---- messages that fit the modulus ---------------------------------------------------------

def sizes(rep, prog, cfg):
    if cfg != "A":
        return
    for fn in local_fns(prog):
        a = self_adt(prog, fn)
        if a is None or fn.get("tname") != "Cipher" or fn["name"] != "encrypt" or "::rsa::" not in fn["d"]:
            continue
        run = attempt(rep, prog, fn, P5(prog, (a["d"],)))
        if run is None:
            continue
        I = run.I
        n = I.seq(run.entry, run.args[2]).len
        oaep = any(isinstance(x, T) and x.op == "dbits" for s, _ in run.ok() for e in s.facts.ge for x in walk(e))
        for s, v in run.ok():
            if s.facts.entails_eq(n):
                continue
            ks = modlen(run, s)
            need = Lin(11)
            if oaep:
                h = {x for e in s.facts.ge for x in walk(e) if isinstance(x, T) and x.op == "div" and any(isinstance(y, T) and y.op == "dbits" for y in walk(x.args[0]))}
                need = None
                for x in h:
                    if any(s.facts.entails_ge(k - Lin.atom(x).scale(2) - 2 - n) for k in ks):
                        need = Lin.atom(x).scale(2) + 2
                if need is None:
                    need = Lin(10 ** 9)
            rep.check(any(s.facts.entails_ge(k - need - n) for k in ks), "message:%s" % fn["n"], "%s: message fits the modulus" % fn["n"], where(fn),
                      "%s can succeed for a message longer than the modulus allows" % fn["n"])
