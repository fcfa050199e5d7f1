"""What a mode of operation emits: the output as a sequence of emissions, each a formula over the
cipher, the chaining value and the message bytes it consumes."""
from .absorb import *
from .c02 import P
from engine.terms import plen

MODES = ("ECB", "CBC", "CFB", "OFB", "CTR")
AT = T("at")


def seqof(I, st, v):
    """the bytes a value or a reference stands for"""
    if isinstance(v, Seq):
        return v
    if isinstance(v, Ref):
        r = I.load(st, v, I.refty(v))
        if isinstance(r, Ref):
            return seqof(I, st, r)
        if isinstance(r, Seq):
            return r
    raise Shape("not a sequence: %s" % show(v)[:80])


class Em:
    """one emission: the piece appended, the iteration path it belongs to, the facts there"""
    def __init__(self, st, piece, loop=None, path=0, blocks=None):
        self.st, self.piece, self.loop, self.path, self.blocks = st, piece, loop, path, blocks


class Seg:
    """one: a single emission; loop: the emissions of each path through the body"""
    def __init__(self, kind, ems, loop=None, d=None, span=None):
        self.kind, self.ems, self.loop, self.d, self.span = kind, ems, loop, d, span


def unpadded(st, s):
    """the sequence before its padding was taken off again"""
    out, was = [], False
    for q in s.p:
        t = unlin(q[3]) if q[0] == "src" and isinstance(q[3], Lin) else None
        if isinstance(t, T) and t.op == "unpadlen":
            inner = t.args[1]
            src = q[1].args[0] if q[1].op == "seq" else None
            if src is inner or len(inner.p) == 1 and inner.p[0][0] == "src" and inner.p[0][1] is q[1]:
                if st.facts.entails_eq(q[2] - (inner.p[0][2] if src is None else ZERO)):
                    out += inner.p
                    was = True
                    continue
        out.append(q)
    return Seq(out), was


def segs(I, st, v, depth=0):
    if depth > 12:
        raise Shape("too many loops")
    v, _ = unpadded(st, v)
    out = []
    for q in flat(st, v).p:
        if q[0] == "src" and q[1].op == "app" and q[1] in I.mudef:
            d = I.mudef[q[1]]
            h, backs = d["states"]
            out.append(Seg("loop", [Em(b, Seq(e.p), d["loop"], i) for i, (b, e) in enumerate(zip(backs, d["each"]))], d["loop"], d, q))
        elif q[0] == "src" and q[1].op == "mu" and q[1] in I.mudef and isinstance(I.mudef[q[1]]["init"], Seq):
            d = I.mudef[q[1]]
            h, backs = d["states"]
            ln = Lin.atom(T("len", q[1]))
            if not st.facts.entails_eq(q[2]) or not st.facts.entails_eq(q[3] - ln):
                raise Shape("part of what a loop wrote: %s" % show(Seq((q,)))[:100])
            out += segs(I, st, d["init"], depth + 1)
            ems = []
            for i, (b, y) in enumerate(zip(backs, d["backs"])):
                if not isinstance(y, Seq) or not y.p or y.p[0][0] != "src" or y.p[0][1] is not q[1] or not b.facts.entails_eq(y.p[0][2]) or not b.facts.entails_eq(y.p[0][3] - ln):
                    raise Shape("a loop that does not append: %s" % show(y)[:100])
                ems.append(Em(b, Seq(y.p[1:]), d["loop"], i))
            out.append(Seg("loop", ems, d["loop"], d, q))
        elif q[0] == "src" and q[1].op == "blocks":
            lam, w = q[1].args
            out.append(Seg("blocks", [Em(st, inst(lam, Lin.atom(AT)))], None, {"w": w}, q))
        else:
            out.append(Seg("one", [Em(st, Seq((q,)))], None, None, q))
    return out


def xors(st, s):
    """s = a xor b elementwise -> (a, b)"""
    s = flat(st, s)
    if len(s.p) != 1 or s.p[0][0] != "src" or s.p[0][1].op != "map":
        return None
    b = unlin(inst(s.p[0][1].args[0], Lin.atom(T("xat"))))
    if not isinstance(b, T) or b.op != "^" or len(b.args) != 2:
        return None
    return operands(s.p[0])


def ciphered(st, s):
    """a slice of one cipher result -> (direction, cipher, its input, offset, length)"""
    s = flat(st, s)
    if len(s.p) == 1 and s.p[0][0] == "src" and s.p[0][1].op in ("E", "D"):
        t = s.p[0][1]
        return t.op, t.args[0], t.args[1], s.p[0][2], s.p[0][3]
    return None


class Formula:
    """reads one emission as the mode's formula; .reg chaining value in, .next chaining value out, .x bytes consumed"""
    def __init__(self, I, mode, enc, em, unit, bs, leaf):
        self.leaf = leaf
        self.I, self.em, self.st = I, em, em.st
        st = em.st
        self.reg = self.next = None
        want = "D" if mode in ("ECB", "CBC") and not enc else "E"
        s = flat(st, em.piece)
        n = s.len
        if mode == "ECB" or mode == "CBC" and enc:
            c = ciphered(st, s)
            if c is None:
                self.wrong(s, "an emission that is not the cipher's result")
            self.direction(c[0], want)
            if not st.facts.entails_eq(c[3]) or not st.facts.entails_eq(c[4] - bs):
                raise Differ("emits %s bytes from %s of a cipher result" % (show(c[4])[:60], show(c[3])[:40]))
            if mode == "ECB":
                self.x = c[2]
                self.message(c[2], "the cipher input")
                return
            ab = xors(st, c[2])
            if ab is None:
                for q in flat(st, c[2]).p:
                    if q[0] == "src" and message(q[1]) and not st.facts.entails_eq(q[3]):
                        raise Differ("the cipher input %s is not combined with a chaining value" % show(Seq((q,)))[:120])
                raise Shape("cipher input %s" % show(c[2])[:100])
            self.reg, self.x = self.split(ab)
            self.next = s
            return
        ab = xors(st, s)
        if ab is None:
            c = ciphered(st, s)
            if c is not None:
                self.direction(c[0], want)
                raise Differ("emits the cipher's result itself")
            self.wrong(s, "an emission of the form %s" % show(s)[:100])
        cs = [ciphered(st, x) for x in ab]
        if (cs[0] is None) == (cs[1] is None):
            if cs[0] is None:
                # the cipher result went through a loop
                raise Shape("emits %s" % show(s)[:100])
            # chained cipher results: the other operand is the chaining value
            raise Shape("two cipher results")
        k = 0 if cs[0] is not None else 1
        c, other = cs[k], ab[1 - k]
        self.direction(c[0], want)
        if not st.facts.entails_eq(c[3]):
            if st.facts.entails_ge(c[3] - 1):
                raise Differ("uses the cipher's result from position %s" % show(c[3])[:60])
            raise Shape("cipher result from %s" % show(c[3])[:60])
        if mode == "CBC":
            self.reg, self.x = other, c[2]
            self.message(self.x, "the cipher input")
            self.next = c[2]
            return
        self.x = other
        self.message(other, "what is combined with the keystream")
        self.reg = c[2]
        full = Seq((("src", T(c[0], c[1], c[2]), ZERO, bs),))
        if mode == "OFB":
            self.next = full
        elif mode == "CFB":
            fb = s if enc else other
            rest = seq_slice(st, c[2], n, c[2].len - n)
            self.next = rest + fb
        elif mode == "CTR":
            self.next = None

    def direction(self, got, want):
        if got != want:
            raise Differ("uses the %s direction of the cipher" % {"E": "encryption", "D": "decryption"}[got])

    def wrong(self, s, what):
        for q in s.p:
            if q[0] == "src" and message(q[1]):
                raise Differ("message bytes are emitted as they are: %s" % show(Seq((q,)))[:100])
        raise Shape(what + ": %s" % show(s)[:80])

    def message(self, s, what):
        for q in flat(self.st, s).p:
            if q[0] != "src":
                raise Shape("%s holds constants" % what)
            if q[1].op in ("E", "D", "map"):
                raise Differ("%s is not message bytes: %s" % (what, show(Seq((q,)))[:100]))
            if not message(q[1]):
                raise Shape("%s is %s" % (what, show(Seq((q,)))[:80]))

    def split(self, ab):
        """(chaining value, message)"""
        m = [all(q[0] == "src" and message(q[1]) for q in flat(self.st, x).p) for x in ab]
        if m == [True, False]:
            return ab[1], ab[0]
        if m == [False, True]:
            return ab[0], ab[1]
        if m == [True, True]:
            # the configured initial vector is a field of the object as well
            for a, b in ((0, 1), (1, 0)):
                if mentions(ab[a], self.leaf):
                    return ab[a], ab[b]
        raise Shape("cannot tell the chaining value in %s" % " ^ ".join(show(x)[:60] for x in ab))


def message(t):
    """bytes of the caller's message, of the pending remainder, or padding"""
    if t.op == "seq":
        return all(q[0] != "src" or message(q[1]) for q in t.args[0].p)
    if t.op == "pad":
        return True
    return plain(t)


class Walk:
    """follows the chaining value through the emissions of one output"""
    def __init__(self, I, st, mode, enc, unit, bs, reg, leaf=(), old=None):
        self.leaf, self.old = leaf, old
        self.I, self.st, self.mode, self.enc, self.unit, self.bs = I, st, mode, enc, unit, bs
        self.cur = reg
        self.xs = []
        self.n = 0
        self.tails = []

    def run(self, v):
        ss = segs(self.I, self.st, v)
        if self.old is not None:
            # what earlier calls left to be collected comes first
            if ss and ss[0].kind == "one" and mentions(ss[0].ems[0].piece, roots(self.old)):
                match(self.I, self.st, ss.pop(0).ems[0].piece, self.old)
            elif not self.st.facts.entails_eq(self.old.len):
                raise Differ("output not collected yet is dropped")
        for s in ss:
            self.seg(s)

    def seg(self, s):
        I = self.I
        fs = []
        for em in s.ems:
            if not em.piece.p:
                fs.append(None)
                continue
            pieces = flat(em.st, em.piece)
            if len(pieces.p) > 1 and s.kind == "one":
                raise Shape("several pieces")
            fs.append(Formula(I, self.mode, self.enc, em, self.unit, self.bs, self.leaf))
        self.n += len([f for f in fs if f is not None])
        if not any(fs):
            return
        if s.kind == "one":
            f = fs[0]
            self.chain1(f)
            self.xs.append(f.x)
            return
        if s.kind == "blocks":
            f = fs[0]
            w = s.d["w"]
            self.xs.append(self.moved(s, f, w))
            if f.reg is not None or self.mode == "CTR":
                if self.mode == "CBC" and not self.enc:
                    self.previous(f, None)
                    self.cur = last(self.xs[-1], self.bs)
                    return
                raise Differ("the chaining value %s is the same for every block" % show(f.reg)[:100])
            return
        self.xs.append(self.consumed(s, fs))
        self.chain(s, fs)

    # -- chaining value --
    def chain1(self, f):
        if self.mode == "ECB":
            return
        if self.mode == "CTR":
            self.counter(f, self.cur)
            self.cur = T("ctr+", self.cur)
            return
        match(self.I, self.st, f.reg, self.cur)
        self.cur = f.next

    def counter(self, f, cur):
        s = flat(f.st, f.reg)
        if len(s.p) != 1 or s.p[0][0] != "src" or s.p[0][1].op != "ctrval":
            raise Differ("the cipher input is not a counter value: %s" % show(s)[:100])
        c = s.p[0][1].args[0]
        if c is not cur:
            raise Differ("encrypts the counter value at %s instead of %s" % (show(c)[:80], show(cur)[:80]))
        self.tails.append((f, s.p[0]))

    def chain(self, s, fs):
        if self.mode == "ECB":
            return
        I = self.I
        live = [(i, f) for i, f in enumerate(fs) if f is not None]
        if self.mode == "CTR":
            self.loop_counter(s, live)
            return
        roots = set()
        for i, f in live:
            roots.add(loopvar(I, f.st, f.reg, s.loop))
        if len(roots) == 1 and None not in roots:
            m = roots.pop()
            d = I.mudef[m]
            match(I, self.st, seqof(I, self.st, d["init"]), self.cur)
            h, backs = d["states"]
            for i, b in enumerate(backs):
                got = d["backs"][i]
                if got is None:
                    raise Shape("chaining value lost")
                if i < len(fs) and fs[i] is not None:
                    match(I, b, seqof(I, b, got), fs[i].next)
                else:
                    raise Shape("an iteration that emits nothing")
            f = live[0][1]
            self.cur = Seq((("src", f.reg.p[0][1] if len(f.reg.p) == 1 else flat(f.st, f.reg).p[0][1], ZERO, self.bs),))
            return
        if self.mode == "CBC" and not self.enc:
            for i, f in live:
                self.previous(f, s)
            self.cur = last(self.xs[-1], self.bs)
            return
        for i, f in live:
            if not any(t.op in ("mu", "pr", "app") and I.mudef.get(t, {}).get("loop") == s.loop for t in walk(f.reg) if isinstance(t, T)):
                raise Differ("the chaining value %s is the same in every iteration" % show(f.reg)[:100])
        raise Shape("chaining value %s" % show(live[0][1].reg)[:100])

    def previous(self, f, s):
        """CBC decryption reading the previous ciphertext block from the input itself"""
        x = flat(f.st, f.x)
        r = flat(f.st, f.reg)
        if len(x.p) == 1 and len(r.p) == 1 and x.p[0][0] == r.p[0][0] == "src" and x.p[0][1] is r.p[0][1] and f.st.facts.entails_eq(x.p[0][2] - self.bs - r.p[0][2]):
            return
        if len(x.p) == 1 and x.p[0][0] == "src" and f.st.facts.entails_eq(x.p[0][2]):
            match(self.I, f.st, f.reg, self.cur)
            return
        if len(r.p) == 1 and r.p[0][0] == "src" and (plain(r.p[0][1]) or r.p[0][1].op in ("E", "D")):
            raise Differ("chaining value %s is not the previous ciphertext block" % show(r)[:100])
        raise Shape("chaining value %s" % show(r)[:100])

    def loop_counter(self, s, live):
        I = self.I
        cs = set()
        for i, f in live:
            q = flat(f.st, f.reg)
            if len(q.p) != 1 or q.p[0][0] != "src" or q.p[0][1].op != "ctrval":
                raise Differ("the cipher input is not a counter value: %s" % show(q)[:100])
            cs.add(q.p[0][1].args[0])
            self.tails.append((f, q.p[0]))
        if len(cs) != 1:
            raise Shape("counter states")
        m = cs.pop()
        d = I.mudef.get(m)
        if d is None or d["loop"] != s.loop:
            raise Differ("the counter value %s is the same in every iteration" % show(m)[:80])
        i0 = unlin(d["init"])
        if i0 is not self.cur:
            raise Differ("counting starts at %s instead of %s" % (show(i0)[:80], show(self.cur)[:80]))
        for i, f in live:
            b = unlin(d["backs"][i])
            if b is not T("ctr+", m):
                raise Differ("the next counter state is %s" % show(b)[:80])
        self.cur = m

    # -- message --
    def moved(self, s, f, w):
        x = flat(f.st, f.x)
        if len(x.p) != 1 or x.p[0][0] != "src":
            raise Shape("loop over %s" % show(x)[:80])
        _, src, off, n = x.p[0]
        k = dict(off.t).get(AT)
        if k is None:
            raise Differ("every iteration processes the same bytes %s" % show(x)[:80])
        if k != 1 or not f.st.facts.entails_eq(w - n):
            raise Differ("steps of %s over parts of %s bytes" % (show(w)[:60], show(n)[:60]))
        return Seq((("src", src, off - Lin.atom(AT) + s.span[2], s.span[3]),))

    def consumed(self, s, fs):
        I = self.I
        src = o = None
        var = None
        for em, f in zip(s.ems, fs):
            if f is None:
                continue
            x = f.x if len(f.x.p) == 1 and f.x.p[0][0] == "src" else flat(f.st, f.x)
            if len(x.p) != 1 or x.p[0][0] != "src":
                raise Shape("loop over %s" % show(x)[:80])
            _, t, off, n = x.p[0]
            own = [a for a, _ in off.t if I.mudef.get(a, {}).get("loop") == s.loop]
            if not own:
                raise Differ("every iteration processes the same bytes %s" % show(x)[:80])
            if len(own) != 1:
                raise Shape("loop position %s" % show(off)[:80])
            if src is not None and (src is not t or off != o):
                raise Shape("different positions on different paths")
            src, o, var = t, off, own[0]
            d = I.mudef[var]
            k = dict(off.t)[var]
            if "d" in d:
                step = d["d"].scale(k)
            else:
                b = d["backs"][em.path]
                if not isinstance(b, Lin):
                    raise Shape("loop position")
                step = (b - Lin.atom(var)).scale(k)
            if not f.st.facts.entails_eq(step - n):
                raise Differ("a step of %s over %s bytes" % (show(step)[:80], show(n)[:80]))
        d = I.mudef[var]
        k = dict(o.t)[var]
        i0 = ZERO if "d" in d else d["init"]
        start = o - Lin.atom(var, k) + i0.scale(k)
        return Seq((("src", src, start, o - start),))


def last(x, bs):
    if len(x.p) != 1 or x.p[0][0] != "src":
        raise Shape("last block of %s" % show(x)[:60])
    _, t, off, n = x.p[0]
    return Seq((("src", t, off + n - bs, bs),))


def loopvar(I, st, s, loop):
    """the loop variable that a sequence is, whole"""
    s = flat(st, s)
    if len(s.p) != 1 or s.p[0][0] != "src" or not st.facts.entails_eq(s.p[0][2]):
        return None
    t = s.p[0][1]
    for c in (t, t.args[0] if t.op == "*" else None):
        d = I.mudef.get(c) if c is not None else None
        if d is not None and c.op == "mu" and d["loop"] == loop:
            return c
    return None


# ---- the parts of a mode object and of its streams ---------------------------------

class Mode:
    """where a mode object keeps its cipher, initial vector or counter, and segment length"""
    def __init__(self, rep, prog, name):
        self.name, self.prog = name, prog
        self.adt = next((a for a in prog.adts.values() if a["local"] and a["n"].split("::")[-1] == name), None)
        if self.adt is None:
            return
        self.iv = self.s = self.cipher = self.counter = None
        for i, f in enumerate(self.adt["vars"][0]["f"]):
            t = prog.tys[f["t"]]
            if t["k"] == "adt" and t["n"].split("<")[0].endswith("Vec"):
                self.iv = (i,)
            elif t["k"] == "uint":
                self.s = (i,)
        for f in local_fns(prog):
            a = self_adt(prog, f)
            if a is not self.adt or f.get("tname") != "Cipher":
                continue
            if f["name"] == "block_size":
                r = attempt(rep, prog, f, P(prog))
                if r is not None:
                    for s, v in r.outs:
                        for t in walk(v):
                            if isinstance(t, T) and t.op == "bs":
                                self.cipher = path_of(r, t.args[0])
            elif f["name"] == "encrypt" and name == "CTR":
                r = attempt(rep, prog, f, P(prog))
                if r is not None:
                    for s, v in r.outs:
                        for e in deep(s.events()):
                            if e.kind == "counter":
                                t = e.args[0]
                                while t in r.I.mudef:
                                    t = unlin(r.I.mudef[t]["init"])
                                self.counter = path_of(r, t)

    def prep(self, pre=()):
        """what the constructor established about the lengths"""
        def go(run):
            lv = dict(leaves(run.self_after(run.st)))
            st, I = run.st, run.I
            ct = unlin(lv[pre + self.cipher])
            run.ct = ct
            run.bs = I.pol.bs(I, st, ct)
            run.unit = run.bs
            if self.s is not None:
                s = lv[pre + self.s]
                st.facts.add_ge(s - 1)
                st.facts.add_ge(run.bs - s)
                run.unit = s
            if self.iv is not None:
                st.facts.add_eq(lv[pre + self.iv].len - run.bs)
            run.lv = lv
        return go


def deep(evs):
    for e in evs:
        yield e
        if e.kind == "loop":
            for b in e.x["backs"]:
                yield from deep(b)


def path_of(run, t):
    """path of the leaf named by a term fld(...(*(self))...)"""
    p = ()
    while isinstance(t, T) and t.op == "fld":
        p = (t.args[2],) + p
        t = t.args[0]
    return p


def root_counter(I, t):
    while t in I.mudef:
        t = unlin(I.mudef[t]["init"])
    return t


def pure(st, s):
    """a sequence that is one source from its start"""
    s = flat(st, s)
    return s.p[0][1] if len(s.p) == 1 and s.p[0][0] == "src" and st.facts.entails_eq(s.p[0][2]) else None


def pads(st, enc, name):
    """the padding calls of one path; a padded mode pads every message once"""
    ev = [e for e in deep(st.events()) if e.kind == "pad" and e.name == ("pad" if enc else "unpad")]
    if name in ("ECB", "CBC", "CFB"):
        if not ev:
            raise Differ("a message is not padded" if enc else "the padding is not taken off")
        if len(ev) > 1:
            raise Shape("several padding calls")
    return ev


def gap(run, st, a, b):
    """bytes known to be fewer than a segment, that nothing makes none"""
    for g, what in ((b.len - a.len, "up to a segment of the message is left out: %s bytes of %s"), (a.len - b.len, "more bytes than the message has: %s of %s")):
        if not st.facts.entails_eq(g) and st.facts.entails_ge(g) and st.facts.entails_ge(run.unit - 1 - g):
            raise Differ(what % (show(a.len)[:120], show(b.len)[:120]))


class Stream:
    """a stream over a mode: where it keeps its mode, pending input, output and chaining value"""
    def __init__(self, rep, prog, m, adt, enc, ops):
        self.prog, self.m, self.adt, self.enc, self.ops = prog, m, adt, enc, ops
        self.pre = self.find(adt, ())
        self.data = self.ij = self.pond = None
        self.made = []
        self.bound = None
        if self.pre is None:
            return
        for f in ops:
            r = attempt(rep, prog, f, P(prog), prep=m.prep(self.pre))
            if r is None:
                return
            for s, v in r.ok():
                for x in subvals(v):
                    if isinstance(x, Ref) and x.obj == r.args[0].obj:
                        self.pond = tuple(y for y in x.path if isinstance(y, int))
        for c in ctors(prog, adt):
            r = attempt(rep, prog, c, P(prog))
            if r is None:
                continue
            for s, v in r.outs:
                if isinstance(v, Agg):
                    self.made.append((c, v, s, r))
                    for p, x in leaves(v):
                        if isinstance(x, Seq) and p[:len(self.pre)] != self.pre and p != self.pond:
                            if s.facts.entails_eq(x.len):
                                self.data = p
                            else:
                                self.ij = p
        self.holds(rep)

    def find(self, adt, p):
        if adt["d"] == self.m.adt["d"]:
            return p
        for i, f in enumerate(adt["vars"][0]["f"]):
            t = self.prog.tys[f["t"]]
            if t["k"] == "adt" and t["d"] in self.prog.adts and self.prog.adts[t["d"]]["local"]:
                r = self.find(self.prog.adts[t["d"]], p + (i,))
                if r is not None:
                    return r
        return None

    def holds(self, rep):
        """least bound on the pending bytes that every operation keeps"""
        if self.data is None:
            return
        for k in (lambda r: r.unit - 1, lambda r: r.unit, lambda r: r.bs, lambda r: r.bs + r.unit - 1, lambda r: r.bs + r.unit):
            self.bound = k
            good = True
            for f in self.ops:
                r = self.run(rep, f)
                if r is None:
                    good = False
                    break
                for s, v in r.ok():
                    d = dict(leaves(r.self_after(s))).get(self.data)
                    if not isinstance(d, Seq) or not s.facts.entails_ge(k(r) - d.len):
                        good = False
            if good:
                return
        self.bound = None

    def run(self, rep, f):
        memo = self.__dict__.setdefault("memo", {})
        k = (f["d"], self.bound)
        if k not in memo:
            base = self.m.prep(self.pre)

            def prep(run):
                base(run)
                if self.ij is not None:
                    run.st.facts.add_eq(run.lv[self.ij].len - run.bs)
                if self.bound is not None:
                    run.st.facts.add_ge(self.bound(run) - run.lv[self.data].len)
            memo[k] = attempt(rep, self.prog, f, P(self.prog), prep=prep)
        return memo[k]

    def register(self, run):
        if self.m.name == "ECB":
            return None
        if self.m.name == "CTR":
            return unlin(run.lv[self.pre + self.m.counter])
        return run.lv[self.ij]

    def pond_after(self, run, st):
        return dict(leaves(run.self_after(st)))[self.pond], run.lv[self.pond]

    def left(self, run, st, f, w):
        """the chaining value a write leaves is the one after its last piece"""
        if f["name"] != "write" or self.m.name == "ECB":
            return
        lv = dict(leaves(run.self_after(st)))
        if self.m.name == "CTR":
            t = unlin(lv[self.pre + self.m.counter])
            if t is not w.cur:
                raise Differ("the counter is left at %s instead of %s" % (show(t)[:80], show(w.cur)[:80]))
            return
        match(run.I, st, lv[self.ij], w.cur)


def subvals(v):
    yield v
    if isinstance(v, Agg):
        for x in v.f:
            yield from subvals(x)


def ctors(prog, adt):
    for f in local_fns(prog):
        o = prog.tys[f["out"]]
        if o["k"] == "adt" and o["d"] == adt["d"] and f.get("tname") not in ("Clone",):
            yield f


def streams(rep, prog, m):
    memo = prog.__dict__.setdefault("_streams", {})
    if m.name not in memo:
        by = {}
        for f in local_fns(prog):
            if f.get("tname") in ("EncryptStream", "DecryptStream") and f["name"] in ("write", "finish"):
                a = self_adt(prog, f)
                by.setdefault(a["d"], (a, f["tname"] == "EncryptStream", []))[2].append(f)
        r = []
        for a, enc, ops in by.values():
            s = Stream.__new__(Stream)
            s.prog, s.m = prog, m
            if s.find(a, ()) is not None:
                r.append(Stream(rep, prog, m, a, enc, ops))
        memo[m.name] = r
    return memo[m.name]
