"""C13: seeds, padding strings, salts, nonces, blinding factors, vectors and keys are fresh random output of full length."""
from .bigs import *
from .gates import wide, bytelen, deepwalk
from .c10 import plain_self
from .c02 import ctors_of
from .common import *
from engine.contracts import dig_steps
from engine.interp import Budget

DRAW = ("rnd", "rngs", "rand")
WORDS = (0, 1, 0x80, 0xff, 0x100, 0xff00, 0x01020304, 0x80402010, 0xdeadbeef, 0xffffffff, 0x12345678, 0x7f7f7f7f, 0x00ff00ff, 0xa5c3e187)


class Draws(Signs):
    """random iterators may end early; each draw of a random integer is a value of its own"""
    ending = True

    def __init__(self, prog):
        Signs.__init__(self, prog)
        self.points = set()
        for f in local_fns(prog):
            o = prog.tys[f["out"]]
            if o["k"] == "tuple" and o.get("e") and all(prog.tys[x].get("n", "").endswith("BigInt") for x in o["e"]) \
                    and not f.get("trait") and any("llipt" in prog.tys[prog_strip(prog, x)].get("d", "") for x in f["in"][:1]):
                self.points.add(f["d"])

    def inline(self, I, fn):
        return fn["d"] not in self.points and Signs.inline(self, I, fn)

    def call(self, I, fr, st, c, fn, args, rty, span):
        if c["n"] == BIG + "random":
            t = T("rand", big(I.freeze(st, args[0])), self.serial(I))
            st.event(Ev("rng", "random", (t,), None, span, fr.stack))
            return [(st, Sym(t, rty))]
        if c["n"] in (BIG + "exp", BIG + "mod_inverse") or c.get("tname") == "EllipticCurve" and c["name"] in ("scalar", "scalar_base_point"):
            st.event(Ev("power", c["name"], tuple(big(I.freeze(st, a)) for a in args), None, span, fr.stack))
        return Signs.call(self, I, fr, st, c, fn, args, rty, span)


def prog_strip(prog, t):
    while prog.tys[t]["k"] == "ref":
        t = prog.tys[t]["e"]
    return t


# ---- what was drawn --------------------------------------------------------------

def draws(v):
    return [x for x in walk(v) if isinstance(x, T) and x.op in DRAW]


def drawn(evs, out=None):
    """terms of the draws made by these events"""
    out = set() if out is None else out
    for e in evs:
        if e.kind == "rng":
            out.add(e.args[0])
        elif e.kind == "loop":
            for b in e.x["backs"]:
                drawn(b, out)
    return out


def inloops(evs, inside=False, out=None):
    out = set() if out is None else out
    for e in evs:
        if e.kind == "loop":
            for b in e.x["backs"]:
                inloops(b, True, out)
        elif e.kind == "rng" and inside:
            out.add(e.args[0])
    return out


def val(x, w, v):
    """the value of a byte expression when the word w is v"""
    if x is w:
        return v
    if isinstance(x, int):
        return x
    if isinstance(x, Lin):
        r = x.c
        for a, k in x.t:
            y = val(a, w, v)
            if y is None:
                return None
            r += k * y
        return r
    if not isinstance(x, T):
        return None
    if x.op == "elem" and isinstance(x.args[0], T) and x.args[0].op in ("be_bytes", "le_bytes", "ne_bytes"):
        b, k = x.args[0], x.args[1]
        k = k.const if isinstance(k, Lin) else k
        y = val(b.args[0], w, v)
        if y is None or k is None:
            return None
        n = b.args[1]
        n = n.const if isinstance(n, Lin) else n
        return (y >> (8 * (n - 1 - k) if b.op == "be_bytes" else 8 * k)) & 0xff
    xs = [val(a, w, v) for a in x.args]
    if any(y is None for y in xs):
        return None
    if x.op == "div" and xs[1]:
        return xs[0] // xs[1]
    if x.op == "&":
        return xs[0] & xs[1]
    if x.op == "|":
        return xs[0] | xs[1]
    if x.op == "^":
        return xs[0] ^ xs[1]
    if x.op == ">>" and 0 <= xs[1] < 64:
        return xs[0] >> xs[1]
    if x.op == "<<" and 0 <= xs[1] < 64:
        return (xs[0] << xs[1]) & 0xffffffff
    return None


def words(x):
    """the drawn words a byte is made of"""
    out = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, T) and (y.op == "elem" and isinstance(y.args[0], T) and y.args[0].op == "rngs" or y.op == "rnd"):
            out.add(y)
            continue
        if hasattr(y, "kids"):
            todo.extend(y.kids())
    return out


def byteof(x):
    """(word, position) of a byte that is one of the four bytes of a drawn word; None when it is something else of one; False when nothing was drawn"""
    ws = words(x)
    if not ws:
        return None if draws(x) else False
    if len(ws) > 1:
        return None
    w = next(iter(ws))
    if isinstance(x, T) and x.op == "elem" and isinstance(x.args[0], T) and x.args[0].op in ("be_bytes", "le_bytes", "ne_bytes") and x.args[0].args[0] in (w, Lin.atom(w)):
        return (w, x.args[1])
    if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        return byteof(x.t[0][0])
    vs = [val(x, w, v) for v in WORDS]
    if None in vs:
        return None
    for k in range(4):
        if all(y & 0xff == (v >> 8 * k) & 0xff for y, v in zip(vs, WORDS)):
            return (w, 24 - 8 * k)
    # fewer values than a byte has?
    seen = {val(x, w, (i * 0x01010101) & 0xffffffff) for i in range(256)} | {val(x, w, (i * 0x9e3779b1) & 0xffffffff) for i in range(4096)}
    return "%d of 256 values" % len(seen) if len(seen) < 200 else None


class Bad(Exception):
    pass


class Open(Exception):
    pass


class Region:
    """are all the bytes of a sequence distinct fresh draws?"""

    def __init__(self, I, st, nonzero=False, loose=False):
        self.I = I
        self.st = st
        self.nonzero = nonzero
        self.loose = loose
        self.looped = inloops(st.events())
        self.used = set()

    def byte(self, x, st, loops=()):
        r = byteof(x)
        if r is False:
            raise Bad("%s is not drawn from the random source" % brief(x))
        if isinstance(r, str) and not self.loose:
            raise Bad("%s keeps only %s of a drawn byte" % (brief(x), r))
        if self.loose:
            if not draws(x):
                raise Bad("%s is not drawn from the random source" % brief(x))
        elif r is None:
            raise Open("%s" % brief(x))
        elif r in self.used:
            raise Bad("the drawn byte %s is used twice" % brief(x))
        else:
            self.used.add(r)
        for lp, inner in loops:
            if not any(isinstance(y, T) and (y.op in ("pr", "mu") and y.args[0] == str(lp) or y in inner) for y in walk(x)):
                raise Bad("%s is the same in every iteration" % brief(x))
        if self.nonzero:
            s = st.copy()
            if s.assume(ops.eq0(ops.lin(x)), True) and not s.facts.infeasible():
                raise Bad("%s may be zero" % brief(x))

    def seq(self, s, st, loops=(), J=None):
        for p in s.p:
            self.piece(p, st, loops, J)

    def piece(self, p, st, loops=(), J=None):
        if p[0] == "lit":
            for x in p[1]:
                self.byte(x, st, loops)
                self.index(x, J)
            return
        if p[0] == "fill":
            if p[2].const == 0:
                return
            raise Bad("%s filled with %s" % (brief(p[2]), brief(p[1])))
        t = p[1]
        if t.op in ("be_bytes", "le_bytes", "ne_bytes"):
            for k in range(4):
                self.byte(T("elem", t, Lin(k)), st, loops)
            self.index(t, J)
            return
        if t.op == "seq":
            return self.seq(t.args[0], st, loops, J)
        if t.op == "blocks" and isinstance(t.args[0], T) and t.args[0].op == "lam":
            body = t.args[0].args[1]
            return self.seq(body, st, loops, t.args[0].args[0])
        if t.op in ("mu", "app"):
            return self.grown(t)
        if t.op in DRAW or draws(t):
            raise Open(brief(t))
        if t.op in ("*", "fld", "P", "sum", "i2os", "mask", "str") or t.op == "call":
            raise Bad("%s is not drawn from the random source" % brief(t))
        raise Open(brief(t))

    def index(self, x, J):
        """inside a repeated block the draws depend on the position or are made in a loop"""
        if J is None:
            return
        j = T("J", J)
        for w in words(x):
            if not any(y is j or y in self.looped for y in walk(w)):
                raise Bad("the word %s is used for every block" % brief(w))

    def grown(self, t):
        for base in self.grammar(t):
            if base.p:
                self.seq(base, self.st)

    def grammar(self, t):
        """checks everything the loops append to t and returns what they started with"""
        I = self.I
        bases = []
        seen = {}

        def go(t, loops):
            if t in seen:
                return
            seen[t] = True
            d = I.mudef.get(t)
            if d is None or not isinstance(d.get("init"), Seq):
                raise Open(brief(t))
            inner = set()
            for b in d["states"][1]:
                drawn(b.events(), inner)
            mine = loops + ((d["loop"], inner),)
            if t.op == "app":
                for y, b in zip(d["each"], d["states"][1]):
                    self.used = set()
                    self.seq(y, b, mine)
            else:
                for y, b in zip(d["backs"], d["states"][1]):
                    if not isinstance(y, Seq):
                        raise Open(brief(t))
                    self.used = set()
                    if not y.p:
                        continue
                    u = whole(y.p[0])
                    if u is None:
                        raise Open("%s rebuilt as %s" % (brief(t), brief(y)))
                    if u is not t:
                        go(u, mine)
                    self.seq(Seq(y.p[1:]), b, mine)
            i = d["init"]
            u = whole(i.p[0]) if i.p else None
            if u is not None and u.op in ("mu", "app") and u in I.mudef:
                self.used = set()
                self.seq(Seq(i.p[1:]), self.st, ())
                go(u, ())
            else:
                bases.append(i)

        def whole(p):
            if p[0] == "src" and isinstance(p[1], T) and p[1].op in ("mu", "app") and p[2] is ZERO:
                n = p[3]
                if len(n.t) == 1 and n.c == 0 and n.t[0][0].op == "len" and n.t[0][0].args[0] is p[1]:
                    return p[1]
            return None
        go(t, ())
        return bases


def brief(x):
    return show(x)[:80]


# ---- the operations ----------------------------------------------------------------

def check(progs, rep):
    rep.rule("seed", "the OAEP seed is as long as the digest and every byte of it is drawn during the operation")
    rep.rule("padding", "the PKCS#1 padding string fills the block, every byte is drawn during the operation and tested not to be zero")
    rep.rule("salt", "the PSS salt has the configured length and every byte of it is drawn during the operation")
    rep.rule("nonce", "the DSA nonce is a draw below the group order and not zero; the ECDSA nonce comes from a generator keyed with fresh entropy and is not zero")
    rep.rule("entropy", "the ECDSA entropy has the prescribed length and every byte of it is drawn during the operation")
    rep.rule("blinding", "with blinding enabled the factor is drawn during the operation")
    rep.rule("vector", "a generated vector has the block size and every byte of it is drawn during the operation")
    rep.rule("key", "every byte of a generated private key depends on draws, as many as prescribed")
    rep.rule("redraw", "a rejected candidate is drawn again before it is used again")
    for cfg, prog in progs.items():
        if cfg != "A":
            continue
        n = {}
        gens = {f["d"] for f in local_fns(prog) if keygen(prog, f)}
        for f in local_fns(prog):
            a = self_adt(prog, f)
            if a is None or f.get("intrait"):
                continue
            nm = a["n"].split("::")[-1]
            h = None
            if f.get("tname") == "Cipher" and f["name"] == "encrypt" and nm in ("OAEP", "PKCS1"):
                h = oaep if nm == "OAEP" else pkcs1
            elif f.get("tname") == "Signature" and f["name"] == "sign" and nm in ("PSS", "DSA", "ECDSA"):
                h = {"PSS": pss, "DSA": dsa, "ECDSA": ecdsa}[nm]
            elif f.get("tname") == "InitialVec" and f["name"] == "initial_vec":
                h = vector
            elif nm == "PrivateKey" and "::rsa::" in a["d"] and f["name"] == "decrypt":
                h = blinding
            elif f["d"] in gens and not calls_one(prog, f, gens - {f["d"]}):
                h = key
            if h is None:
                continue
            n[h.__name__] = n.get(h.__name__, 0) + 1
            one(rep, prog, f, h)
        for k in ("oaep", "pkcs1", "pss", "dsa", "ecdsa", "vector", "blinding", "key"):
            rep.check(n.get(k, 0) >= 1, "count:" + k, "%d operations of kind %s" % (n.get(k, 0), k), text="the operation that draws for %s was not found" % k)


def keygen(prog, f):
    """takes a random source and returns a private key or an object made with one"""
    o = prog.tys[f["out"]]
    ts = [o] + [prog.tys[x] for x in o.get("a", ()) if isinstance(x, int)] if o["k"] == "adt" else [o]
    ns = [t["n"].split("::")[-1] for t in ts if t["k"] == "adt"]
    if not any(x in ("PrivateKey", "ECDSA") for x in ns) or "rsa::rsa" in f["n"] or f.get("trait") or f["kind"] != "fn":
        return False
    if any(prog.tys[prog_strip(prog, i)].get("n", "").split("::")[-1] in ("KeyPair", "PrivateKey") for i in f["in"]):
        return False
    return any(has_rng(prog, f, i) for i in f["in"])


def calls_one(prog, f, gens):
    for b in f["blocks"]:
        if b["t"][0] == "call":
            c = b["t"][1].get("fn") or {}
            if c.get("d") in gens or (c.get("r") or {}).get("d") in gens:
                return True
    return False


def has_rng(prog, f, i):
    t = prog.tys[i]
    if t["k"] == "ref" and t.get("m"):
        t = prog.tys[t["e"]]
        return t["k"] == "param"
    return t["k"] == "param" and t["n"] == "R"


class Site:
    def __init__(self, rep, prog, f, run, st, val):
        self.rep, self.prog, self.f, self.run, self.st, self.val = rep, prog, f, run, st, val
        self.I = run.I
        self.name = rel(f["n"]) if callable(globals().get("rel")) else f["n"]

    def need(self, rule, ok, what, text):
        k = "%s:%s:%s" % (rule, self.f["n"], what)
        self.rep.check(ok, k, "%s: %s" % (self.f["n"], what), where(self.f), text="%s: %s (%s)" % (self.f["n"], text, what))

    def region(self, rule, s, what, **kw):
        """every byte drawn"""
        r = Region(self.I, self.st, **kw)
        try:
            r.seq(s, self.st)
        except Bad as e:
            self.need(rule, False, what, str(e))
            return False
        except Open as e:
            self.open("%s: %s" % (what, e))
            return None
        self.need(rule, True, what, "")
        return True

    def open(self, why):
        ls = self.rep.notes.setdefault("undecided", [])
        x = "%s: %s" % (self.f["n"], why)
        if x not in ls:
            ls.append(x)
            self.rep.obl += 1


def one(rep, prog, f, h):
    run = attempt(rep, prog, f, Draws(prog), prep=wide, limit=150)
    if run is None:
        return
    some = 0
    for st, v in run.ok():
        if st.facts.infeasible():
            continue
        some += 1
        g = Site(rep, prog, f, run, st, v)
        why = guarded(lambda: h(g), 60)
        if why:
            g.open(why)
        redraw(g)
    if not some:
        g = Site(rep, prog, f, run, None, None)
        g.open("no path to success")


def results(g):
    return tuple(g.I.freeze(g.st, a) for a in g.run.args) + (g.I.freeze(g.st, g.val),)


def redraw(g):
    """in every loop, what is raised, inverted or multiplied in a rejected iteration was drawn in it"""
    def go(evs):
        for e in evs:
            if e.kind != "loop":
                continue
            for b in e.x["backs"]:
                here = drawn(b)
                for p in b:
                    if p.kind != "power":
                        continue
                    for x in p.args[1:] if p.name.startswith("scalar") else p.args[:2]:
                        if isinstance(x, T) and x.op == "rand":
                            g.need("redraw", x in here, "a rejected candidate", "the candidate %s of a rejected attempt is used again in the next one" % brief(x))
                        elif isinstance(x, T) and x.op == "mu" and x in g.I.mudef:
                            d = g.I.mudef[x]
                            if any(isinstance(y, T) and y.op == "rand" for y in walk(d.get("init"))):
                                ok = all(set(draws(y)) & drawn(s.events()) for y, s in zip(d["backs"], d["states"][1]))
                                g.need("redraw", ok, "a rejected candidate", "after a rejected attempt the candidate is changed, not drawn")
                go(b)
    go(g.st.events())


def nonzero(st, x):
    if positive(st, x):
        return True
    for b, v in st.b.items():
        if b.op == "same" and v is False:
            for p, q in (b.args, b.args[::-1]):
                if big(p) is x and naught(q):
                    return True
    if isinstance(x, T) and x.op == "op" and x.args[0] == "Add":
        a, b = big(x.args[1]), big(x.args[2])
        for p, q in ((a, b), (b, a)):
            k = intof(q)
            if k is not None and k > 0 and isinstance(p, T) and p.op in ("mod", "rand"):
                return True
    return False


def intof(t):
    if isinstance(t, T) and t.op == "int":
        return t.args[0]
    if isinstance(t, T) and t.op == "call" and "From<u32>" in str(t.args[0]) or isinstance(t, T) and t.op == "call" and "From<u" in str(t.args[0]):
        k = t.args[1]
        return k.const if isinstance(k, Lin) else k if isinstance(k, int) else None
    return None


def oaep(g):
    ms = [t for t in deepwalk(g.I, results(g)) if isinstance(t, T) and t.op == "mask"]
    if not ms:
        return g.open("no mask found")
    hs = {t for m in ms for t in walk(m) if isinstance(t, T) and t.op == "dbits"}
    n = [ops.divc(g.st, Lin.atom(h) + 7, 8) for h in hs]
    # the seed is what masks the data block, that is the mask that does not take its input from another mask
    first = [m for m in ms if not any(isinstance(x, T) and x.op == "mask" for x in walk(m.args[1]))]
    if len(first) != 1:
        return g.open("%d masks of plain input" % len(first))
    s = first[0].args[1]
    g.region("seed", s, "the seed is drawn")
    g.need("seed", any(g.st.facts.entails_eq(s.len - x) for x in n), "the seed has the length of the digest", "the seed is %s bytes long" % brief(s.len))


def pkcs1(g):
    st = g.st
    msg = T("*", T("P", "a2"))
    es = [t for t in deepwalk(g.I, results(g)) if isinstance(t, T) and t.op == "exp" and isinstance(big(t.args[0]), T) and big(t.args[0]).op == "os2i"]
    if not es:
        return
    for e in set(es):
        s = big(e.args[0]).args[0]
        if not s.p or not (s.p[-1][0] == "src" and s.p[-1][1] is msg):
            g.open("the encoded message ends with %s" % (brief(s.p[-1]) if s.p else "nothing"))
            continue
        k = bytelen(st, big(e.args[2]))
        mid = list(s.p[:-1])
        if mid and mid[-1][0] == "lit" and mid[-1][1][-1] in (ZERO, 0):
            mid[-1] = ("lit", mid[-1][1][:-1])
            if not mid[-1][1]:
                mid.pop()
        else:
            g.open("no separator")
            continue
        g.need("padding", st.facts.entails_eq(s.len - k), "the padding string fills the block", "the encoded message is %s bytes long" % brief(s.len))
        head = None
        r = Region(g.I, st, nonzero=True)
        try:
            p = mid[0] if mid else None
            if p is not None and p[0] == "src" and p[1].op in ("mu", "app"):
                bs = r.grammar(p[1])
                heads = {tuple(c for q in b.p if q[0] == "lit" for c in q[1]) for b in bs if all(q[0] == "lit" for q in b.p)}
                if len(heads) != 1 or len(bs) != sum(1 for b in bs if all(q[0] == "lit" for q in b.p)):
                    raise Open("starts %s" % brief(tuple(bs)))
                head = heads.pop()
                r.used = set()
                for x in head[2:]:
                    r.byte(x, st)
                r.seq(Seq(tuple(mid[1:])), st)
            elif p is not None and p[0] == "lit":
                head = p[1]
                for x in head[2:]:
                    r.byte(x, st)
                r.seq(Seq(tuple(mid[1:])), st)
            else:
                raise Open("no header")
        except Bad as x:
            g.need("padding", False, "the padding string is drawn and not zero", str(x))
            continue
        except Open as x:
            g.open("padding string: %s" % x)
            continue
        g.need("padding", True, "the padding string is drawn and not zero", "")


def pss(g):
    found = 0
    for t in set(x for x in deepwalk(g.I, results(g)) if isinstance(x, T) and x.op == "sum"):
        ws = [w[1] for w in dig_steps(t.args[0]) if isinstance(w, tuple)]
        ps = [p for w in ws for p in w.p]
        z = ps[0] if ps else None
        if z is None or not (z[0] == "lit" and len(z[1]) >= 8 and all(b in (ZERO, 0) for b in z[1][:8]) or z[0] == "fill" and z[1] in (ZERO, 0)):
            continue
        i = next((i for i, p in enumerate(ps) if p[0] == "src" and p[1].op == "sum"), None)
        if i is None:
            continue
        found += 1
        s = Seq(tuple(ps[i + 1:]))
        g.region("salt", s, "the salt is drawn")
        n = s.len
        f = g.st.facts
        own = [Lin.atom(a) for a in selfnums(g, t) if a.op == "fld"]
        g.need("salt", any(f.entails_eq(n - x) for x in own), "the salt has the configured length", "the salt is %s bytes long" % brief(n))
    if not found:
        g.open("no hash of padding, digest and salt found")


def selfnums(g, t):
    """plain numbers held by the object"""
    out = set()
    for e in list(g.st.facts.eq) + list(g.st.facts.ge):
        for a, _ in e.t:
            if a.op == "fld" and plain_self(a):
                out.add(a)
    for x in walk(t):
        if isinstance(x, Lin):
            for a, _ in x.t:
                if a.op == "fld" and plain_self(a):
                    out.add(a)
    return out


def powers(g):
    """(base, exponent, modulus) with a base held by the object or given"""
    out = set()
    for t in deepwalk(g.I, results(g)):
        if isinstance(t, T) and t.op == "exp":
            b, k, m = (big(x) for x in t.args)
            if isinstance(b, T) and b.op == "fld":
                out.add((b, k, m))
    return out


def dsa(g):
    ps = powers(g)
    if not ps:
        return g.open("no power of the generator")
    for b, k, m in ps:
        drawnint(g, "nonce", k, "the nonce")


def drawnint(g, rule, k, what):
    if isinstance(k, T) and k.op == "rand":
        g.need(rule, plain(k.args[0]), "%s is a draw below the group order" % what, "the bound of the draw is %s" % brief(k.args[0]))
    else:
        ds = [x for x in deepwalk(g.I, k) if isinstance(x, T) and x.op in DRAW]
        if ds:
            g.open("%s is %s" % (what, brief(k)))
            if isinstance(k, T) and k.op == "mu":
                return
        else:
            g.need(rule, False, "%s is a draw below the group order" % what, "%s %s is not drawn from the random source" % (what, brief(k)))
    g.need(rule, nonzero(g.st, k), "%s is not zero" % what, "%s may be zero" % what)


def plain(t):
    t = big(t)
    while isinstance(t, T) and t.op in ("fld", "*", "&"):
        t = big(t.args[-1] if t.op == "&" else t.args[0])
    return isinstance(t, T) and t.op == "P"


def ecdsa(g):
    ks = {big(t.args[1]) for t in deepwalk(g.I, results(g)) if isinstance(t, T) and t.op == "pt" and t.args[0] == "scalar_base_point"}
    if not ks:
        return g.open("no multiple of the base point")
    for k in ks:
        g.need("nonce", nonzero(g.st, k), "the nonce is not zero", "the nonce %s may be zero" % brief(k))
        sums = {t for t in deepwalk(g.I, k) if isinstance(t, T) and t.op == "sum"}
        if not draws(tuple(deepwalk(g.I, k))):
            g.need("entropy", False, "the entropy is drawn", "nothing drawn from the random source reaches the nonce")
            continue
        best = None
        for t in sums:
            for w in dig_steps(t.args[0]):
                if isinstance(w, tuple) and draws(tuple(deepwalk(g.I, w[1]))):
                    best = w[1]
        if best is None:
            g.open("the entropy is not hashed")
            continue
        # the part of the write that has draws
        ps = [p for p in best.p]
        while ps and not draws(tuple(deepwalk(g.I, p_value(ps[0])))):
            ps.pop(0)
        while ps and not draws(tuple(deepwalk(g.I, p_value(ps[-1])))):
            ps.pop()
        s = Seq(tuple(ps))
        g.region("entropy", s, "the entropy is drawn")
        f = g.st.facts
        n = s.len
        ok = f.entails_ge(n - 32)
        for b in curvebits(g):
            e = ops.divc(g.st, b + 7, 16)
            ok = ok or f.entails_eq(n - e) and f.entails_ge(32 - n if False else Lin(32) - n)
            ok = ok or f.entails_ge(n - e)
        g.need("entropy", ok, "the entropy has half the size of the field, at most 32 bytes", "the entropy is %s bytes long" % brief(n))


def p_value(p):
    return tuple(x for x in p[1:] if not isinstance(x, str))


def curvebits(g):
    """numbers among the parameters of the curve"""
    out = set()
    for e in list(g.st.facts.eq) + list(g.st.facts.ge):
        todo = [a for a, _ in e.t]
        while todo:
            x = todo.pop()
            if isinstance(x, Lin):
                todo += [a for a, _ in x.t]
            elif isinstance(x, T) and x.op == "div":
                todo += list(x.args)
            elif isinstance(x, T) and x.op == "fld":
                y = x
                while isinstance(y, T) and y.op in ("fld", "*"):
                    y = y.args[0]
                if isinstance(y, T) and y.op == "call" and "curve_params" in str(y.args[0]) or plain(y):
                    out.add(x)
    return [Lin.atom(x) for x in out]


def blinding(g):
    st = g.st
    rd = [i for i, t in enumerate(g.f["in"]) if g.prog.tys[t]["k"] == "adt" and g.prog.tys[t]["n"].endswith("Option")]
    if len(rd) != 1:
        return g.open("no optional random source")
    a = T("P", "a%d" % rd[0])
    if st.vr.get(a) != 1:
        return
    rs = drawn(st.events())
    ok = bool(rs)
    g.need("blinding", ok, "the blinding factor is drawn", "with a random source given the private-key operation draws nothing")
    if not ok:
        return
    v = g.I.freeze(st, g.val)
    used = set(draws(tuple(deepwalk(g.I, v))))
    if used & rs:
        g.need("blinding", True, "the blinding factor is used", "")
        return
    zero = any(b.op == "same" and v is True and any(big(p) in rs and naught(q) for p, q in (b.args, b.args[::-1])) for b, v in st.b.items())
    g.need("blinding", zero, "the blinding factor is used", "the result does not depend on the factor that was drawn")


def vector(g):
    st = g.st
    outs = [i for i, t in enumerate(g.f["in"]) if i and g.prog.tys[t]["k"] == "ref"]
    s = None
    for i in outs:
        v = g.I.load(st, g.run.args[i], g.I.refty(g.run.args[i]))
        if isinstance(v, Seq):
            s = v
    if s is None:
        return g.open("no vector")
    g.region("vector", s, "the vector is drawn")
    own = {a for a in selfnums(g, s) if a.op == "fld"} | {a for a, _ in s.len.t if a.op == "fld" and plain_self(a)}
    g.need("vector", any(st.facts.entails_eq(s.len - Lin.atom(a)) for a in own), "the vector has the block size", "the vector is %s bytes long" % brief(s.len))


def key(g):
    v = g.I.freeze(g.st, g.val)
    ks = set()
    for t in deepwalk(g.I, v):
        if isinstance(t, T) and t.op == "exp" and isinstance(big(t.args[0]), T) and big(t.args[0]).op == "fld":
            ks.add(big(t.args[1]))
        if isinstance(t, T) and t.op == "pt" and t.args[0] == "scalar_base_point":
            ks.add(big(t.args[1]))
        if isinstance(t, T) and t.op == "os2i":
            ks.add(t)
    if not ks:
        if drawn(g.st.events()):
            g.open("no key found in the result")
        return
    for k in ks:
        os = [t for t in walk(k) if isinstance(t, T) and t.op == "os2i"]
        if not os:
            drawnint(g, "key", k, "the private key")
            continue
        for t in os:
            s = t.args[0]
            g.region("key", s, "the private key is drawn", loose=True)
            f = g.st.facts
            want = [ops.divc(g.st, Lin.atom(b) + 7, 8) for b in bitsof(g)] + [ops.divc(g.st, b, 8) + 8 for b in curvebits(g)]
            g.need("key", any(f.entails_eq(s.len - w) for w in want), "the private key has the size of the group order", "the private key is taken from %s bytes" % brief(s.len))


def bitsof(g):
    out = set()
    for e in list(g.st.facts.eq) + list(g.st.facts.ge):
        for a, _ in e.t:
            for x in walk(a):
                if isinstance(x, T) and x.op == "bits":
                    out.add(x)
    return out
