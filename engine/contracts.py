"""Contracts of the crate's own traits, used when a method is called on a type parameter
(or, when a check asks for it, on any implementation)."""
from .terms import *
from .num import note_atom
from .state import Ev
from .ops import lin, ge0, eq0
from .interp import Policy
from . import models
from .models import mk, some, none, OK, ERR


def dig_root(t):
    while isinstance(t, T) and t.op == "dig":
        t = t.args[1]
    return t


def eta(v):
    """an object put together from all the fields of x is x"""
    if not (isinstance(v, Agg) and v.f and v.var == 0):
        return v
    x = None
    for i, f in enumerate(v.f):
        f = eta(f)
        if isinstance(f, Sym):
            f = f.t
        elif isinstance(f, Lin):
            f = f.t[0][0] if len(f.t) == 1 and f.c == 0 and f.t[0][1] == 1 else None
        elif isinstance(f, Seq):
            f = f.p[0][1] if len(f.p) == 1 and f.p[0][0] == "src" and f.p[0][2].const == 0 else None
        if not (isinstance(f, T) and f.op == "fld" and f.args[1] == 0 and f.args[2] == i) or x is not None and f.args[0] is not x:
            return v
        x = f.args[0]
    return x


def dig_steps(t):
    """the operations a digest state went through since its last reset, oldest first: ['r', ('w', content), 'c', ...]"""
    r = []
    t = eta(t)
    while isinstance(t, T) and t.op == "dig":
        k = t.args[0]
        r.append(("w", t.args[2]) if k == "w" else k)
        if k == "r":
            break
        t = eta(t.args[1])
    return r[::-1]


def dig_chain(t):
    """a digest state term -> (start, content written since, finished?)  start: 'reset' | 'prior'"""
    parts = []
    fin = False
    t = eta(t)
    while isinstance(t, T) and t.op == "dig":
        k = t.args[0]
        if k == "w":
            parts.append(t.args[2])
        elif k == "r":
            s = EMPTY
            for p in reversed(parts):
                s = s + p
            return "reset", s, fin
        elif k == "c":
            fin = True
        t = eta(t.args[1])
    s = EMPTY
    for p in reversed(parts):
        s = s + p
    return "prior", s, fin


class Contracts(Policy):
    # traits whose methods are replaced by the contract even for concrete types
    concrete = ()

    def inline(self, I, fn):
        return True

    def call(self, I, fr, st, c, fn, args, rty, span):
        tn = c.get("tname")
        if tn is None:
            return None
        if fn is not None and tn not in self.concrete:
            return None
        h = getattr(self, "%s_%s" % (tn, c["name"]), None)
        if h is None:
            return None
        return h(I, fr, st, c, args, rty, span)

    # -- helpers --
    def serial(self, I):
        I.nser += 1
        return I.nser

    def ok(self, I, v=UNIT):
        return mk(I, "Result", OK, v)

    def fail(self, I, fr, st, what, span):
        """state in which the callee reported an error"""
        n = self.serial(I)
        e = T("err", what, n)
        st.event(Ev("fail", what, (e,), None, span, fr.stack))
        return st, mk(I, "Result", ERR, Sym(e, self.errty(I)))

    def errty(self, I):
        k = ("errty",)
        if k not in I.sub_memo:
            I.sub_memo[k] = next((i for i, t in enumerate(I.tys) if t["k"] == "adt" and t["n"].endswith("CryptoError")), None)
        return I.sub_memo[k]

    def payload(self, I, rty):
        if rty is None:
            return None
        t = I.tys[I.strip(rty)]
        return I.fty(I.strip(rty), OK, 0) if t["k"] == "adt" else None

    def selfv(self, I, st, r):
        """(term of the object behind &self)"""
        n = 0
        while isinstance(r, Ref) and n < 4:
            v = I.load(st, r, I.refty(r))
            if not isinstance(v, Ref):
                break
            r = v
            n += 1
        if not isinstance(r, Ref):
            return r, self.term(I, st, r)
        return r, self.term(I, st, v)

    def term(self, I, st, v):
        if isinstance(v, Sym):
            return v.t
        return I.freeze(st, v)

    # -- Cipher --
    def bs(self, I, st, ct):
        t = T("bs", ct)
        if note_atom(t) is None:
            pass
        st.facts.add_ge(Lin.atom(t) - 1)
        return Lin.atom(t)

    def Cipher_block_size(self, I, fr, st, c, args, rty, span):
        r, ct = self.selfv(I, st, args[0])
        return [(st, some(I, self.bs(I, st, ct)))]

    def Cipher_encrypt(self, I, fr, st, c, args, rty, span):
        return self.cipher_op(I, fr, st, c, args, rty, span, "E")

    def Cipher_decrypt(self, I, fr, st, c, args, rty, span):
        return self.cipher_op(I, fr, st, c, args, rty, span, "D")

    def cipher_op(self, I, fr, st, c, args, rty, span, op):
        r, ct = self.selfv(I, st, args[0])
        n = self.bs(I, st, ct)
        src = I.seq(st, args[2])
        bad = st.copy()
        out = []
        if st.assume(eq0(src.len - n), True):
            t = T(op, ct, src)
            st.event(Ev("cipher", op, (ct, src, t), None, span, fr.stack))
            I.store(st, I.seqref(st, args[1]), Seq((("src", t, ZERO, n),)))
            pt = self.payload(I, rty)
            out.append((st, self.ok(I, n if pt is not None and I.tys[pt]["k"] == "uint" else Sym(T("cok", t), pt))))
        b, v = self.fail(I, fr, bad, "cipher", span)
        I.store(b, I.seqref(b, args[1]), Seq((("src", T("junk", self.serial(I)), ZERO, I.lenatom(T("junk", I.nser))),)))
        out.append((b, v))
        return out

    # -- Digest --
    def dig_set(self, I, st, r, t):
        if isinstance(r, Ref):
            I.store(st, r, Sym(t, I.refty(r)))

    def Digest_block_size(self, I, fr, st, c, args, rty, span):
        r, t = self.selfv(I, st, args[0])
        return [(st, I.value_of(st, T("dblock", dig_root(t)), rty))]

    def Digest_bits_len(self, I, fr, st, c, args, rty, span):
        r, t = self.selfv(I, st, args[0])
        return [(st, self.dbits(st, t))]

    def Digest_write(self, I, fr, st, c, args, rty, span):
        r, t = self.selfv(I, st, args[0])
        s = I.seq(st, args[1])
        st.event(Ev("digest", "write", (t, s), None, span, fr.stack))
        self.dig_set(I, st, r, T("dig", "w", t, s))
        return [(st, UNIT)]

    def Digest_checksum(self, I, fr, st, c, args, rty, span):
        r, t = self.selfv(I, st, args[0])
        again = isinstance(t, T) and t.op == "dig" and t.args[0] == "c"      # repeating a checksum changes nothing
        d = T("sum", t.args[1] if again else t)
        n = self.dlen(I, st, t)
        st.event(Ev("digest", "checksum", (t, d), None, span, fr.stack))
        I.store(st, I.seqref(st, args[1]), Seq((("src", d, ZERO, n),)))
        if not again:
            self.dig_set(I, st, r, T("dig", "c", t))
        return [(st, UNIT)]

    def dlen(self, I, st, t):
        from . import ops
        return ops.divc(st, self.dbits(st, t), 8)

    def dbits(self, st, t):
        a = T("dbits", dig_root(t))
        note_atom(a)
        if getattr(self, "whole", False):                # digests are whole bytes
            n = T("dbytes", dig_root(t))
            note_atom(n)
            return Lin.atom(n).scale(8)
        return Lin.atom(a)

    def Digest_reset(self, I, fr, st, c, args, rty, span):
        r, t = self.selfv(I, st, args[0])
        st.event(Ev("digest", "reset", (t,), None, span, fr.stack))
        self.dig_set(I, st, r, T("dig", "r", dig_root(t)))
        return [(st, UNIT)]

    def DigestXOF_set_digest_len(self, I, fr, st, c, args, rty, span):
        r, t = self.selfv(I, st, args[0])
        st.event(Ev("digest", "setlen", (t, args[1]), None, span, fr.stack))
        self.dig_set(I, st, r, T("xof", t, args[1]))
        return [(st, UNIT)]

    # -- Counter --
    def ctr_root(self, t):
        while isinstance(t, T) and t.op in ("ctr0", "ctr+"):
            t = t.args[0]
        return t

    def Counter_reset(self, I, fr, st, c, args, rty, span):
        r, t = self.selfv(I, st, args[0])
        st.event(Ev("counter", "reset", (t,), None, span, fr.stack))
        I.store(st, r, Sym(T("ctr0", self.ctr_root(t)), I.refty(r)))
        return [(st, UNIT)]

    def Counter_bits_len(self, I, fr, st, c, args, rty, span):
        r, t = self.selfv(I, st, args[0])
        a = T("cbits", self.ctr_root(t))
        note_atom(a)
        return [(st, Lin.atom(a))]

    def Counter_next(self, I, fr, st, c, args, rty, span):
        r, t = self.selfv(I, st, args[0])
        nt = T("ctr+", t)
        bad = st.copy()
        I.store(st, r, Sym(nt, I.refty(r)))
        v = T("ctrval", t)
        st.event(Ev("counter", "next", (t, v), None, span, fr.stack))
        from . import ops
        a = T("cbits", self.ctr_root(t))
        note_atom(a)
        n = ops.divc(st, Lin.atom(a) + 7, 8)
        ref = I.alloc(st, Seq((("src", v, ZERO, n),)), None)
        I.store(bad, r, Sym(nt, I.refty(r)))
        bad.event(Ev("counter", "exhausted", (t,), None, span, fr.stack))
        return [(st, some(I, ref)), (bad, none(I))]

    # -- InitialVec --
    def InitialVec_initial_vec(self, I, fr, st, c, args, rty, span):
        n = self.serial(I)
        t = T("freshiv", n)
        bad = st.copy()
        st.event(Ev("iv", "fresh", (t,), None, span, fr.stack))
        I.store(st, I.seqref(st, args[1]), Seq((("src", t, ZERO, I.lenatom(t)),)))
        b, v = self.fail(I, fr, bad, "iv", span)
        I.store(b, I.seqref(b, args[1]), Seq((("src", T("junk", n), ZERO, I.lenatom(T("junk", n))),)))
        return [(st, self.ok(I)), (b, v)]

    # -- Padding --
    def Padding_padding(self, I, fr, st, c, args, rty, span):
        r, pt = self.selfv(I, st, args[0])
        ref = I.seqref(st, args[1])
        s = I.seq(st, ref)
        t = T("pad", pt, s)
        st.event(Ev("pad", "pad", (pt, s, t), None, span, fr.stack))
        I.store(st, ref, s + Seq((("src", t, ZERO, I.lenatom(t)),)))
        return [(st, UNIT)]

    def Padding_unpadding(self, I, fr, st, c, args, rty, span):
        r, pt = self.selfv(I, st, args[0])
        ref = I.seqref(st, args[1])
        s = I.seq(st, ref)
        t = T("unpadlen", pt, s)
        note_atom(t)
        bad = st.copy()
        out = []
        if st.assume(ge0(s.len - Lin.atom(t)), True):
            from .state import seq_slice
            st.event(Ev("pad", "unpad", (pt, s, t), None, span, fr.stack))
            I.store(st, ref, seq_slice(st, s, ZERO, Lin.atom(t)))
            out.append((st, self.ok(I, Lin.atom(t))))
        b, v = self.fail(I, fr, bad, "unpad", span)
        out.append((b, v))
        return out

    # -- randomness --
    def Source_gen(self, I, fr, st, c, args, rty, span):
        n = self.serial(I)
        bad = st.copy()
        t = T("rnd", n)
        pt = self.payload(I, rty)
        st.event(Ev("rng", "gen", (t,), None, span, fr.stack))
        b, v = self.fail(I, fr, bad, "rng", span)
        return [(st, self.ok(I, I.value_of(st, t, pt))), (b, v)]

    def IterSource_iter_mut(self, I, fr, st, c, args, rty, span):
        n = self.serial(I)
        t = T("rngs", n)
        st.event(Ev("rng", "iter", (t,), None, span, fr.stack))
        return [(st, models.it("gen", t, ZERO))]
