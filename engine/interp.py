"""Abstract interpreter over MIR facts.

States are relational (affine facts, boolean atoms, enum-variant facts, symbolic
sequence contents).  Branches fork, equal stores are joined, loops are closed by
inductive summaries (loops.py); nothing of the library is executed.
"""
from .terms import *
from .num import note_atom, UNSIGNED
from . import fielduse
from .state import State, Ev, seq_get, seq_put, seq_slice
from . import ops
from .ops import lin, ge0, eq0, bnot
from .subst import subst, inst

TRANSPARENT = ("std::cell::Cell", "std::cell::UnsafeCell", "std::mem::ManuallyDrop", "std::mem::MaybeUninit",
               "core::mem::maybe_dangling::MaybeDangling", "std::mem::maybe_dangling::MaybeDangling")
PTRLIKE = ("std::boxed::Box", "std::ptr::Unique", "core::ptr::unique::Unique", "std::ptr::NonNull", "std::pin::Pin", "core::ptr::Unique")


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("id", "fn", "env", "stack", "depth")

    def __init__(self, id, fn, env, stack, depth):
        self.id, self.fn, self.env, self.stack, self.depth = id, fn, env, stack, depth


class Policy:
    """hooks of a check; call() returns None to fall through or [(state, value)]"""
    def call(self, I, fr, st, c, fn, args, rty, span):
        return None

    def inline(self, I, fn):
        return True


class Interp:
    MAXSTATES = 96
    MAXSTEPS = 60000

    def __init__(self, prog, policy=None):
        self.p = prog
        self.pol = policy or Policy()
        self.tys = prog.tys
        self.dty = {}
        self.oty = {}
        self.nfr = 0
        self.nobj = 0
        self.nser = 0
        self.panics = {}
        self.mudef = {}
        self.sub_memo = {}
        self.tymap = {}
        self.steps = 0
        self.opaque_calls = {}
        self.split = 0
        self.unroll = 0
        for i, t in enumerate(self.tys):
            self.tymap.setdefault(self._tkey(t), i)

    # ------------------------------------------------------------- types
    @staticmethod
    def _tkey(t):
        return tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in t.items() if k != "s" or t["k"] in ("other", "fndef", "fnptr")))

    def mkty(self, t):
        k = self._tkey(t)
        i = self.tymap.get(k)
        if i is None:
            i = len(self.tys)
            self.tys.append(t)
            self.tymap[k] = i
        return i

    def subty(self, ti, env):
        if not env or ti is None or isinstance(ti, str):
            return ti
        key = (ti, tuple(sorted(env.items(), key=lambda x: x[0])))
        r = self.sub_memo.get(key)
        if r is not None:
            return r
        t = self.tys[ti]
        k = t["k"]
        if k == "param":
            r = env.get(t["n"], ti)
        else:
            n = dict(t)
            ch = False
            for fld in ("e", "a", "up"):
                if fld in t:
                    if isinstance(t[fld], list):
                        n[fld] = [self.subty(x, env) if isinstance(x, int) else x for x in t[fld]]
                    elif isinstance(t[fld], int):
                        n[fld] = self.subty(t[fld], env)
                    if n[fld] != t[fld]:
                        ch = True
            if ch:
                n["s"] = self.tstr(n)
            r = self.mkty(n) if ch else ti
        self.sub_memo[key] = r
        return r

    def tstr(self, t):
        k = t["k"]
        S = lambda i: self.tys[i]["s"] if isinstance(i, int) else str(i)
        if k == "adt":
            return t["n"] + ("<%s>" % ", ".join(S(x) for x in t["a"]) if t["a"] else "")
        if k == "ref":
            return "&" + ("mut " if t.get("m") else "") + S(t["e"])
        if k == "slice":
            return "[%s]" % S(t["e"])
        if k == "array":
            return "[%s; %s]" % (S(t["e"]), t["len"])
        if k == "tuple":
            return "(%s)" % ", ".join(S(x) for x in t["e"])
        return t["s"]

    def bits(self, ti):
        t = self.tys[ti] if isinstance(ti, int) else None
        if t and t["k"] in ("int", "uint"):
            return t["bits"]
        if t and t["k"] == "char":
            return 32
        return None

    def is_vec(self, t):
        return t["k"] == "adt" and t["n"] in ("std::vec::Vec", "std::string::String", "std::collections::VecDeque")

    def fty(self, ti, var, i):
        """type of field i (variant var) of type ti"""
        if ti is None:
            return None
        t = self.tys[ti]
        k = t["k"]
        if k == "tuple":
            return t["e"][i] if i < len(t["e"]) else None
        if k == "closure":
            up = t.get("up") or []
            return up[i] if i < len(up) else None
        if k == "adt":
            a = self.p.adts.get(t["d"])
            if a is None:
                return None
            vs = a["vars"]
            v = vs[var or 0] if (var or 0) < len(vs) else None
            if v is None or i >= len(v["f"]):
                return None
            env = self.adt_env(a, t)
            return self.subty(v["f"][i]["t"], env)
        return None

    def adt_env(self, a, t):
        return {n: x for n, x in zip(a.get("gen", ()), t.get("a", ())) if isinstance(x, int)}

    def strip(self, ti):
        """peel transparent wrappers"""
        while ti is not None:
            t = self.tys[ti]
            if t["k"] == "adt" and t["n"] in TRANSPARENT and t["a"]:
                ti = t["a"][0]
                continue
            return ti
        return ti

    def elemty(self, ti):
        ti = self.strip(ti)
        if ti is None:
            return None
        t = self.tys[ti]
        if t["k"] in ("array", "slice"):
            return t["e"]
        if self.is_vec(t):
            return t["a"][0] if t["a"] else None
        return None

    def pointee(self, ti):
        if ti is None:
            return None
        t = self.tys[ti]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t["k"] == "adt" and t["n"] in PTRLIKE and t["a"]:
            x = t["a"][0]
            if t["n"].endswith("Pin"):
                return self.pointee(x)
            return x
        return None

    # ------------------------------------------------------------- values
    def value_of(self, st, t, ti, depth=0):
        """value of unknown contents named by term t with type ti"""
        if isinstance(t, (Lin, Seq, Agg, Ref, Sym)):
            return t
        ti = self.strip(ti)
        if ti is None:
            return Sym(t, None)
        ty = self.tys[ti]
        k = ty["k"]
        if k == "bool":
            return t
        if k in ("int", "uint", "char"):
            if k != "int":
                note_atom(t, self.bits(ti))
            return Lin.atom(t)
        if k in ("ref", "ptr"):
            self.dty.setdefault(t, ty["e"])
            return Ref(("D", t))
        if k == "array":
            if isinstance(ty["len"], int):
                if ty["len"] == 0:
                    return EMPTY
                return Seq((("src", t, ZERO, Lin(ty["len"])),))
            return Seq((("src", t, ZERO, self.lenatom(t)),))
        if k in ("slice", "str"):
            return Seq((("src", t, ZERO, self.lenatom(t)),))
        if k == "tuple":
            return Agg("tuple", 0, tuple(self.value_of(st, T("fld", t, 0, i), e, depth + 1) for i, e in enumerate(ty["e"])))
        if k == "adt":
            if self.is_vec(ty):
                return Seq((("src", t, ZERO, self.lenatom(t)),))
            if ty["n"] in PTRLIKE:
                self.dty.setdefault(t, ty["a"][0])
                return Ref(("D", t))
            if ty["n"] == "std::marker::PhantomData":
                return UNIT
            a = self.p.adts.get(ty["d"])
            if a is not None and a["kind"] == "struct" and (a["local"] or ty["n"].startswith("std::ops::Range")) and depth < 8:
                fs = a["vars"][0]["f"]
                return Agg(("adt", ty["d"]), 0, tuple(self.value_of(st, T("fld", t, 0, i), self.fty(ti, 0, i), depth + 1) for i in range(len(fs))))
            if a is not None and a["kind"] == "enum" and st is not None and t in st.vr:
                return self.variant(st, t, ti, st.vr[t])
            return Sym(t, ti)
        return Sym(t, ti)

    def lenatom(self, t):
        a = T("len", t)
        note_atom(a)
        return Lin.atom(a)

    def variant(self, st, t, ti, k):
        ty = self.tys[ti]
        a = self.p.adts[ty["d"]]
        fs = a["vars"][k]["f"]
        return Agg(("adt", ty["d"]), k, tuple(self.value_of(st, T("fld", t, k, i), self.fty(ti, k, i)) for i in range(len(fs))))

    def coerce(self, st, v, ti):
        if isinstance(v, Sym):
            if ti is None:
                ti = v.ty
            if ti is None:
                return v
            s = self.strip(ti)
            if v.ty is not None and self.tys[s]["k"] in ("param", "other", "adt") and self.tys[s].get("n") not in ("std::vec::Vec",):
                # keep the more precise type the value was made with
                if self.tys[s]["k"] != "adt":
                    s = v.ty
            return self.value_of(st, v.t, s)
        if isinstance(v, T) and v.op == "elem" and ti is not None:
            return self.value_of(st, v, ti)
        return v

    def param(self, st, name, ti):
        return self.value_of(st, T("P", name), ti)

    def fresh(self, st, what, ti):
        self.nser += 1
        return self.value_of(st, T("fresh", what, self.nser), ti)

    def alloc(self, st, v, ti=None):
        self.nobj += 1
        o = ("H", self.nobj)
        st.store[o] = v
        self.oty[o] = ti
        return Ref(o)

    # ------------------------------------------------------------- memory
    def root(self, st, obj):
        v = st.store.get(obj)
        if v is None:
            if obj[0] == "K":
                return obj[1]
            if obj[0] == "D":
                v = self.value_of(st, T("*", obj[1]), self.dty.get(obj[1]))
                st.store[obj] = v
            elif obj[0] == "S":
                c = self.p.consts.get(obj[1])
                v = self.const_val(c.get("v"), c["t"]) if c else Sym(T("static", obj[1]), None)
                st.store[obj] = v
            else:
                v = Sym(T("uninit", *[x for x in obj]), self.objty(obj))
        return v

    def objty(self, obj):
        if obj[0] == "D":
            return self.dty.get(obj[1])
        return self.oty.get(obj)

    def elem(self, st, src, idx):
        if src.op == "map":
            return inst(src.args[0], idx)
        if src.op == "seq":
            r = seq_get(st, src.args[0], idx)
            if isinstance(r, Sym) and r.t.op == "elem" and r.t.args[0] is src:
                return r
            return self.relem(st, r)
        return Sym(T("elem", src, idx), None)

    def relem(self, st, r):
        if isinstance(r, Sym) and r.ty is None and r.t.op == "elem":
            s = r.t.args[0]
            if s.op in ("map",):
                return inst(s.args[0], r.t.args[1])
        return r

    def getp(self, st, v, e, var):
        if isinstance(e, int):
            if isinstance(v, Agg):
                return v.f[e] if e < len(v.f) else Sym(T("fld", T("val", v), 0, e), None)
            if isinstance(v, (Ref, Lin)):
                return v
            if isinstance(v, Sym):
                return Sym(T("fld", v.t, var or 0, e), None)
            if isinstance(v, T):
                return Sym(T("fld", v, var or 0, e), None)
            return Sym(T("fld", T("val", v), var or 0, e), None)
        if e[0] == "ix":
            if isinstance(v, Seq):
                return self.relem(st, seq_get(st, v, e[1]))
            if isinstance(v, (Sym, T)):
                t = v.t if isinstance(v, Sym) else v
                return self.elem(st, t, e[1])
            return Sym(T("elem", T("val", v), e[1]), None)
        if e[0] == "rng":
            if isinstance(v, Seq):
                return seq_slice(st, v, e[1], e[2])
            t = v.t if isinstance(v, Sym) else (v if isinstance(v, T) else T("val", v))
            return Seq((("src", t, e[1], e[2]),))
        return v

    def read(self, st, obj, path, ti):
        v = self.root(st, obj)
        if path:
            var = None
            cty = self.objty(obj)
            for e in path:
                if isinstance(e, tuple) and e[0] == "v":
                    var = e[1]
                    continue
                if isinstance(v, Sym) and v.ty is None and cty is not None:
                    v = self.coerce(st, v, cty)
                if isinstance(v, T) and v.op == "elem" and cty is not None:
                    v = self.value_of(st, v, cty)
                v = self.getp(st, v, e, var)
                if isinstance(e, int):
                    cty = self.fty(self.strip(cty), var, e) if cty is not None else None
                elif e[0] == "ix":
                    cty = self.elemty(cty)
                var = None
        return self.coerce(st, v, ti)

    def put(self, st, v, path, new, ti):
        if not path:
            return new
        e, rest = path[0], path[1:]
        var = 0
        if isinstance(e, tuple) and e[0] == "v":
            var = e[1]
            if not rest:
                return new
            e, rest = rest[0], rest[1:]
            if isinstance(v, Sym) and ti is not None and v.t not in st.vr and self.tys[self.strip(ti)]["k"] == "adt":
                v = self.variant(st, v.t, self.strip(ti), var)
        ti = self.strip(ti)
        if isinstance(v, Sym):
            v = self.coerce(st, v, ti)
            if isinstance(v, Sym) and ti is not None and isinstance(e, int):
                ty = self.tys[ti]
                if ty["k"] == "adt" and ty["d"] in self.p.adts:
                    v = self.variant(st, v.t, ti, var if self.p.adts[ty["d"]]["kind"] == "enum" else 0)
                elif ty["k"] == "closure":
                    v = Agg(("closure", ty["d"], ()), 0, tuple(self.value_of(st, T("fld", v.t, 0, i), u) for i, u in enumerate(ty.get("up") or ())))
        if isinstance(e, int):
            if isinstance(v, Agg) and e < len(v.f):
                f = list(v.f)
                f[e] = self.put(st, f[e], rest, new, self.fty(ti, v.var, e))
                return Agg(v.kind, v.var, tuple(f))
            if isinstance(v, Ref):
                # box internals
                return new if not rest else v
        elif e[0] == "ix" and isinstance(v, Seq):
            if rest:
                old = self.coerce(st, self.relem(st, seq_get(st, v, e[1])), self.elemty(ti))
                new = self.put(st, old, rest, new, self.elemty(ti))
            return seq_put(st, v, e[1], Seq((("lit", (new,)),)))
        elif e[0] == "rng" and isinstance(v, Seq):
            old = seq_slice(st, v, e[1], e[2])
            new = self.put(st, old, rest, new, ti)
            if not isinstance(new, Seq):
                new = Seq((("src", T("val", new), ZERO, e[2]),))
            return seq_put(st, v, e[1], new)
        t = T("upd", v if not isinstance(v, Sym) else v.t, e if not isinstance(e, tuple) else e, new)
        return self.value_of(st, t, ti) if ti is not None else Sym(t, None)

    def write(self, st, obj, path, new):
        if obj[0] in ("K",):
            return
        if not path:
            st.store[obj] = new
            return
        v = self.root(st, obj)
        st.store[obj] = self.put(st, v, path, new, self.objty(obj))

    def load(self, st, ref, ti=None):
        """contents behind a reference value"""
        if isinstance(ref, Ref):
            return self.read(st, ref.obj, ref.path, ti)
        if isinstance(ref, Sym):
            return self.coerce(st, Sym(T("*", ref.t), None), ti)
        return ref

    def store(self, st, ref, v):
        if isinstance(ref, Ref):
            self.write(st, ref.obj, ref.path, v)

    def seq(self, st, v):
        """the sequence contents of a Vec/array/slice value or of what a reference points at"""
        n = 0
        while isinstance(v, Ref) and n < 4:
            w = self.load(st, v)
            if isinstance(w, Sym) and w.ty is None:
                w = self.as_seq(st, v, w)
            v = w
            n += 1
        if isinstance(v, Seq):
            return v
        if isinstance(v, Sym):
            return Seq((("src", v.t, ZERO, self.lenatom(v.t)),))
        if isinstance(v, T):
            return Seq((("src", v, ZERO, self.lenatom(v)),))
        t = T("val", v)
        return Seq((("src", t, ZERO, self.lenatom(t)),))

    def as_seq(self, st, ref, w):
        ty = self.refty(ref)
        if ty is not None:
            return self.coerce(st, w, ty)
        return w

    def refty(self, ref):
        """type of the location a Ref designates, if known"""
        ti = self.objty(ref.obj)
        var = None
        for e in ref.path:
            if ti is None:
                return None
            ti = self.strip(ti)
            if isinstance(e, int):
                ti = self.fty(ti, var, e)
                var = None
            elif e[0] == "v":
                var = e[1]
            elif e[0] == "ix":
                ti = self.elemty(ti)
        return ti

    def seqref(self, st, v):
        """innermost reference to a sequence: auto-deref &&mut Vec etc."""
        n = 0
        while isinstance(v, Ref) and n < 4:
            w = self.load(st, v, self.refty(v))
            if isinstance(w, Ref):
                v = w
                n += 1
                continue
            break
        return v

    @staticmethod
    def join_path(path, e):
        if path and isinstance(e, tuple) and e[0] in ("ix", "rng") and isinstance(path[-1], tuple) and path[-1][0] == "rng":
            o = path[-1][1]
            if e[0] == "ix":
                return path[:-1] + (("ix", o + e[1]),)
            return path[:-1] + (("rng", o + e[1], e[2]),)
        return path + (e,)

    def loc(self, fr, st, place):
        obj = ("L", fr.id, place[0])
        path = ()
        ti = self.subty(fr.fn["lty"][place[0]], fr.env)
        self.oty.setdefault(obj, ti)
        for e in place[1:]:
            if e == "*":
                v = self.read(st, obj, path, ti)
                pt = self.pointee(ti)
                if isinstance(v, Ref):
                    obj, path = v.obj, v.path
                else:
                    t = v.t if isinstance(v, Sym) else (v if isinstance(v, T) else T("val", v))
                    obj, path = ("D", t), ()
                    self.dty.setdefault(t, pt)
                if pt is not None and obj[0] == "H" and not path and self.oty.get(obj) is None:
                    self.oty[obj] = pt
                ti = pt
            elif isinstance(e, list):
                if e[0] == "f":
                    t = self.tys[ti] if ti is not None else None
                    nt = self.subty(e[2], fr.env)
                    if t is not None and t["k"] == "adt" and (t["n"] in TRANSPARENT or t["n"] in PTRLIKE):
                        ti = nt
                        if t["n"] in PTRLIKE:
                            ti = self.mkptr(t["a"][0])
                        continue
                    path = path + (e[1],)
                    ti = nt
                elif e[0] == "i":
                    i = lin(st.store.get(("L", fr.id, e[1]), ZERO))
                    path = self.join_path(path, ("ix", i))
                    ti = self.elemty(ti)
                elif e[0] == "ci":
                    if e[3]:
                        n = self.seq(st, Ref(obj, path)).len
                        i = n - e[1]
                    else:
                        i = Lin(e[1])
                    path = self.join_path(path, ("ix", i))
                    ti = self.elemty(ti)
                elif e[0] == "sub":
                    n = self.seq(st, Ref(obj, path)).len
                    to = (n - e[2]) if e[3] else Lin(e[2])
                    path = self.join_path(path, ("rng", Lin(e[1]), to - e[1]))
                elif e[0] == "dc":
                    path = path + (("v", e[1]),)
        return obj, path, ti

    def mkptr(self, e):
        return self.mkty({"k": "ptr", "e": e, "m": True, "s": "*mut " + self.tys[e]["s"]})

    def place_ty(self, fr, place):
        ti = fr.fn["lty"][place[0]]
        for e in place[1:]:
            if e == "*":
                ti = self.pointee(ti)
            elif isinstance(e, list):
                if e[0] == "f":
                    ti = e[2]
                elif e[0] in ("i", "ci"):
                    ti = self.elemty(self.subty(ti, fr.env) if ti is not None else None)
            if ti is None:
                return None
        return self.subty(ti, fr.env)

    # ------------------------------------------------------------- constants
    def const_val(self, v, ti):
        ti = self.strip(ti)
        t = self.tys[ti] if ti is not None else {"k": "?", "s": "?"}
        k = t["k"]
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            if k == "bool":
                return TRUE if v else FALSE
            return Lin(v)
        if isinstance(v, list):
            e = self.elemty(ti) if k in ("array", "slice", "adt") else None
            if k == "tuple":
                return Agg("tuple", 0, tuple(self.const_val(x, t["e"][i]) for i, x in enumerate(v)))
            l = tuple(self.const_val(x, e) for x in v)
            return Seq((("lit", l),)) if all(x is not None for x in l) else None
        if isinstance(v, dict):
            if "ref" in v:
                x = self.const_val(v["ref"], self.pointee(ti))
                return Ref(("K", x)) if x is not None else None
            if "str" in v:
                s = Seq((("lit", tuple(Lin(b) for b in v["str"].encode())),))
                return Ref(("K", s)) if k in ("ref", "ptr") else s
            if "zst" in v:
                if k == "closure":
                    return Agg(("closure", t["d"], ()), 0, ())
                if k == "array":
                    return EMPTY
                if k == "adt":
                    a = self.p.adts.get(t["d"])
                    if a and a["kind"] == "struct" and a["local"]:
                        return Agg(("adt", t["d"]), 0, tuple(UNIT for _ in a["vars"][0]["f"]))
                return UNIT
            if "rawenum" in v:
                r = self.raw_enum(v["rawenum"], ti)
                return r if r is not None else Sym(T("const", str(v["rawenum"]), t["s"]), ti)
            if "static" in v:
                return Ref(("S", v["static"]))
            if "adt" in v:
                vi = v.get("var", 0)
                l = tuple(self.const_val(x, self.fty(ti, vi, i)) for i, x in enumerate(v["f"]))
                return Agg(("adt", v["adt"]), vi, l) if all(x is not None for x in l) else None
        return None

    def raw_enum(self, n, ti):
        """enum constant given by its memory word"""
        t = self.tys[ti] if ti is not None else None
        a = self.p.adts.get(t["d"]) if t is not None and t["k"] == "adt" else None
        if a is None or a["kind"] != "enum":
            return None
        vs = a["vars"]
        if all(not x["f"] for x in vs):
            for i, x in enumerate(vs):
                if x["discr"] == n:
                    return Agg(("adt", t["d"]), i, ())
            return None
        full = [i for i, x in enumerate(vs) if x["f"]]
        if len(vs) == 2 and len(full) == 1 and len(vs[full[0]]["f"]) == 1:
            p = self.fty(ti, full[0], 0)
            pt = self.tys[p] if p is not None else {"k": "?"}
            if pt["k"] == "bool":
                if n in (0, 1):
                    return Agg(("adt", t["d"]), full[0], (TRUE if n else FALSE,))
                return Agg(("adt", t["d"]), 1 - full[0], ())
            if pt["k"] == "adt":
                q = self.p.adts.get(pt["d"])
                if q is not None and q["kind"] == "enum" and all(not x["f"] for x in q["vars"]):
                    r = self.raw_enum(n, p)
                    return Agg(("adt", t["d"]), full[0], (r,)) if r is not None else Agg(("adt", t["d"]), 1 - full[0], ())
        return None

    def operand(self, fr, st, op):
        k = op["k"]
        if k in ("copy", "move"):
            obj, path, ti = self.loc(fr, st, op["p"])
            return self.read(st, obj, path, ti)
        if k == "const":
            if "fn" in op:
                return self.fnv(fr, op["fn"])
            ti = self.subty(op["t"], fr.env)
            if "v" in op:
                v = self.const_val(op["v"], ti)
                if v is not None:
                    return v
            if "prom" in op or ("def" in op and op["def"] + "" in self.p.fns and False):
                key = "%s#p%d" % (op.get("def") or fr.fn.get("parent") or fr.fn["d"], op["prom"])
                f = self.p.fns.get(key) or self.p.fns.get("%s#p%d" % (fr.fn["d"], op["prom"]))
                if f is not None:
                    outs = self.run_fn(f, [], st, fr.env, fr, keep=True)
                    if len(outs) == 1:
                        st2, v = outs[0]
                        st.store = st2.store
                        return v
            if op.get("def") in self.p.consts and "v" in self.p.consts[op["def"]]:
                v = self.const_val(self.p.consts[op["def"]]["v"], ti)
                if v is not None:
                    return v
            ty = self.tys[ti]
            if ty["k"] == "tuple" and not ty["e"]:
                return UNIT
            name = op.get("def") or op.get("tyconst") or str(op.get("v"))
            if "rawenum" in str(op.get("v")) and ty["k"] == "adt":
                a = self.p.adts.get(ty["d"])
                n = op["v"]["rawenum"]
                if a:
                    for i, vv in enumerate(a["vars"]):
                        if vv["discr"] == n and not vv["f"]:
                            return Agg(("adt", ty["d"]), i, ())
            return self.value_of(st, T("const", str(name)), ti)
        return FALSE

    def fnv(self, fr, c):
        c2 = c
        if fr.env:
            c2 = dict(c)
            c2["a"] = [self.subty(x, fr.env) if isinstance(x, int) else x for x in c["a"]]
            if "r" in c:
                r = dict(c["r"])
                r["a"] = [self.subty(x, fr.env) if isinstance(x, int) else x for x in r["a"]]
                c2["r"] = r
        key = ("fnv", c2["d"], tuple(c2["a"]))
        f = self.sub_memo.get(key)
        if f is None:
            f = FnV(c2)
            self.sub_memo[key] = f
        return f

    # ------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, rv, pty):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k in ("ref", "rawptr"):
            obj, path, ti = self.loc(fr, st, rv[2])
            if path and isinstance(path[-1], tuple) and path[-1][0] == "v":
                path = path[:-1]
            return Ref(obj, path)
        if k == "bin":
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            ti = self.op_ty(fr, rv[2])
            return self.binop(st, rv[1], a, b, ti, self.op_ty(fr, rv[3]))
        if k == "un":
            a = self.operand(fr, st, rv[2])
            if rv[1] == "Not":
                if isinstance(a, T):
                    return bnot(a)
                b = self.bits(self.op_ty(fr, rv[2])) or 64
                a = lin(a)
                if a.const is not None:
                    return Lin(((1 << b) - 1) ^ a.c)
                t = a.t[0][0] if len(a.t) == 1 and a.c == 0 else None
                if t is not None and t.op == "~":
                    return t.args[0]
                return ops.atom("~", b, a)
            if rv[1] == "Neg":
                return -lin(a)
            if rv[1] == "PtrMetadata":
                return self.slen(st, a)
            return Sym(T("un", rv[1], a), pty)
        if k == "cast":
            return self.cast(fr, st, rv)
        if k == "agg":
            fs = tuple(self.operand(fr, st, x) for x in rv[2])
            kd = rv[1]
            if kd[0] == "array":
                return Seq((("lit", fs),))
            if kd[0] == "tuple":
                return Agg("tuple", 0, fs)
            if kd[0] == "adt":
                if kd[1] not in self.p.adts:
                    t = self.tys[pty] if pty is not None else None
                    if t is not None and t["k"] == "adt" and (t["n"] in TRANSPARENT or t["n"] in PTRLIKE) and fs:
                        return fs[0]
                    if t is not None and t["k"] == "adt" and t["n"] == "std::marker::PhantomData":
                        return UNIT
                return Agg(("adt", kd[1]), kd[2], fs)
            if kd[0] == "closure":
                return Agg(("closure", kd[1], tuple(sorted(fr.env.items()))), 0, fs)
            if kd[0] == "rawptr":
                p, meta = fs
                if isinstance(p, Ref) and isinstance(meta, Lin):
                    return self.ptr_slice(p, meta)
                return p
            return Agg("agg", 0, fs)
        if k == "repeat":
            v = self.operand(fr, st, rv[1])
            n = rv[2]
            if not isinstance(n, int):
                try:
                    n = int(n)
                except (TypeError, ValueError):
                    return self.value_of(st, T("repeat", v, str(n)), pty)
            return Seq((("fill", v, Lin(n)),))
        if k == "discr":
            obj, path, ti = self.loc(fr, st, rv[1])
            v = self.read(st, obj, path, ti)
            return self.discr(st, v)
        return self.fresh(st, "rvalue:" + k, pty)

    def ptr_slice(self, p, n):
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "ix":
            return Ref(p.obj, p.path[:-1] + (("rng", p.path[-1][1], n),))
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "rng":
            return Ref(p.obj, p.path[:-1] + (("rng", p.path[-1][1], n),))
        return Ref(p.obj, p.path + (("rng", ZERO, n),))

    def op_ty(self, fr, op):
        if op["k"] in ("copy", "move"):
            return self.place_ty(fr, op["p"])
        if op["k"] == "const":
            return self.subty(op["t"], fr.env)
        return None

    def discr(self, st, v):
        if isinstance(v, Agg):
            if isinstance(v.kind, tuple) and v.kind[0] == "adt" and v.kind[1] in self.p.adts:
                return Lin(self.p.adts[v.kind[1]]["vars"][v.var]["discr"])
            return Lin(v.var)
        if isinstance(v, Sym):
            if v.t in st.vr and v.ty is not None:
                a = self.p.adts.get(self.tys[v.ty].get("d"))
                if a:
                    return Lin(a["vars"][st.vr[v.t]]["discr"])
            t = T("discr", v)
            note_atom(t)
            return Lin.atom(t)
        t = T("discr", v)
        note_atom(t)
        return Lin.atom(t)

    def slen(self, st, v):
        v0 = v
        while isinstance(v, Ref):
            if v.path and isinstance(v.path[-1], tuple) and v.path[-1][0] == "rng":
                return v.path[-1][2]
            w = self.load(st, v)
            if isinstance(w, Sym) and w.ty is None:
                w = self.as_seq(st, v, w)
            v = w
        if isinstance(v, Seq):
            return v.len
        return self.seq(st, v0).len

    def cast(self, fr, st, rv):
        kind, op, ti = rv[1], rv[2], self.subty(rv[3], fr.env)
        v = self.operand(fr, st, op)
        if kind == "IntToInt":
            return self.int_cast(st, v, self.op_ty(fr, op), ti)
        if kind == "Transmute":
            src = self.op_ty(fr, op)
            t, s = self.tys[ti], self.tys[src]
            if t["k"] in ("ref", "ptr", "adt") and isinstance(v, Ref):
                return v
            if src == ti or self.strip(src) == self.strip(ti):
                return v
            return self.value_of(st, T("transmute", self.freeze(st, v), t["s"]), ti)
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind == "BoxDerefTransmute":
            return v
        if kind in ("PointerExposeProvenance", "PointerWithExposedProvenance"):
            return v if isinstance(v, Ref) else self.value_of(st, T("ptrcast", v), ti)
        return self.value_of(st, T("cast", kind, v, self.tys[ti]["s"]), ti)

    def int_cast(self, st, v, sti, ti):
        tb = self.bits(ti)
        sb = self.bits(sti) if sti is not None else None
        v = lin(v)
        if tb is None:
            return v
        if v.const is not None:
            c = v.c & ((1 << tb) - 1)
            if self.tys[ti]["k"] == "int" and c >> (tb - 1):
                c -= 1 << tb
            return Lin(c)
        ssigned = sti is not None and self.tys[sti]["k"] == "int"
        if sb is not None and sb <= tb and not ssigned:
            return v
        if ssigned and self.tys[ti]["k"] == "int" and sb <= tb:
            return v
        if st.facts.entails_ge(v) and st.facts.entails_ge(Lin((1 << tb) - 1) - v):
            return v
        if ssigned:
            return ops.atom("trunc", tb if self.tys[ti]["k"] != "int" else None, v, tb)
        return self.trunc(v, tb)

    def trunc(self, v, tb):
        """low tb bits; drops the low part's high context: trunc(x >> 8k) keeps its own name"""
        return ops.atom("trunc", tb, v, tb)

    CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}

    def binop(self, st, op, a, b, ti, tj=None):
        bits = self.bits(ti) if ti is not None else None
        k = self.tys[ti]["k"] if ti is not None else "?"
        if op in self.CMP:
            return self.compare(st, op, a, b)
        ovf = op.endswith("WithOverflow")
        if ovf:
            op = op[:-12]
        if op.endswith("Unchecked"):
            op = op[:-9]
        if k == "bool" or (isinstance(a, T) and isinstance(b, T)):
            if op == "BitAnd":
                return ops.band(a, b)
            if op == "BitOr":
                return ops.bor(a, b)
            if op == "BitXor":
                return bnot(ops.beq(a, b))
        if isinstance(a, Ref) or isinstance(b, Ref):
            if op == "Offset" and isinstance(a, Ref):
                return self.ptr_add(a, lin(b))
            return Sym(T("ptrop", op, a, b), ti)
        a, b = lin(a), lin(b)
        bits = bits or 64
        signed = k == "int"
        if op in ("Add", "Sub", "Mul"):
            if op == "Add":
                r = a + b
            elif op == "Sub":
                r = a - b
            elif b.const is not None:
                r = a.scale(b.c)
            elif a.const is not None:
                r = b.scale(a.c)
            elif ops.quotient(a, b) is not None:
                x, y = ops.quotient(a, b)
                r = x - ops.rems(st, x, y)
            else:
                x, y = sorted((a, b), key=lambda z: z.id)
                t = T("mul", x, y)
                if not signed:
                    note_atom(t)
                r = Lin.atom(t)
            if ovf:
                return Agg("tuple", 0, (r, self.overflows(st, op, a, b, r, bits, signed)))
            if r.const is not None:
                return Lin(self.wrapc(r.c, bits, signed))
            if not signed and st.facts.entails_ge(r) and (bits >= 64 or st.facts.entails_ge(Lin((1 << bits) - 1) - r)):
                return r
            return r if signed else ops.atom("w" + op, bits, a, b)
        if op in ("Div", "Rem"):
            if b.const is not None and b.c > 0 and not signed:
                return ops.divc(st, a, b.c) if op == "Div" else ops.rem(st, a, b.c)
            if a.const is not None and b.const is not None and b.c:
                q = abs(a.c) // abs(b.c) * (1 if (a.c >= 0) == (b.c >= 0) else -1)
                return Lin(q if op == "Div" else a.c - q * b.c)
            if signed:
                return Lin.atom(T(op, a, b))
            return ops.divs(st, a, b) if op == "Div" else ops.rems(st, a, b)
        if op == "BitXor":
            return ops.xor(a, b, bits)
        if op == "BitOr":
            return ops.bitor(a, b, bits)
        if op == "BitAnd":
            return ops.bitand(st, a, b, bits)
        if op == "Shr":
            if b.const is not None and not signed:
                if a.const is not None:
                    return Lin(a.c >> (b.c % bits))
                if b.c == 0:
                    return a
                if bits >= 64 or not self.wordlike(a):
                    return ops.divc(st, a, 1 << b.c)
                return ops.atom(">>", bits - b.c if b.c < bits else 1, a, b)
            return ops.atom(">>", bits, a, b)
        if op == "Shl":
            if b.const is not None:
                if a.const is not None:
                    return Lin((a.c << (b.c % bits)) & ((1 << bits) - 1))
                if b.c == 0:
                    return a
                if bits >= 64 and not self.wordlike(a) or st.facts.entails_ge(Lin(((1 << bits) - 1) >> b.c) - a):
                    return a.scale(1 << b.c)
            return ops.atom("<<", bits, a, b)
        return self.value_of(st, T("bin", op, a, b), ti)

    @staticmethod
    def wordlike(a):
        """word data rather than a length: atoms produced by bit mixing"""
        for t, _ in a.t:
            if t.op in ("^", "|", "~", "<<", ">>", "be", "le", "wAdd", "rotl", "rotr", "wSub", "wMul"):
                return True
        return False

    def wrapc(self, c, bits, signed):
        c &= (1 << bits) - 1
        if signed and c >> (bits - 1):
            c -= 1 << bits
        return c

    def overflows(self, st, op, a, b, r, bits, signed):
        if r.const is not None:
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
            return FALSE if lo <= r.c <= hi else TRUE
        if signed:
            return FALSE
        if op == "Sub":
            return bnot(ge0(r))
        if bits >= 64:
            return FALSE        # lengths and counters: bounded by memory
        return bnot(ge0(Lin((1 << bits) - 1) - r))

    def compare(self, st, op, a, b):
        if isinstance(a, (Lin,)) or isinstance(b, Lin) or (isinstance(a, Sym) and isinstance(b, Sym) and False):
            a, b = lin(a), lin(b)
            d = a - b
            if op == "Eq":
                return eq0(d)
            if op == "Ne":
                return bnot(eq0(d))
            if op == "Lt":
                return ge0(-d - 1)
            if op == "Le":
                return ge0(-d)
            if op == "Gt":
                return ge0(d - 1)
            return ge0(d)
        if isinstance(a, T) and isinstance(b, T) and op in ("Eq", "Ne"):
            r = ops.beq(a, b)
            return r if op == "Eq" else bnot(r)
        if a is b:
            return TRUE if op in ("Eq", "Le", "Ge") else FALSE
        if op in ("Gt", "Ge"):
            a, b = b, a
            op = {"Gt": "Lt", "Ge": "Le"}[op]
        if op in ("Eq", "Ne"):
            r = T("same", *sorted((self.freeze(st, a), self.freeze(st, b)), key=lambda x: x.id))
            return r if op == "Eq" else bnot(r)
        if op == "Le":
            return bnot(T("less", self.freeze(st, b), self.freeze(st, a)))
        return T("less", self.freeze(st, a), self.freeze(st, b))

    def ptr_add(self, p, n):
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "ix":
            return Ref(p.obj, p.path[:-1] + (("ix", p.path[-1][1] + n),))
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "rng":
            return Ref(p.obj, p.path[:-1] + (("ix", p.path[-1][1] + n),))
        return Ref(p.obj, p.path + (("ix", n),))

    # ------------------------------------------------------------- snapshots
    def freeze(self, st, v, depth=0):
        """value with references replaced by what they point at (a pure term-like value)"""
        if isinstance(v, Ref):
            if depth > 5:
                return T("deep")
            if v.obj[0] == "D" and v.obj not in st.store and not v.path:
                ti = self.dty.get(v.obj[1])
                return T("&", self.value_of(st, T("*", v.obj[1]), ti))
            return T("&", self.freeze(st, self.load(st, v, self.refty(v)), depth + 1))
        if isinstance(v, Agg):
            if not v.f:
                return v
            return Agg(v.kind, v.var, tuple(self.freeze(st, x, depth + 1) for x in v.f))
        if isinstance(v, Seq):
            if any(q[0] == "lit" and any(isinstance(x, (Ref, Agg)) for x in q[1]) for q in v.p):
                return Seq(tuple(("lit", tuple(self.freeze(st, x, depth + 1) for x in q[1])) if q[0] == "lit" else q for q in v.p))
            return v
        return v

    # ------------------------------------------------------------- control
    def discharged(self, st, c, exp):
        """the policy knows that the condition has the expected outcome"""
        h = getattr(self.pol, "discharge", None)
        return h is not None and h(self, st, c, exp)

    def panic(self, fr, span, kind, text="", what=None):
        k = (span[0], span[1], kind, fr.fn["n"] if fr else "")
        self.panics.setdefault(k, []).append((text, fr.stack if fr else (), what))

    def tick(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget("step budget exceeded")

    def block(self, fr, b, st):
        """-> [(target, state)]; target 'ret' for return"""
        self.tick()
        blk = fr.fn["blocks"][b]
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                pty = self.place_ty(fr, s[1])
                v = self.rvalue(fr, st, s[2], pty)
                obj, path, ti = self.loc(fr, st, s[1])
                self.write(st, obj, path, v)
            elif k == "dead":
                st.store.pop(("L", fr.id, s[1]), None)
            elif k == "setd":
                obj, path, ti = self.loc(fr, st, s[1])
                v = self.read(st, obj, path, ti)
                if isinstance(v, Agg):
                    self.write(st, obj, path, Agg(v.kind, s[2], v.f))
        t = blk["t"]
        k = t[0]
        span = blk["sp"]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "drop":
            return [(t[2], s2) for s2 in self.drop(fr, st, t[1], span)]
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            c = self.operand(fr, st, t[1])
            exp = bool(t[2])
            tr = st.truth(c)
            if (tr is None or tr != exp) and not self.discharged(st, c, exp):
                self.panic(fr, span, "assert:" + str(t[3][0]), "%s" % (show(c)[:300],))
                if tr is not None:
                    return []
            if not st.assume(c, exp):
                return []
            return [(t[4], st)]
        if k == "call":
            out = []
            for s2, v in self.call(fr, st, t, span):
                if t[4] is None:
                    continue
                obj, path, ti = self.loc(fr, s2, t[3])
                self.write(s2, obj, path, v)
                out.append((t[4], s2))
            return out
        return []

    def drop(self, fr, st, place, span):
        if place[0] is None:
            return [st]
        obj, path, ti = self.loc(fr, st, place)
        if ti is None:
            return [st]
        t = self.tys[self.strip(ti)]
        if t["k"] == "adt" and t["d"] in self.p.drops:
            f = self.p.drops[t["d"]]
            a = self.p.adts[t["d"]]
            return [s for s, _ in self.run_fn(f, [Ref(obj, path)], st, self.adt_env(a, t), fr, span=span)]
        return [st]

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        out = []
        if isinstance(v, T):
            zero = None
            for val, tgt in t[2]:
                if val == 0:
                    zero = tgt
            one = t[3]
            for val, tgt in t[2]:
                if val == 1:
                    one = tgt
            if zero is None:
                zero = t[3]
            tr = st.truth(v)
            if tr is True:
                st.assume(v, True)
                return [(one, st)]
            if tr is False:
                st.assume(v, False)
                return [(zero, st)]
            s2 = st.copy()
            if st.assume(v, True):
                out.append((one, st))
            if s2.assume(v, False):
                out.append((zero, s2))
            return out
        v = lin(v)
        if v.const is not None:
            for val, tgt in t[2]:
                if val == v.c:
                    return [(tgt, st)]
            return [(t[3], st)]
        a = v.t[0][0] if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 else None
        if a is not None and a.op == "discr" and isinstance(a.args[0], Sym):
            sym = a.args[0]
            adt = self.p.adts.get(self.tys[sym.ty].get("d")) if sym.ty is not None else None
            known = st.vr.get(sym.t)
            seen = []
            for val, tgt in t[2]:
                vi = None
                if adt:
                    for i, vv in enumerate(adt["vars"]):
                        if vv["discr"] == val:
                            vi = i
                seen.append(vi)
                if known is not None and known != vi:
                    continue
                if vi in st.meta.get(("notvr", sym.t), ()):
                    continue
                s2 = st.copy()
                s2.vr[sym.t] = vi
                self.on_variant(s2, sym, vi)
                out.append((tgt, s2))
            rest = [i for i in range(len(adt["vars"])) if i not in seen and i not in st.meta.get(("notvr", sym.t), ())] if adt else [None]
            if known is not None:
                rest = [known] if known not in seen else []
            if rest:
                s2 = st.copy()
                if len(rest) == 1 and rest[0] is not None:
                    s2.vr[sym.t] = rest[0]
                    self.on_variant(s2, sym, rest[0])
                elif adt:
                    s2.meta[("notvr", sym.t)] = tuple(x for x in seen if x is not None) + s2.meta.get(("notvr", sym.t), ())
                out.append((t[3], s2))
            return out
        vals = [x for x, _ in t[2]]
        for val, tgt in t[2]:
            s2 = st.copy()
            if s2.assume(eq0(v - val), True):
                out.append((tgt, s2))
        for val in vals:
            if not st.assume(eq0(v - val), False):
                return out
        out.append((t[3], st))
        return out

    def on_variant(self, st, sym, vi):
        h = getattr(self.pol, "on_variant", None)
        if h:
            h(self, st, sym, vi)

    def region(self, fr, blocks, entry, states, header):
        pos = fr.fn.setdefault("rpos", {b: i for i, b in enumerate(fr.fn["rpo"])})
        loops = fr.fn["loops"]
        pend = {entry: list(states)}
        ret, back, exits = [], [], {}
        while pend:
            b = min(pend, key=lambda x: pos.get(x, 1 << 30))
            sts = self.join(fr, b, pend.pop(b))
            outs = []
            if b in loops and b != header:
                for s in sts:
                    outs.extend(self.mir_loop(fr, b, s))
            else:
                for s in sts:
                    outs.extend(self.block(fr, b, s))
            for tgt, s in outs:
                if tgt == "ret":
                    ret.append(s)
                elif tgt == header:
                    back.append(s)
                elif tgt in blocks:
                    pend.setdefault(tgt, []).append(s)
                else:
                    exits.setdefault(tgt, []).append(s)
        return ret, back, exits

    def mir_loop(self, fr, b, st):
        from .loops import run_loop
        body = fr.fn["loops"][b]

        def step(h):
            ret, back, exits = self.region(fr, body, b, [h], b)
            ex = [("ret", s) for s in ret]
            for tgt, ss in exits.items():
                ex.extend((tgt, s) for s in ss)
            return self.join(fr, b, back), ex
        sp = fr.fn["blocks"][b]["sp"]
        return run_loop(self, (fr.fn["n"], b, sp), st, step, fr)

    # ---- joins ----
    def join(self, fr, b, sts):
        if len(sts) <= 1 or self.split and len(sts) <= self.split:
            return sts
        live = self.live_in(fr.fn, b) if b is not None else None
        groups = {}
        order = []
        for s in sts:
            if live is not None:
                for k in [k for k in s.store if k[0] == "L" and k[1] == fr.id and k[2] not in live]:
                    del s.store[k]
            key = (frozenset(s.store.items()), id(s.ev), s.univ)
            if key in groups:
                groups[key].append(s)
            else:
                groups[key] = [s]
                order.append(key)
        out = []
        for k in order:
            g = groups[k]
            s = g[0]
            for o in g[1:]:
                self.meet_facts(s, o)
            out.append(s)
        if len(out) > self.MAXSTATES:
            raise Budget("too many states at %s" % (fr.fn["n"],))
        return out

    def meet_facts(self, s, o):
        fs, fo = s.facts, o.facts
        if fs.ver == fo.ver and s.b == o.b and s.vr == o.vr:
            return
        ge = [e for e in fs.ge if fo.entails_ge(e)]
        ge += [e for e in fo.ge if e not in ge and fs.entails_ge(e)]
        for e in fs.eq:
            if not fo.entails_eq(e):
                for x in (e, -e):
                    if fo.entails_ge(x):
                        ge.append(x)
        for e in fo.eq:
            if not fs.entails_eq(e):
                for x in (e, -e):
                    if fs.entails_ge(x):
                        ge.append(x)
        eq = [e for e in fs.eq if fo.entails_eq(e)]
        eq += [e for e in fo.eq if e not in eq and fs.entails_eq(e)]
        ne = frozenset(e for e in (fs.ne | fo.ne) if fo.entails_ne(e) and fs.entails_ne(e))
        f = type(fs)()
        f.ge, f.eq, f.ne = tuple(dict.fromkeys(ge)), tuple(dict.fromkeys(eq)), ne
        f._bump()
        s.facts = f
        s.b = {k: v for k, v in s.b.items() if o.b.get(k) == v or o.truth(k) == v}
        s.vr = {k: v for k, v in s.vr.items() if o.vr.get(k) == v}
        m = {}
        for k, v in s.meta.items():
            if k in o.meta:
                if o.meta[k] == v:
                    m[k] = v
                elif isinstance(k, tuple) and k[0] in ("mult", "notvr"):
                    m[k] = tuple(x for x in v if x in o.meta[k])
        s.meta = m

    def live_in(self, fn, b):
        lv = fn.get("_live")
        if lv is None:
            lv = fn["_live"] = liveness(fn)
        return lv.get(b)

    # ------------------------------------------------------------- calls
    def run_fn(self, fn, args, st, env, parent, span=None, keep=False):
        depth = parent.depth + 1 if parent else 0
        if depth > 40:
            raise Budget("call depth")
        self.nfr += 1
        stack = (parent.stack if parent else ()) + ((fn["n"], tuple(span) if span else None),)
        fr = Frame(self.nfr, fn, dict(env or {}), stack, depth)
        for i, a in enumerate(args):
            o = ("L", fr.id, i + 1)
            st.store[o] = a
            if i + 1 < len(fn["lty"]):
                self.oty[o] = self.subty(fn["lty"][i + 1], fr.env)
        ret, _, _ = self.region(fr, set(fn["rpo"]), 0, [st], None)
        outs = []
        groups = {}
        for s in ret:
            ti = self.subty(fn["lty"][0], fr.env)
            v = s.store.get(("L", fr.id, 0))
            if v is None:
                v = UNIT
            v = self.coerce(s, v, ti)
            if keep and isinstance(v, Ref) and v.obj[0] == "L" and v.obj[1] == fr.id:
                c = self.freeze_promoted(s, v, fr)
                v = Ref(("K", c))
            for k in [k for k in s.store if k[0] == "L" and k[1] == fr.id]:
                del s.store[k]
            key = (frozenset(s.store.items()), id(s.ev), v, s.univ)
            if key in groups and not (self.split and len(ret) <= self.split):
                self.meet_facts(groups[key][0], s)
            else:
                groups[key] = (s, v)
                outs.append(groups[key])
        if len(outs) > self.MAXSTATES:
            raise Budget("too many outcomes of %s" % fn["n"])
        return outs

    def freeze_promoted(self, st, v, fr):
        c = self.load(st, v, self.refty(v))

        def fix(x):
            if isinstance(x, Ref) and x.obj[0] == "L" and x.obj[1] == fr.id:
                return Ref(("K", fix(self.load(st, x, self.refty(x)))))
            if isinstance(x, Agg):
                return Agg(x.kind, x.var, tuple(fix(y) for y in x.f))
            if isinstance(x, Seq):
                return Seq(tuple(("lit", tuple(fix(y) for y in q[1])) if q[0] == "lit" else q for q in x.p))
            return x
        return fix(c)

    def call(self, fr, st, t, span):
        f = t[1]
        args = [self.operand(fr, st, a) for a in t[2]]
        rty = self.place_ty(fr, t[3]) if t[3] else None
        if f["k"] == "const" and "fn" in f:
            c = self.fnv(fr, f["fn"]).c
            if t[4] is None:
                self.panic(fr, span, "diverge:" + short(c)[1], short(c)[0])
                h = getattr(self.pol, "diverge", None)
                if h:
                    h(self, fr, st, c, args, span)
                return []
            argtys = [self.op_ty(fr, a) for a in t[2]]
            return self.invoke(fr, st, c, args, rty, span, argtys)
        fv = self.operand(fr, st, f)
        return self.call_value(fr, st, fv, args, rty, span)

    def call_value(self, fr, st, fv, args, rty, span):
        """call a closure / function value with already untupled arguments"""
        n = 0
        self_ref = None
        while isinstance(fv, Ref) and n < 4:
            self_ref = fv
            fv = self.load(st, fv, self.refty(fv))
            n += 1
        if isinstance(fv, FnV):
            c = fv.c
            if rty is None:
                k = c.get("r", {}).get("d") if c.get("r", {}).get("local") else c["d"]
                f = self.p.fns.get(k)
                if f is not None:
                    rty = f.get("out")
                else:
                    # constructor functions of enum variants / tuple structs
                    v = self.ctor(c, args)
                    if v is not None:
                        return [(st, v)]
            else:
                v = self.ctor(c, args)
                if v is not None:
                    return [(st, v)]
            return self.invoke(fr, st, c, args, rty, span, None)
        if isinstance(fv, Agg) and isinstance(fv.kind, tuple) and fv.kind[0] == "closure":
            fn = self.p.fns.get(fv.kind[1])
            if fn is not None:
                t1 = self.tys[fn["lty"][1]]
                tmp = None
                if t1["k"] == "ref":
                    if self_ref is None:
                        self_ref = self.alloc(st, fv, t1["e"])
                        tmp = self_ref.obj
                    a0 = self_ref
                else:
                    a0 = fv
                outs = self.run_fn(fn, [a0] + list(args), st, dict(fv.kind[2]), fr, span=span)
                if tmp is not None:
                    for s, _ in outs:
                        s.store.pop(tmp, None)
                return outs
        self.nser += 1
        t = T("callv", self.freeze(st, fv), self.nser)
        for i, a in enumerate(args):
            self.havoc_mut(st, a, None, T("out", t, i))
        return [(st, self.value_of(st, t, rty))]

    def ctor(self, c, args):
        d = c["d"]
        if d.endswith("{constructor}") or "{constructor#0}" in d:
            base = d.rsplit("::", 1)[0]
            for a in self.p.adts.values():
                if a["d"] == base:
                    return Agg(("adt", base), 0, tuple(args))
                for i, v in enumerate(a["vars"]):
                    if a["d"] + "::" + v["n"] == base:
                        return Agg(("adt", a["d"]), i, tuple(args))
        nm = c["n"]
        for a in self.p.adts.values():
            for i, v in enumerate(a["vars"]):
                if a["n"] + "::" + v["n"] == nm or (a["n"].rsplit("::", 1)[-1] in ("Result", "Option") and nm.endswith("::" + v["n"]) and a["n"].split("::")[-1] in nm):
                    return Agg(("adt", a["d"]), i, tuple(args))
        return None

    def bind(self, pat, ti, env):
        """match a type with parameters against a concrete type"""
        if pat is None or ti is None or isinstance(pat, str) or isinstance(ti, str):
            return
        p, t = self.tys[pat], self.tys[ti]
        if p["k"] == "param":
            env.setdefault(p["n"], ti)
            return
        if p["k"] != t["k"]:
            return
        for fld in ("e", "a"):
            if fld in p and fld in t:
                x, y = p[fld], t[fld]
                if isinstance(x, list):
                    for i, j in zip(x, y):
                        if isinstance(i, int) and isinstance(j, int):
                            self.bind(i, j, env)
                elif isinstance(x, int):
                    self.bind(x, y, env)

    def resolve(self, c):
        """-> (fn dict or None, env)"""
        r = c.get("r")
        if r and r.get("local") and r["d"] in self.p.fns and r.get("kind") in (None, "item"):
            f = self.p.fns[r["d"]]
            return f, {n: x for n, x in zip(f.get("gen", ()), r["a"]) if isinstance(x, int)}
        if c.get("trait") and c["a"]:
            ti = self.strip(c["a"][0])
            t = self.tys[ti]
            n = 0
            while t["k"] == "ref" and n < 3 and not c["tname"] in ("Clone", "IntoIterator", "Iterator"):
                ti = t["e"]
                t = self.tys[ti]
                n += 1
            k = t.get("d") if t["k"] == "adt" else t["s"]
            f = self.p.trait_impls.get((c["tname"], k, c["name"]))
            if f is not None:
                env = {}
                self.bind(f["self"], ti, env)
                # method generics
                g = f.get("gen", ())
                rest = [x for x in g if x not in env]
                for nme, x in zip(reversed(rest), reversed([x for x in c["a"] if isinstance(x, int)])):
                    env.setdefault(nme, x)
                return f, env
            # provided method of a local trait
            f = self.p.fns.get(c["d"])
            if f is not None and t["k"] == "adt":
                env = {n: x for n, x in zip(f.get("gen", ()), c["a"]) if isinstance(x, int)}
                return f, env
        if not r and not c.get("trait") and c["d"] in self.p.fns:
            f = self.p.fns[c["d"]]
            return f, {n: x for n, x in zip(f.get("gen", ()), c["a"]) if isinstance(x, int)}
        return None, None

    def invoke(self, fr, st, c, args, rty, span, argtys=None):
        from . import models
        fn, env = self.resolve(c)
        r = self.pol.call(self, fr, st, c, fn, args, rty, span)
        if r is not None:
            return r
        if fn is not None:
            rec = sum(1 for x in fr.stack if x[0] == fn["n"])
            if fn["kind"] == "closure" and c.get("tname") in ("Fn", "FnMut", "FnOnce") and rec < 2 and len(args) == 2 and isinstance(args[1], Agg) and args[1].kind == "tuple":
                return self.call_value(fr, st, args[0], list(args[1].f), rty, span)
            if rec < 2 and self.pol.inline(self, fn):
                return self.run_fn(fn, args, st, env, fr, span=span)
            return self.opaque(fr, st, fn["n"], args, rty, fn.get("in"), span, fn)
        r = models.call(self, fr, st, c, args, rty, span)
        if r is not None:
            return r
        nm = c.get("r", {}).get("n") or c["n"]
        self.opaque_calls[nm] = self.opaque_calls.get(nm, 0) + 1
        return self.opaque(fr, st, nm, args, rty, argtys, span)

    def restrict(self, st, a, fn, frozen, fixed=None):
        """(frozen argument without the struct fields fn never touches, fields it may write or None)"""
        if not isinstance(a, Ref):
            return frozen, None
        v = self.load(st, a, self.refty(a))
        if not (isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "adt"):
            return frozen, None
        if fielduse.fields(self.p, fn, v.kind[1], fixed) is None or any(isinstance(x, Ref) for x in v.f):
            return frozen, None
        return T("&", self.accessed(st, fn, v, fixed)), fn

    def accessed(self, st, fn, v, fixed=None):
        """the object as far as fn may look at it"""
        u = fielduse.fields(self.p, fn, v.kind[1], fixed) if isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "adt" and v.var == 0 and v.kind[1] in self.p.adts and self.p.adts[v.kind[1]]["local"] else None
        if u is None:
            return self.freeze(st, v)
        return Agg(v.kind, v.var, tuple(self.accessed(st, fn, x, fixed) if i in u[0] else UNIT for i, x in enumerate(v.f)))

    def rewritten(self, fn, old, new, fixed=None):
        """old with the parts fn may write taken from new"""
        u = fielduse.fields(self.p, fn, old.kind[1], fixed) if isinstance(old, Agg) and isinstance(new, Agg) and len(new.f) == len(old.f) and isinstance(old.kind, tuple) and old.kind[0] == "adt" and old.kind[1] in self.p.adts and self.p.adts[old.kind[1]]["local"] else None
        if u is None:
            return new
        return Agg(old.kind, old.var, tuple(self.rewritten(fn, o, n, fixed) if k in u[1] else o for k, (o, n) in enumerate(zip(old.f, new.f))))

    def opaque(self, fr, st, name, args, rty, argtys, span, fn=None):
        fz = [self.freeze(st, a) for a in args]
        wr = [None] * len(args)
        if fn is not None:
            fixed = {i + 1: a.var for i, a in enumerate(args) if isinstance(a, Agg) and isinstance(a.kind, tuple) and a.kind[0] == "adt" and a.kind[1].endswith("Option")}
            for i, a in enumerate(args):
                fz[i], wr[i] = self.restrict(st, a, fn, fz[i], fixed)
        t = T("call", name, *fz)
        for i, a in enumerate(args):
            at = argtys[i] if argtys and i < len(argtys) else None
            if wr[i] is not None:
                if at is not None and self.tys[at]["k"] == "ref" and self.tys[at].get("m"):
                    old = self.load(st, a, self.refty(a))
                    new = self.value_of(st, T("out", t, i), self.refty(a) or self.tys[at]["e"])
                    if isinstance(new, Agg) and isinstance(old, Agg) and len(new.f) == len(old.f):
                        self.store(st, a, self.rewritten(fn, old, new, fixed))
                        continue
                    self.havoc_mut(st, a, at, T("out", t, i))
                continue
            self.havoc_mut(st, a, at, T("out", t, i))
        if rty is not None and self.tys[rty]["k"] == "ref":
            # a returned reference may alias one of the arguments
            self.dty.setdefault(t, self.tys[rty]["e"])
        return [(st, self.value_of(st, t, rty))]

    def havoc_mut(self, st, a, ti, t, depth=0):
        if not isinstance(a, Ref) or depth > 3:
            return
        ty = self.tys[ti] if ti is not None else None
        if ty is not None and ty["k"] in ("ref", "ptr") and not ty.get("m"):
            return
        if ty is None and a.obj[0] in ("K", "S"):
            return
        if ty is None:
            return
        pt = self.pointee(ti) if ty["k"] in ("ref", "ptr", "adt") else None
        if pt is None:
            return
        old = self.load(st, a, self.refty(a) or pt)
        if isinstance(old, Ref):
            self.havoc_mut(st, old, pt, t, depth + 1)
            return
        if isinstance(old, Seq) and self.tys[self.strip(pt)]["k"] in ("slice", "array"):
            self.store(st, a, Seq((("src", t, ZERO, old.len),)))
            return
        self.store(st, a, self.value_of(st, t, self.refty(a) or pt))


def liveness(fn):
    """locals that may still be read at block entry; borrowed locals always count"""
    addr = set()
    use, dfn = {}, {}

    def pl_use(p, u, d):
        if p[0] not in d:
            u.add(p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                u.add(e[1])

    def op_use(o, u, d):
        if o.get("k") in ("copy", "move"):
            pl_use(o["p"], u, d)

    for i, b in enumerate(fn["blocks"]):
        u, d = set(), set()
        for s in b["s"]:
            if s[0] == "=":
                rv = s[2]
                if rv[0] in ("ref", "rawptr"):
                    pl_use(rv[2], u, d)
                    if "*" not in rv[2]:
                        addr.add(rv[2][0])
                elif rv[0] == "discr":
                    pl_use(rv[1], u, d)
                else:
                    for x in rv[1:]:
                        if isinstance(x, dict):
                            op_use(x, u, d)
                        elif isinstance(x, list):
                            for y in x:
                                if isinstance(y, dict):
                                    op_use(y, u, d)
                if len(s[1]) == 1:
                    d.add(s[1][0])
                else:
                    pl_use(s[1], u, d)
            elif s[0] == "setd":
                pl_use(s[1], u, d)
        t = b["t"]
        if t[0] == "switch":
            op_use(t[1], u, d)
        elif t[0] == "assert":
            op_use(t[1], u, d)
        elif t[0] == "call":
            op_use(t[1], u, d)
            for x in t[2]:
                op_use(x, u, d)
            if t[3]:
                if len(t[3]) == 1:
                    d.add(t[3][0])
                else:
                    pl_use(t[3], u, d)
        elif t[0] == "drop":
            pl_use(t[1], u, d)
        elif t[0] == "return":
            if 0 not in d:
                u.add(0)
        use[i], dfn[i] = u, d
    live = {b: set() for b in fn["rpo"]}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn["rpo"]):
            o = set()
            for s in fn["succ"][b]:
                o |= live.get(s, set())
            n = use[b] | (o - dfn[b])
            if n != live[b]:
                live[b] = n
                ch = True
    for b in live:
        live[b] |= addr
    return live


_short = {}


def short(c):
    """(owner, name) of a callee, generics stripped"""
    k = c["d"]
    r = _short.get(k)
    if r is None:
        n = c["n"]
        out, depth, cur = [], 0, ""
        i = 0
        while i < len(n):
            ch = n[i]
            if ch == "<":
                depth += 1
                cur += ch
            elif ch == ">" and n[i - 1] != "-":
                depth -= 1
                cur += ch
            elif depth == 0 and n.startswith("::", i):
                out.append(cur)
                cur = ""
                i += 2
                continue
            else:
                cur += ch
            i += 1
        out.append(cur)
        segs = []
        for s in out:
            if s.startswith("<impl "):
                segs.append(s[6:-1])
            elif s.startswith("<"):
                continue
            else:
                segs.append(s.split("<")[0])
        owner = segs[-2] if len(segs) > 1 else ""
        r = _short[k] = (owner, segs[-1])
    return r
