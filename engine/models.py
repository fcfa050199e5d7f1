"""Models of std (and rmath arithmetic) operations on abstract values."""
from .terms import *
from .num import note_atom, UNSIGNED
from .state import seq_slice, seq_put, seq_get, Ev
from . import ops
from .ops import lin, ge0, eq0, bnot

NONE_, SOME = 0, 1
OK, ERR = 0, 1


class M:
    """call context"""
    __slots__ = ("I", "fr", "st", "c", "args", "rty", "span", "owner", "name")

    def __init__(self, I, fr, st, c, args, rty, span, owner, name):
        self.I, self.fr, self.st, self.c, self.args, self.rty, self.span = I, fr, st, c, args, rty, span
        self.owner, self.name = owner, name


TABLE = {}


def model(*keys):
    def d(f):
        for k in keys:
            TABLE[k] = f
        return f
    return d


def call(I, fr, st, c, args, rty, span):
    from .interp import short
    owner, name = short(c)
    n = c["n"]
    m = M(I, fr, st, c, args, rty, span, owner, name)
    if n.startswith("core::fmt") or n.startswith("std::fmt") or n.startswith("alloc::fmt") or owner in ("fmt", "Formatter", "Arguments", "Argument"):
        return fmt(m)
    f = None
    tn = c.get("tname")
    if tn:
        f = TABLE.get((tn, name)) or TABLE.get((tn, "*"))
    if f is None:
        f = TABLE.get((owner, name))
    if f is None and owner in INTS:
        f = TABLE.get(("int", name))
    if f is None and (owner.startswith("[") or owner == "slice"):
        f = TABLE.get(("slice", name))
    if f is None:
        f = TABLE.get(("", name)) if owner in ("mem", "cmp", "ptr", "hint", "iter", "boxed", "convert", "const_ptr", "mut_ptr", "*const T", "*mut T", "intrinsics", "string") else None
    if f is None:
        return None
    return f(m)


INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}


def fmt(m):
    I, st = m.I, m.st
    if m.rty is None:
        return [(st, UNIT)]
    ty = I.tys[m.rty]
    if ty["k"] == "adt" and ty["n"].endswith("Result"):
        return [(st, mk(I, "Result", OK, UNIT))]
    if m.owner == "Argument" and m.args:
        v = m.args[0]
        while isinstance(v, Ref):
            v = I.load(st, v, I.refty(v))
        if isinstance(v, Lin):
            return [(st, Sym(T("farg", m.name, v), m.rty))]
    if m.owner == "Arguments" and m.name == "new" and len(m.args) == 2:
        try:
            tpl = [x.const for x in I.seq(st, m.args[0]).p[0][1]]
            av = I.seq(st, m.args[1])
            if len(av.p) == 1 and av.p[0][0] == "lit" and all(isinstance(x, Sym) and x.t.op == "farg" for x in av.p[0][1]):
                return [(st, Sym(T("fmt", tuple(tpl), *[x.t for x in av.p[0][1]]), m.rty))]
        except (AttributeError, TypeError, IndexError):
            pass
    if m.name == "format" and m.args and isinstance(m.args[0], Sym) and isinstance(m.args[0].t, T) and m.args[0].t.op == "fmt" and len(m.args[0].t.args) > 1:
        t = m.args[0].t
        n = fmt_lits(t.args[0])
        if n is not None:
            k = len(t.args) - 1
            le = I.lenatom(t)
            st.facts.add_ge(le - (n + k))
            st.facts.add_ge(-le + (n + 39 * k))
        return [(st, Sym(t, m.rty))]
    return [(st, Sym(T("fmt"), m.rty))]


def fmt_lits(tpl):
    """total length of the literal pieces of a compiled format template with plain placeholders, or None"""
    i, n = 0, 0
    while i < len(tpl):
        b = tpl[i]
        if b == 0:
            return n if i == len(tpl) - 1 else None
        if b < 0x80:
            n += b
            i += 1 + b
        elif b == 0xc0:
            i += 1
        else:
            return None
    return None


# ---- enum helpers -----------------------------------------------------------

def adtkey(I, name):
    k = ("adtkey", name)
    r = I.sub_memo.get(k)
    if r is None:
        for a in I.p.adts.values():
            if not a["local"] and a["n"].split("::")[-1] == name:
                r = a["d"]
        if r is None:
            r = "core::%s" % name
        I.sub_memo[k] = r
    return r


def mk(I, name, var, *f):
    return Agg(("adt", adtkey(I, name)), var, tuple(f))


def some(I, v):
    return mk(I, "Option", SOME, v)


def none(I):
    return mk(I, "Option", NONE_)


def cases(I, st, v, ti=None, nvar=2):
    """[(state, variant, fields)] of an Option/Result-like value"""
    if isinstance(v, Agg):
        return [(st, v.var, v.f)]
    if isinstance(v, Sym):
        ti = v.ty if v.ty is not None else ti
        ti = I.strip(ti) if ti is not None else None
        known = st.vr.get(v.t)
        out = []
        for k in range(nvar):
            if known is not None and known != k:
                continue
            if k in st.meta.get(("notvr", v.t), ()):
                continue
            s = st if known is not None else st.copy()
            s.vr[v.t] = k
            if known is None:
                I.on_variant(s, v, k)
            if ti is not None and I.tys[ti]["k"] == "adt" and I.tys[ti]["d"] in I.p.adts:
                a = I.variant(s, v.t, ti, k)
                out.append((s, k, a.f))
            else:
                out.append((s, k, (Sym(T("fld", v.t, k, 0), None),)))
        return out
    return [(st, 0, (v,))]


def argty(m, i):
    return None


def deref(I, st, v):
    """load through references until a non-reference"""
    n = 0
    while isinstance(v, Ref) and n < 5:
        v = I.load(st, v, I.refty(v))
        n += 1
    return v


def selfty_arg(m, i=0):
    a = m.c["a"]
    return a[i] if len(a) > i and isinstance(a[i], int) else None


# ---- Option / Result --------------------------------------------------------

@model(("Option", "unwrap"), ("Option", "expect"), ("Result", "unwrap"), ("Result", "expect"))
def unwrap(m):
    I, st = m.I, m.st
    good = SOME if m.owner == "Option" else OK
    out = []
    cs = cases(I, st, m.args[0])
    for s, k, f in cs:
        if k == good:
            out.append((s, I.coerce(s, f[0], m.rty)))
        else:
            I.panic(m.fr, m.span, "unwrap", show(m.args[0])[:200], m.args[0])
    return out


@model(("Option", "unwrap_or"), ("Result", "unwrap_or"))
def unwrap_or(m):
    good = SOME if m.owner == "Option" else OK
    return [(s, f[0] if k == good else m.args[1]) for s, k, f in cases(m.I, m.st, m.args[0])]


@model(("Option", "unwrap_or_else"), ("Result", "unwrap_or_else"))
def unwrap_or_else(m):
    good = SOME if m.owner == "Option" else OK
    out = []
    for s, k, f in cases(m.I, m.st, m.args[0]):
        if k == good:
            out.append((s, f[0]))
        else:
            out += m.I.call_value(m.fr, s, m.args[1], [] if m.owner == "Option" else list(f), m.rty, m.span)
    return out


@model(("Option", "unwrap_or_default"), ("Result", "unwrap_or_default"))
def unwrap_or_default(m):
    good = SOME if m.owner == "Option" else OK
    return [(s, f[0] if k == good else default_of(m.I, s, m.rty)) for s, k, f in cases(m.I, m.st, m.args[0])]


def default_of(I, st, ti):
    t = I.tys[ti] if ti is not None else {"k": "?"}
    if t["k"] in ("int", "uint"):
        return ZERO
    if t["k"] == "bool":
        return FALSE
    if t["k"] == "adt" and I.is_vec(t):
        return EMPTY
    if t["k"] == "array" and isinstance(t["len"], int):
        return Seq((("fill", default_of(I, st, t["e"]), Lin(t["len"])),))
    if t["k"] == "tuple":
        return Agg("tuple", 0, tuple(default_of(I, st, e) for e in t["e"]))
    return I.value_of(st, T("default", t.get("s", "?")), ti)


@model(("Default", "default"))
def default(m):
    return [(m.st, default_of(m.I, m.st, m.rty))]


def which(m, vals):
    v = m.args[0]
    if isinstance(v, Ref):
        v = m.I.load(m.st, v, m.I.refty(v))
    return [(s, TRUE if k in vals else FALSE) for s, k, f in cases(m.I, m.st, v)]


@model(("Option", "is_some"))
def is_some(m):
    return which(m, (SOME,))


@model(("Option", "is_none"))
def is_none(m):
    return which(m, (NONE_,))


@model(("Result", "is_ok"))
def is_ok(m):
    return which(m, (OK,))


@model(("Result", "is_err"))
def is_err(m):
    return which(m, (ERR,))


@model(("Option", "ok_or"))
def ok_or(m):
    return [(s, mk(m.I, "Result", OK, f[0]) if k == SOME else mk(m.I, "Result", ERR, m.args[1])) for s, k, f in cases(m.I, m.st, m.args[0])]


@model(("Option", "ok_or_else"))
def ok_or_else(m):
    out = []
    for s, k, f in cases(m.I, m.st, m.args[0]):
        if k == SOME:
            out.append((s, mk(m.I, "Result", OK, f[0])))
        else:
            out += [(s2, mk(m.I, "Result", ERR, v)) for s2, v in m.I.call_value(m.fr, s, m.args[1], [], retinner(m, SOME), m.span)]
    return out


def owner_adt(m):
    return "Option" if m.owner == "Option" else "Result"


def retinner(m, var):
    """payload type of the returned Option/Result"""
    if m.rty is None:
        return None
    return m.I.fty(m.I.strip(m.rty), var, 0) if m.I.tys[m.I.strip(m.rty)]["k"] == "adt" else None


@model(("Option", "map"), ("Result", "map"))
def omap(m):
    good = SOME if m.owner == "Option" else OK
    o = owner_adt(m)
    out = []
    for s, k, f in cases(m.I, m.st, m.args[0]):
        if k == good:
            out += [(s2, mk(m.I, o, good, v)) for s2, v in m.I.call_value(m.fr, s, m.args[1], [f[0]], retinner(m, good), m.span)]
        else:
            out.append((s, mk(m.I, o, k, *f)))
    return out


@model(("Result", "map_err"))
def map_err(m):
    out = []
    for s, k, f in cases(m.I, m.st, m.args[0]):
        if k == ERR:
            out += [(s2, mk(m.I, "Result", ERR, v)) for s2, v in m.I.call_value(m.fr, s, m.args[1], [f[0]], retinner(m, ERR), m.span)]
        else:
            out.append((s, mk(m.I, "Result", OK, *f)))
    return out


@model(("Option", "and_then"), ("Result", "and_then"))
def and_then(m):
    good = SOME if m.owner == "Option" else OK
    o = owner_adt(m)
    out = []
    for s, k, f in cases(m.I, m.st, m.args[0]):
        if k == good:
            out += m.I.call_value(m.fr, s, m.args[1], [f[0]], m.rty, m.span)
        else:
            out.append((s, mk(m.I, o, k, *f)))
    return out


@model(("Option", "or_else"), ("Result", "or_else"))
def or_else(m):
    good = SOME if m.owner == "Option" else OK
    o = owner_adt(m)
    out = []
    for s, k, f in cases(m.I, m.st, m.args[0]):
        if k == good:
            out.append((s, mk(m.I, o, k, *f)))
        else:
            out += m.I.call_value(m.fr, s, m.args[1], list(f) if o == "Result" else [], m.rty, m.span)
    return out


@model(("Option", "or"), ("Result", "or"))
def o_or(m):
    good = SOME if m.owner == "Option" else OK
    return [(s, mk(m.I, owner_adt(m), k, *f) if k == good else m.args[1]) for s, k, f in cases(m.I, m.st, m.args[0])]


@model(("Option", "and"), ("Result", "and"))
def o_and(m):
    good = SOME if m.owner == "Option" else OK
    return [(s, m.args[1] if k == good else mk(m.I, owner_adt(m), k, *f)) for s, k, f in cases(m.I, m.st, m.args[0])]


@model(("Option", "map_or"), ("Result", "map_or"))
def map_or(m):
    good = SOME if m.owner == "Option" else OK
    out = []
    for s, k, f in cases(m.I, m.st, m.args[0]):
        if k == good:
            out += m.I.call_value(m.fr, s, m.args[2], [f[0]], m.rty, m.span)
        else:
            out.append((s, m.args[1]))
    return out


@model(("Option", "is_some_and"), ("Result", "is_ok_and"), ("Result", "is_err_and"), ("Option", "is_none_or"))
def is_and(m):
    good = {"is_some_and": SOME, "is_none_or": SOME, "is_ok_and": OK, "is_err_and": 1 - OK}[m.name]
    out = []
    for s, k, f in cases(m.I, m.st, m.args[0]):
        if k == good:
            out += m.I.call_value(m.fr, s, m.args[1], [f[0]], m.rty, m.span)
        else:
            out.append((s, TRUE if m.name == "is_none_or" else FALSE))
    return out


@model(("bool", "then"), ("bool", "then_some"))
def then(m):
    out = []
    for s, t in split(m.st, m.args[0]):
        if not t:
            out.append((s, none(m.I)))
        elif m.name == "then_some":
            out.append((s, some(m.I, m.args[1])))
        else:
            out += [(s2, some(m.I, v)) for s2, v in m.I.call_value(m.fr, s, m.args[1], [], retinner(m, SOME), m.span)]
    return out


@model(("Option", "map_or_else"), ("Result", "map_or_else"))
def map_or_else(m):
    good = SOME if m.owner == "Option" else OK
    out = []
    for s, k, f in cases(m.I, m.st, m.args[0]):
        if k == good:
            out += m.I.call_value(m.fr, s, m.args[2], [f[0]], m.rty, m.span)
        else:
            out += m.I.call_value(m.fr, s, m.args[1], list(f) if m.owner == "Result" else [], m.rty, m.span)
    return out


@model(("Result", "ok"))
def r_ok(m):
    return [(s, some(m.I, f[0]) if k == OK else none(m.I)) for s, k, f in cases(m.I, m.st, m.args[0])]


@model(("Result", "err"))
def r_err(m):
    return [(s, some(m.I, f[0]) if k == ERR else none(m.I)) for s, k, f in cases(m.I, m.st, m.args[0])]


@model(("Option", "as_ref"), ("Option", "as_mut"), ("Option", "as_deref"), ("Option", "as_deref_mut"), ("Result", "as_ref"), ("Result", "as_mut"))
def o_as_ref(m):
    I, st = m.I, m.st
    r = m.args[0]
    o = owner_adt(m)
    v = I.load(st, r, I.refty(r)) if isinstance(r, Ref) else r
    out = []
    for s, k, f in cases(I, st, v):
        if o == "Option" and k == NONE_:
            out.append((s, none(I)))
        elif isinstance(r, Ref):
            out.append((s, mk(I, o, k, Ref(r.obj, r.path + (("v", k), 0)))))
        else:
            out.append((s, mk(I, o, k, *f)))
    return out


@model(("Option", "take"))
def o_take(m):
    I, st = m.I, m.st
    r = m.args[0]
    v = I.load(st, r, I.refty(r))
    out = []
    for s, k, f in cases(I, st, v):
        I.store(s, r, none(I))
        out.append((s, mk(I, "Option", k, *f)))
    return out


@model(("Option", "replace"))
def o_replace(m):
    I, st = m.I, m.st
    v = I.load(st, m.args[0], I.refty(m.args[0]))
    I.store(st, m.args[0], some(I, m.args[1]))
    return [(st, v)]


@model(("Option", "cloned"), ("Option", "copied"))
def o_cloned(m):
    out = []
    for s, k, f in cases(m.I, m.st, m.args[0]):
        out.append((s, some(m.I, deref1(m.I, s, f[0])) if k == SOME else none(m.I)))
    return out


def deref1(I, st, v):
    return I.load(st, v, I.refty(v)) if isinstance(v, Ref) else v


@model(("Try", "branch"))
def branch(m):
    I = m.I
    isopt = m.c["a"] and I.tys[m.c["a"][0]]["n"].endswith("Option") if m.c["a"] and isinstance(m.c["a"][0], int) and I.tys[m.c["a"][0]]["k"] == "adt" else False
    good = SOME if isopt else OK
    out = []
    for s, k, f in cases(I, m.st, m.args[0]):
        if k == good:
            out.append((s, mk(I, "ControlFlow", 0, f[0])))
        else:
            out.append((s, mk(I, "ControlFlow", 1, mk(I, "Option" if isopt else "Result", k, *f))))
    return out


@model(("FromResidual", "from_residual"))
def from_residual(m):
    I = m.I
    v = m.args[0]
    t = I.tys[m.rty] if m.rty is not None else None
    if isinstance(v, Agg) and v.f and t is not None and t["k"] == "adt" and t["n"].endswith("Result"):
        return [(m.st, mk(I, "Result", ERR, *v.f))]
    if t is not None and t["k"] == "adt" and t["n"].endswith("Option"):
        return [(m.st, none(I))]
    return [(m.st, mk(I, "Result", ERR, Sym(T("residual", v), None)))]


@model(("Try", "from_output"))
def from_output(m):
    I = m.I
    t = I.tys[m.rty]
    return [(m.st, some(I, m.args[0]) if t["n"].endswith("Option") else mk(I, "Result", OK, m.args[0]))]


# ---- references / conversions -----------------------------------------------

@model(("Deref", "deref"), ("DerefMut", "deref_mut"), ("Vec", "as_slice"), ("Vec", "as_mut_slice"), ("AsRef", "as_ref"), ("AsMut", "as_mut"),
       ("Borrow", "borrow"), ("BorrowMut", "borrow_mut"), ("Vec", "as_ptr"), ("Vec", "as_mut_ptr"), ("slice", "as_ptr"), ("slice", "as_mut_ptr"),
       ("Cell", "as_ptr"), ("Cell", "get_mut"), ("UnsafeCell", "get"), ("UnsafeCell", "get_mut"), ("String", "as_bytes"), ("str", "as_bytes"), ("String", "as_str"),
       ("array", "as_slice"), ("array", "as_mut_slice"), ("Box", "as_ref"), ("Box", "as_mut"), ("[T; N]", "as_slice"), ("[T; N]", "as_mut_slice"),
       ("slice", "as_slice"), ("*mut T", "cast"), ("*const T", "cast"), ("Box", "into_raw"), ("Box", "from_raw"), ("Box", "leak"))
def ident_ref(m):
    I, st = m.I, m.st
    v = m.args[0]
    if m.c.get("tname") in ("AsRef", "AsMut", "Deref", "DerefMut") and isinstance(v, Ref):
        if m.rty is not None:
            rt = I.pointee(m.rty)
            r = I.tys[I.strip(rt)] if rt is not None else None
            if r is not None and r["k"] in ("slice", "str", "array") or (r is not None and r["k"] == "adt" and I.is_vec(r)):
                return [(st, I.seqref(st, v))]
            w = I.load(st, v, I.refty(v))
            if isinstance(w, Ref):
                return [(st, w)]
            # conversions between distinct types (BigInt -> Nat)
            a0 = selfty_arg(m)
            if a0 is not None and rt is not None and I.strip(a0) != I.strip(rt):
                t = T("view", I.tys[rt]["s"], I.freeze(st, w))
                return [(st, Ref(("K", I.value_of(st, t, rt))))]
            return [(st, v)]
    return [(st, v)]


@model(("Cell", "new"), ("Box", "new"), ("", "must_use"), ("UnsafeCell", "new"), ("ManuallyDrop", "new"), ("MaybeUninit", "new"), ("", "black_box"), ("", "identity"),
       ("Cell", "into_inner"), ("Box", "into_inner"), ("ManuallyDrop", "into_inner"), ("MaybeUninit", "assume_init"), ("IntoIterator", "identity"), ("Box", "pin"), ("Wrapping", "new"))
def ident(m):
    I, st = m.I, m.st
    if m.owner == "Box" and m.name == "new":
        return [(st, I.alloc(st, m.args[0], selfty_arg(m)))]
    return [(st, m.args[0])]


@model(("Box", "new_uninit"))
def new_uninit(m):
    I, st = m.I, m.st
    ti = selfty_arg(m)
    return [(st, I.alloc(st, Sym(T("uninit", I.nobj), ti), ti))]


@model(("", "box_assume_init_into_vec_unsafe"), ("slice", "into_vec"), ("boxed", "box_assume_init_into_vec_unsafe"))
def into_vec(m):
    return [(m.st, m.I.seq(m.st, m.args[0]))]


@model(("Cell", "set"))
def cell_set(m):
    m.I.store(m.st, m.args[0], m.args[1])
    return [(m.st, UNIT)]


@model(("Cell", "get"))
def cell_get(m):
    return [(m.st, m.I.load(m.st, m.args[0], m.rty))]


@model(("Cell", "replace"), ("", "replace"), ("mem", "replace"))
def replace(m):
    I, st = m.I, m.st
    v = I.load(st, m.args[0], m.rty)
    I.store(st, m.args[0], m.args[1])
    return [(st, v)]


@model(("Cell", "take"), ("", "take"), ("mem", "take"))
def take(m):
    I, st = m.I, m.st
    v = I.load(st, m.args[0], m.rty)
    I.store(st, m.args[0], default_of(I, st, m.rty))
    return [(st, v)]


@model(("", "swap"), ("mem", "swap"), ("Cell", "swap"))
def swap(m):
    I, st = m.I, m.st
    a, b = m.args[0], m.args[1]
    x, y = I.load(st, a, I.refty(a)), I.load(st, b, I.refty(b))
    I.store(st, a, y)
    I.store(st, b, x)
    return [(st, UNIT)]


@model(("", "drop"), ("mem", "drop"), ("", "forget"), ("mem", "forget"))
def drop(m):
    I, st = m.I, m.st
    v = m.args[0]
    if m.name == "drop" and isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "adt" and v.kind[1] in I.p.drops:
        r = I.alloc(st, v, selfty_arg(m))
        return [(s, UNIT) for s, _ in I.run_fn(I.p.drops[v.kind[1]], [r], st, {}, m.fr, span=m.span)]
    return [(st, UNIT)]


@model(("*const T", "offset"), ("*const T", "add"), ("*mut T", "add"), ("*mut T", "offset"), ("const_ptr", "add"), ("const_ptr", "offset"), ("mut_ptr", "add"), ("mut_ptr", "offset"))
def ptr_add(m):
    if isinstance(m.args[0], Ref):
        return [(m.st, m.I.ptr_add(m.args[0], lin(m.args[1])))]
    return None


@model(("slice", "from_raw_parts"), ("slice", "from_raw_parts_mut"), ("", "from_raw_parts"), ("", "from_raw_parts_mut"))
def from_raw_parts(m):
    if isinstance(m.args[0], Ref):
        return [(m.st, m.I.ptr_slice(m.args[0], lin(m.args[1])))]
    return None


@model(("Into", "into"), ("From", "from"), ("TryFrom", "try_from"), ("TryInto", "try_into"))
def into(m):
    I, st = m.I, m.st
    v = m.args[0]
    if m.rty is None:
        return None
    t = I.tys[I.strip(m.rty)]
    if t["k"] in ("int", "uint") and isinstance(v, (Lin, T)) and m.name in ("into", "from"):
        return [(st, lin(v))]
    if t["k"] == "adt" and t["n"].endswith("Result") and m.name.startswith("try"):
        inner = I.fty(I.strip(m.rty), OK, 0)
        it = I.tys[inner] if inner is not None else {"k": "?"}
        if it["k"] == "array" or (it["k"] == "ref" and I.tys[it["e"]]["k"] == "array"):
            s = I.seq(st, v)
            n = it["len"] if it["k"] == "array" else I.tys[it["e"]]["len"]
            if isinstance(n, int):
                out = []
                s2 = st.copy()
                if st.assume(eq0(s.len - n), True):
                    out.append((st, mk(I, "Result", OK, v if it["k"] == "ref" else s)))
                if s2.assume(eq0(s.len - n), False):
                    out.append((s2, mk(I, "Result", ERR, Sym(T("sliceerr"), None))))
                return out
        return None
    if t["k"] == "adt" and I.is_vec(t) and m.name in ("into", "from"):
        return [(st, I.seq(st, v))]
    if m.c["a"] and m.name == "into" and len(m.c["a"]) > 1 and m.c["a"][0] == m.c["a"][1]:
        return [(st, v)]
    return None


@model(("Clone", "clone"), ("ToOwned", "to_owned"), ("slice", "to_vec"), ("str", "to_owned"), ("slice", "to_owned"), ("ToString", "to_string"))
def clone(m):
    I, st = m.I, m.st
    v = m.args[0]
    if m.name in ("to_vec",) or (m.rty is not None and (I.is_vec(I.tys[I.strip(m.rty)]) or I.tys[I.strip(m.rty)]["k"] == "array")):
        return [(st, I.seq(st, v))]
    v = I.load(st, v, m.rty)
    if isinstance(v, Ref) and m.rty is not None and I.tys[m.rty]["k"] == "adt":      # Box
        inner = I.load(st, v, I.refty(v))
        return [(st, I.alloc(st, inner, I.refty(v)))]
    if isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "adt" and m.c["a"] and I.p.trait_impls.get(("Clone", v.kind[1], "clone")):
        f = I.p.trait_impls[("Clone", v.kind[1], "clone")]
        env = {}
        if m.rty is not None:
            I.bind(f["self"], m.rty, env)
        return I.run_fn(f, [m.args[0]], st, env, m.fr, span=m.span)
    return [(st, v)]


@model(("Clone", "clone_from"))
def clone_from(m):
    I, st = m.I, m.st
    I.store(st, m.args[0], I.load(st, m.args[1], I.refty(m.args[1])))
    return [(st, UNIT)]


# ---- comparison -------------------------------------------------------------

def seqeq(I, st, a, b):
    if a is b:
        return TRUE
    ld = a.len - b.len
    if st.facts.entails_ne(ld):
        return FALSE
    if len(a.p) == 1 and len(b.p) == 1 and a.p[0][0] == "lit" and b.p[0][0] == "lit" and len(a.p[0][1]) == len(b.p[0][1]):
        r = TRUE
        for x, y in zip(a.p[0][1], b.p[0][1]):
            r = ops.band(r, value_eq(I, st, x, y))
        return r
    x, y = sorted((a, b), key=lambda z: z.id)
    return ops.band(eq0(ld), T("seqeq", x, y))


def value_eq(I, st, a, b):
    n = 0
    while (isinstance(a, Ref) or isinstance(b, Ref)) and n < 5:
        a = deref1(I, st, a)
        b = deref1(I, st, b)
        n += 1
    if a is b:
        return TRUE
    if isinstance(a, Seq) or isinstance(b, Seq):
        return seqeq(I, st, I.seq(st, a), I.seq(st, b))
    if isinstance(a, Lin) or isinstance(b, Lin):
        return eq0(lin(a) - lin(b)) if not (isinstance(a, Sym) or isinstance(b, Sym)) else I.compare(st, "Eq", a if not isinstance(a, Lin) else Sym(T("int", a), None), b if not isinstance(b, Lin) else Sym(T("int", b), None))
    if isinstance(a, T) and isinstance(b, T):
        return ops.beq(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind:
        if a.var != b.var:
            return FALSE
        r = TRUE
        for x, y in zip(a.f, b.f):
            r = ops.band(r, value_eq(I, st, x, y))
        return r
    x, y = sorted((I.freeze(st, a), I.freeze(st, b)), key=lambda z: z.id)
    return T("same", x, y)


@model(("PartialEq", "eq"), ("PartialEq", "ne"))
def eq(m):
    I, st = m.I, m.st
    a, b = m.args
    # user-defined equality reached through ne or through references
    a0 = selfty_arg(m)
    if a0 is not None:
        ti = I.strip(a0)
        n = 0
        ra, rb = a, b
        while I.tys[ti]["k"] == "ref" and n < 3:
            ti = I.strip(I.tys[ti]["e"])
            ra, rb = deref1(I, st, ra), deref1(I, st, rb)
            n += 1
        t = I.tys[ti]
        if t["k"] == "adt":
            f = I.p.trait_impls.get(("PartialEq", t["d"], "eq"))
            if f is not None and not f.get("derived"):
                env = {}
                I.bind(f["self"], ti, env)
                outs = I.run_fn(f, [ra, rb], st, env, m.fr, span=m.span)
                return [(s, v if m.name == "eq" else bnot(v)) for s, v in outs]
    va, vb = deref(I, st, a), deref(I, st, b)
    # option-like: split symbolic variants so that payloads are compared
    out = []
    if isinstance(va, (Agg, Sym)) and isinstance(vb, (Agg, Sym)) and (isinstance(va, Agg) != isinstance(vb, Agg)) and isopt(I, va, vb):
        for s, k, f in cases(I, st, va if isinstance(va, Sym) else vb):
            o = vb if isinstance(va, Sym) else va
            if o.var != k:
                r = FALSE
            else:
                r = TRUE
                for x, y in zip(f, o.f):
                    r = ops.band(r, value_eq(I, s, x, y))
            out.append((s, r if m.name == "eq" else bnot(r)))
        return out
    r = value_eq(I, st, va, vb)
    return [(st, r if m.name == "eq" else bnot(r))]


def isopt(I, a, b):
    for v in (a, b):
        if isinstance(v, Sym) and v.ty is not None:
            t = I.tys[I.strip(v.ty)]
            return t["k"] == "adt" and t["d"] in I.p.adts and I.p.adts[t["d"]]["kind"] == "enum" and len(I.p.adts[t["d"]]["vars"]) == 2
    return False


@model(("PartialOrd", "lt"), ("PartialOrd", "le"), ("PartialOrd", "gt"), ("PartialOrd", "ge"))
def order(m):
    I, st = m.I, m.st
    a, b = deref(I, st, m.args[0]), deref(I, st, m.args[1])
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m.name]
    if isinstance(a, Sym) and isinstance(b, Lin):
        b = Sym(T("int", b), None)
    if isinstance(b, Sym) and isinstance(a, Lin):
        a = Sym(T("int", a), None)
    return [(st, I.compare(st, op, a, b))]


@model(("Ord", "cmp"), ("PartialOrd", "partial_cmp"))
def cmp_(m):
    I, st = m.I, m.st
    a, b = deref(I, st, m.args[0]), deref(I, st, m.args[1])
    if not (isinstance(a, (Lin, Sym)) and isinstance(b, (Lin, Sym))):
        return None
    if isinstance(a, Lin) != isinstance(b, Lin):
        a, b = (Sym(T("int", x), None) if isinstance(x, Lin) else x for x in (a, b))
    out = []
    for s, t in split(st, I.compare(st, "Lt", a, b)):
        if t:
            out.append((s, 0))
            continue
        out += [(s2, 1 if t2 else 2) for s2, t2 in split(s, I.compare(s, "Eq", a, b))]
    return [(s, some(I, mk(I, "Ordering", k)) if m.name == "partial_cmp" else mk(I, "Ordering", k)) for s, k in out]


def split(st, c):
    """fork on a condition"""
    t = st.truth(c)
    if t is True:
        return [(st, True)]
    if t is False:
        return [(st, False)]
    s2 = st.copy()
    out = []
    if st.assume(c, True):
        out.append((st, True))
    if s2.assume(c, False):
        out.append((s2, False))
    return out


@model(("", "min"), ("cmp", "min"), ("Ord", "min"))
def min_(m):
    a, b = m.args
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        return None
    return [(s, a if t else b) for s, t in split(m.st, ge0(b - a))]


@model(("", "max"), ("cmp", "max"), ("Ord", "max"))
def max_(m):
    a, b = m.args
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        return None
    return [(s, a if t else b) for s, t in split(m.st, ge0(a - b))]


# ---- integers ---------------------------------------------------------------

def ibits(m):
    o = m.owner
    if o in INTS:
        return 64 if o.endswith("size") else int(o[1:])
    return 64


@model(("int", "wrapping_add"), ("int", "wrapping_sub"), ("int", "wrapping_mul"))
def wrapping(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    bits = ibits(m)
    signed = m.owner.startswith("i")
    k = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul"}[m.name]
    return [(m.st, wrap(m.I, m.st, k, a, b, bits, signed))]


def wrap(I, st, k, a, b, bits, signed=False):
    if a.const is not None and b.const is not None:
        r = a.c + b.c if k == "Add" else (a.c - b.c if k == "Sub" else a.c * b.c)
        return Lin(I.wrapc(r, bits, signed))
    if k in ("Add", "Sub"):
        r = a + b if k == "Add" else a - b
        if not signed and st.facts.entails_ge(r) and st.facts.entails_ge(Lin((1 << bits) - 1) - r):
            return r
        if k == "Add":
            # n-ary, sorted
            c, parts = 0, []
            for x in (a, b):
                if x.const is not None:
                    c += x.c
                    continue
                t = x.t[0][0] if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 else None
                for p in (t.args if t is not None and t.op == "wAdd" else (x,)):
                    if p.const is not None:
                        c += p.c
                    else:
                        parts.append(p)
            parts.sort(key=lambda x: x.id)
            c &= (1 << bits) - 1
            if c:
                parts.append(Lin(c))
            return ops.atom("wAdd", bits, *parts) if len(parts) > 1 else parts[0]
        return ops.atom("wSub", bits, a, b)
    x, y = sorted((a, b), key=lambda z: z.id)
    return ops.atom("wMul", bits, x, y)


@model(("int", "saturating_sub"))
def saturating_sub(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    return [(s, a - b if t else ZERO) for s, t in split(m.st, ge0(a - b))]


@model(("int", "saturating_add"))
def saturating_add(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    bits = ibits(m)
    if bits >= 64:
        return [(m.st, a + b)]
    return [(s, a + b if t else Lin((1 << bits) - 1)) for s, t in split(m.st, ge0(Lin((1 << bits) - 1) - a - b))]


@model(("int", "checked_sub"), ("int", "checked_add"), ("int", "checked_mul"))
def checked(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    bits = ibits(m)
    I = m.I
    if m.name == "checked_sub":
        return [(s, some(I, a - b) if t else none(I)) for s, t in split(m.st, ge0(a - b))]
    r = a + b if m.name == "checked_add" else (a.scale(b.c) if b.const is not None else (b.scale(a.c) if a.const is not None else ops.atom("mul", None, a, b)))
    if bits >= 64:
        return [(m.st, some(I, r))]
    return [(s, some(I, r) if t else none(I)) for s, t in split(m.st, ge0(Lin((1 << bits) - 1) - r))]


@model(("int", "checked_div"), ("int", "checked_rem"))
def checked_div(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    I = m.I
    out = []
    for s, z in split(m.st, eq0(b)):
        if z:
            out.append((s, none(I)))
        else:
            ti = m.c and None
            if b.const:
                v = ops.divc(s, a, b.c) if m.name == "checked_div" else ops.rem(s, a, b.c)
            else:
                v = ops.divs(s, a, b) if m.name == "checked_div" else ops.rems(s, a, b)
            out.append((s, some(I, v)))
    return out


def quot(st, a, b):
    return ops.divc(st, a, b.c) if b.const else ops.divs(st, a, b)


def remain(st, a, b):
    return ops.rem(st, a, b.c) if b.const else ops.rems(st, a, b)


@model(("int", "div_ceil"), ("int", "div_euclid"), ("int", "rem_euclid"))
def div_ceil(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    if not m.owner.startswith("u"):
        return None
    out = []
    for s, z in split(m.st, eq0(b)):
        if z:
            m.I.panic(m.fr, m.span, "assert:div0", show(eq0(b))[:300])
        else:
            out.append((s, remain(s, a, b) if m.name == "rem_euclid" else quot(s, a + b - 1 if m.name == "div_ceil" else a, b)))
    return out


@model(("int", "is_multiple_of"))
def is_multiple_of(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    return [(s, eq0(a) if z else eq0(remain(s, a, b))) for s, z in split(m.st, eq0(b))]


@model(("int", "abs_diff"))
def abs_diff(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    return [(s, a - b if t else b - a) for s, t in split(m.st, ge0(a - b))]


@model(("int", "overflowing_add"), ("int", "overflowing_sub"))
def overflowing(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    bits = ibits(m)
    I = m.I
    k = "Add" if m.name.endswith("add") else "Sub"
    r = wrap(I, m.st, k, a, b, bits)
    x = a + b if k == "Add" else a - b
    o = bnot(ge0(x)) if k == "Sub" else bnot(ge0(Lin((1 << bits) - 1) - x))
    return [(m.st, Agg("tuple", 0, (r, o)))]


@model(("int", "rotate_left"), ("int", "rotate_right"))
def rotate(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    bits = ibits(m)
    if b.const is not None:
        n = b.c % bits
        if m.name == "rotate_right":
            n = (bits - n) % bits
        if a.const is not None:
            return [(m.st, Lin(((a.c << n) | (a.c >> (bits - n))) & ((1 << bits) - 1)))]
        return [(m.st, ops.atom("rotl", bits, a, Lin(n)) if n else a)]
    return [(m.st, ops.atom("rotl" if m.name == "rotate_left" else "rotr", bits, a, b))]


@model(("int", "pow"))
def pow_(m):
    a, b = lin(m.args[0]), lin(m.args[1])
    if a.const is not None and b.const is not None and b.c < 256:
        return [(m.st, Lin(a.c ** b.c))]
    return [(m.st, ops.atom("pow", ibits(m), a, b))]


@model(("int", "max_value"))
def max_value(m):
    b = ibits(m)
    return [(m.st, Lin((1 << b) - 1 if m.owner.startswith("u") else (1 << b - 1) - 1))]


@model(("int", "min_value"))
def min_value(m):
    b = ibits(m)
    return [(m.st, ZERO if m.owner.startswith("u") else Lin(-(1 << b - 1)))]


@model(("int", "is_power_of_two"))
def is_pow2(m):
    a = lin(m.args[0])
    if a.const is not None:
        return [(m.st, TRUE if a.c > 0 and a.c & (a.c - 1) == 0 else FALSE)]
    return [(m.st, T("pow2", a))]


@model(("int", "to_be_bytes"), ("int", "to_le_bytes"), ("int", "to_ne_bytes"))
def to_bytes(m):
    a = lin(m.args[0])
    n = ibits(m) // 8
    be = m.name == "to_be_bytes"
    if a.const is not None:
        b = (a.c & ((1 << 8 * n) - 1)).to_bytes(n, "big" if be else "little")
        return [(m.st, Seq((("lit", tuple(Lin(x) for x in b)),)))]
    return [(m.st, Seq((("src", T("be_bytes" if be else "le_bytes", a, n), ZERO, Lin(n)),)))]


@model(("int", "from_be_bytes"), ("int", "from_le_bytes"), ("int", "from_ne_bytes"))
def from_bytes(m):
    s = m.I.seq(m.st, m.args[0])
    be = m.name == "from_be_bytes"
    t = s.whole()
    if t is not None and t.op == ("be_bytes" if be else "le_bytes") and s.len is Lin(t.args[1]):
        return [(m.st, t.args[0])]
    if len(s.p) == 1 and s.p[0][0] == "lit" and all(isinstance(x, Lin) and x.const is not None for x in s.p[0][1]):
        b = bytes(x.c for x in s.p[0][1])
        return [(m.st, Lin(int.from_bytes(b, "big" if be else "little")))]
    return [(m.st, ops.atom("be" if be else "le", ibits(m), s))]


@model(("int", "leading_zeros"), ("int", "trailing_zeros"), ("int", "count_ones"), ("int", "count_zeros"), ("int", "swap_bytes"), ("int", "reverse_bits"), ("int", "to_be"), ("int", "to_le"), ("int", "abs"), ("int", "next_power_of_two"))
def int_misc(m):
    a = lin(m.args[0])
    b = ibits(m)
    if a.const is not None and m.name == "trailing_zeros":
        return [(m.st, Lin(b if a.c == 0 else (a.c & -a.c).bit_length() - 1))]
    if a.const is not None and m.name == "leading_zeros":
        return [(m.st, Lin(b - a.c.bit_length()))]
    if a.const is not None and m.name == "count_ones":
        return [(m.st, Lin(bin(a.c).count("1")))]
    return [(m.st, ops.atom(m.name, 8 if "zeros" in m.name or "count" in m.name else b, a))]


@model(("BitXor", "bitxor"), ("BitAnd", "bitand"), ("BitOr", "bitor"), ("Shr", "shr"), ("Shl", "shl"), ("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Rem", "rem"), ("Div", "div"))
def binary(m):
    I, st = m.I, m.st
    a, b = deref(I, st, m.args[0]), deref(I, st, m.args[1])
    op = {"bitxor": "BitXor", "bitand": "BitAnd", "bitor": "BitOr", "shr": "Shr", "shl": "Shl", "add": "Add", "sub": "Sub", "mul": "Mul", "rem": "Rem", "div": "Div"}[m.name]
    if isinstance(a, (Lin, T)) and isinstance(b, (Lin, T)) and m.rty is not None and I.tys[m.rty]["k"] in ("uint", "int", "bool"):
        if op in ("Add", "Sub", "Mul"):
            r = I.binop(st, op + "WithOverflow", a, b, m.rty)
            o = r.f[1]
            if st.truth(o) is not False and not I.discharged(st, o, False):
                I.panic(m.fr, m.span, "assert:overflow", show(r.f[0])[:200])
                if not st.assume(o, False):
                    return []
            return [(st, r.f[0])]
        return [(st, I.binop(st, op, a, b, m.rty))]
    if m.rty is not None and I.tys[m.rty]["k"] in ("adt", "param", "other"):
        t = T("op", op, I.freeze(st, a), I.freeze(st, b))
        return [(st, I.value_of(st, t, m.rty))]
    return None


@model(("AddAssign", "add_assign"), ("SubAssign", "sub_assign"), ("MulAssign", "mul_assign"), ("DivAssign", "div_assign"), ("RemAssign", "rem_assign"),
       ("BitXorAssign", "bitxor_assign"), ("BitAndAssign", "bitand_assign"), ("BitOrAssign", "bitor_assign"), ("ShlAssign", "shl_assign"), ("ShrAssign", "shr_assign"))
def assign_op(m):
    I, st = m.I, m.st
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitxor": "BitXor", "bitand": "BitAnd", "bitor": "BitOr", "shl": "Shl", "shr": "Shr"}[m.name[:-7]]
    ti = I.refty(m.args[0]) if isinstance(m.args[0], Ref) else None
    if ti is None:
        ti = selfty_arg(m)
    a, b = I.load(st, m.args[0], ti), deref(I, st, m.args[1])
    if isinstance(a, (Lin, T)) and isinstance(b, (Lin, T)):
        if op in ("Add", "Sub", "Mul"):
            r = I.binop(st, op + "WithOverflow", a, b, ti)
            if st.truth(r.f[1]) is not False and not I.discharged(st, r.f[1], False):
                I.panic(m.fr, m.span, "assert:overflow", show(r.f[0])[:200])
                if not st.assume(r.f[1], False):
                    return []
            I.store(st, m.args[0], r.f[0])
        else:
            I.store(st, m.args[0], I.binop(st, op, a, b, ti))
        return [(st, UNIT)]
    I.store(st, m.args[0], I.value_of(st, T("op", op, I.freeze(st, a), I.freeze(st, b)), ti))
    return [(st, UNIT)]


@model(("Not", "not"))
def not_(m):
    v = deref(m.I, m.st, m.args[0])
    if isinstance(v, T):
        return [(m.st, bnot(v))]
    if isinstance(v, Lin) and m.rty is not None and m.I.bits(m.rty):
        b = m.I.bits(m.rty)
        return [(m.st, Lin(((1 << b) - 1) ^ v.c) if v.const is not None else ops.atom("~", b, v))]
    return None


# ---- Vec / slices -----------------------------------------------------------

@model(("Vec", "new"), ("Vec", "with_capacity"), ("String", "new"), ("String", "with_capacity"), ("VecDeque", "new"))
def vec_new(m):
    return [(m.st, EMPTY)]


@model(("Vec", "len"), ("slice", "len"), ("str", "len"), ("String", "len"))
def vlen(m):
    return [(m.st, m.I.slen(m.st, m.I.seqref(m.st, m.args[0])))]


@model(("Vec", "is_empty"), ("slice", "is_empty"), ("str", "is_empty"), ("String", "is_empty"))
def is_empty(m):
    return [(m.st, eq0(m.I.slen(m.st, m.I.seqref(m.st, m.args[0]))))]


@model(("Vec", "capacity"))
def capacity(m):
    t = T("cap", m.I.seq(m.st, m.args[0]))
    note_atom(t)
    return [(m.st, Lin.atom(t))]


@model(("Vec", "reserve"), ("Vec", "shrink_to_fit"), ("Vec", "reserve_exact"), ("Vec", "shrink_to"))
def noop(m):
    return [(m.st, UNIT)]


def vget(m, i=0):
    r = m.I.seqref(m.st, m.args[i])
    return r, m.I.seq(m.st, r)


@model(("Vec", "push"), ("VecDeque", "push_back"))
def push(m):
    r, s = vget(m)
    m.I.store(m.st, r, s + Seq((("lit", (m.args[1],)),)))
    return [(m.st, UNIT)]


@model(("Vec", "clear"), ("String", "clear"))
def clear(m):
    r, s = vget(m)
    m.I.store(m.st, r, EMPTY)
    return [(m.st, UNIT)]


@model(("Vec", "pop"))
def pop(m):
    I = m.I
    r, s = vget(m)
    out = []
    for st, e in split(m.st, eq0(s.len)):
        if e:
            out.append((st, none(I)))
        else:
            v = I.relem(st, seq_get(st, s, s.len - 1))
            v = I.coerce(st, v, retinner(m, SOME))
            I.store(st, r, seq_slice(st, s, ZERO, s.len - 1))
            out.append((st, some(I, v)))
    return out


@model(("Vec", "truncate"))
def truncate(m):
    r, s = vget(m)
    n = lin(m.args[1])
    out = []
    for st, t in split(m.st, ge0(s.len - n)):
        if t:
            m.I.store(st, r, seq_slice(st, s, ZERO, n))
        out.append((st, UNIT))
    return out


@model(("Vec", "resize"))
def resize(m):
    r, s = vget(m)
    n = lin(m.args[1])
    out = []
    for st, t in split(m.st, ge0(n - s.len)):
        m.I.store(st, r, s + Seq((("fill", m.args[2], n - s.len),)) if t else seq_slice(st, s, ZERO, n))
        out.append((st, UNIT))
    return out


@model(("Vec", "extend_from_slice"), ("String", "push_str"))
def extend_from_slice(m):
    r, s = vget(m)
    m.I.store(m.st, r, s + m.I.seq(m.st, m.args[1]))
    return [(m.st, UNIT)]


@model(("Vec", "append"))
def append(m):
    r, s = vget(m)
    r2, s2 = vget(m, 1)
    m.I.store(m.st, r, s + s2)
    m.I.store(m.st, r2, EMPTY)
    return [(m.st, UNIT)]


@model(("Vec", "insert"))
def insert(m):
    I, st = m.I, m.st
    r, s = vget(m)
    i = lin(m.args[1])
    if not need(m, ge0(s.len - i), "insert index"):
        return []
    I.store(st, r, seq_slice(st, s, ZERO, i) + Seq((("lit", (m.args[2],)),)) + seq_slice(st, s, i, s.len - i))
    return [(st, UNIT)]


@model(("Vec", "remove"))
def remove(m):
    I, st = m.I, m.st
    r, s = vget(m)
    i = lin(m.args[1])
    if not need(m, ge0(s.len - i - 1), "remove index"):
        return []
    v = I.coerce(st, I.relem(st, seq_get(st, s, i)), m.rty)
    I.store(st, r, seq_slice(st, s, ZERO, i) + seq_slice(st, s, i + 1, s.len - i - 1))
    return [(st, v)]


@model(("Vec", "split_off"))
def split_off(m):
    I, st = m.I, m.st
    r, s = vget(m)
    i = lin(m.args[1])
    if not need(m, ge0(s.len - i), "split_off index"):
        return []
    I.store(st, r, seq_slice(st, s, ZERO, i))
    return [(st, seq_slice(st, s, i, s.len - i))]


@model(("Vec", "drain"))
def drain(m):
    I = m.I
    r, s = vget(m)
    out = []
    for st, o, n in range_of(m, m.st, m.args[1], s.len):
        body = seq_slice(st, s, o, n)
        I.store(st, r, seq_slice(st, s, ZERO, o) + seq_slice(st, s, o + n, s.len - o - n))
        h = I.alloc(st, body, None)
        out.append((st, it("vals", h, ZERO, n)))
    return out


def need(m, c, what, st=None):
    """library precondition: record a possible panic unless provable, then assume it"""
    st = st or m.st
    t = st.truth(c)
    if t is not True and not m.I.discharged(st, c, True):
        m.I.panic(m.fr, m.span, "bounds", "%s: %s" % (what, show(c)[:300]))
        if t is False:
            return False
        return st.assume(c, True)
    return True


def range_of(m, st, ix, n):
    """[(state, offset, length)] for a range index value"""
    I = m.I
    if isinstance(ix, Agg) and isinstance(ix.kind, tuple):
        if ix.kind[0] == "adt":
            nm = ix.kind[1].split("::")[-1]
        else:
            nm = "RangeInclusive" if ix.kind[1] == "rangei" else "?"
        if nm == "Range":
            a, b = lin(ix.f[0]), lin(ix.f[1])
        elif nm == "RangeTo":
            a, b = ZERO, lin(ix.f[0])
        elif nm == "RangeFrom":
            a, b = lin(ix.f[0]), n
        elif nm == "RangeFull":
            return [(st, ZERO, n)]
        elif nm == "RangeInclusive":
            a, b = lin(ix.f[0]), lin(ix.f[1]) + (0 if ix.kind[0] == "it" else 1)
        elif nm == "RangeToInclusive":
            a, b = ZERO, lin(ix.f[0]) + 1
        else:
            return None
        if nm != "RangeFrom" and not need(m, ge0(n - b), "range end within length", st):
            return []
        if not need(m, ge0(b - a), "range start before end", st):
            return []
        return [(st, a, b - a)]
    if ix is UNIT:
        return [(st, ZERO, n)]
    return None


@model(("Index", "index"), ("IndexMut", "index_mut"))
def index(m):
    I, st = m.I, m.st
    r = I.seqref(st, m.args[0])
    ix = m.args[1]
    if not isinstance(r, Ref):
        return None
    n = I.slen(st, r)
    if isinstance(ix, Lin):
        if not need(m, ge0(n - ix - 1), "index within length"):
            return []
        if not need(m, ge0(ix), "index not negative"):
            return []
        return [(st, Ref(r.obj, I.join_path(r.path, ("ix", ix))))]
    rs = range_of(m, st, ix, n)
    if rs is None:
        return None
    return [(s, Ref(r.obj, I.join_path(r.path, ("rng", o, k)))) for s, o, k in rs]


@model(("slice", "get"), ("slice", "get_mut"), ("Vec", "get"), ("slice", "get_unchecked"))
def get(m):
    I, st = m.I, m.st
    r = I.seqref(st, m.args[0])
    ix = m.args[1]
    n = I.slen(st, r)
    if isinstance(ix, Lin):
        out = []
        for s, t in split(st, ge0(n - ix - 1)):
            out.append((s, some(I, Ref(r.obj, I.join_path(r.path, ("ix", ix)))) if t else none(I)))
        return out
    if isinstance(ix, Agg) and isinstance(ix.kind, tuple) and ix.kind[0] == "adt":
        nm = ix.kind[1].split("::")[-1]
        a = lin(ix.f[0]) if nm in ("Range", "RangeFrom") else ZERO
        b = lin(ix.f[1]) if nm == "Range" else (lin(ix.f[0]) if nm == "RangeTo" else n)
        out = []
        for s, t in split(st, ops.band(ge0(n - b), ge0(b - a))):
            out.append((s, some(I, Ref(r.obj, I.join_path(r.path, ("rng", a, b - a)))) if t else none(I)))
        return out
    return None


@model(("slice", "first"), ("slice", "last"), ("slice", "first_mut"), ("slice", "last_mut"))
def first(m):
    I, st = m.I, m.st
    r = I.seqref(st, m.args[0])
    n = I.slen(st, r)
    ix = ZERO if m.name.startswith("first") else n - 1
    return [(s, none(I) if e else some(I, Ref(r.obj, I.join_path(r.path, ("ix", ix))))) for s, e in split(st, eq0(n))]


@model(("slice", "split_at"), ("slice", "split_at_mut"))
def split_at(m):
    I, st = m.I, m.st
    r = I.seqref(st, m.args[0])
    n = I.slen(st, r)
    i = lin(m.args[1])
    if not need(m, ge0(n - i), "split index within length"):
        return []
    return [(st, Agg("tuple", 0, (Ref(r.obj, I.join_path(r.path, ("rng", ZERO, i))), Ref(r.obj, I.join_path(r.path, ("rng", i, n - i))))))]


@model(("slice", "split_first"), ("slice", "split_last"), ("slice", "split_first_mut"), ("slice", "split_last_mut"))
def split_first(m):
    I, st = m.I, m.st
    r = I.seqref(st, m.args[0])
    n = I.slen(st, r)
    out = []
    for s, e in split(st, eq0(n)):
        if e:
            out.append((s, none(I)))
        elif "first" in m.name:
            out.append((s, some(I, Agg("tuple", 0, (Ref(r.obj, I.join_path(r.path, ("ix", ZERO))), Ref(r.obj, I.join_path(r.path, ("rng", ONE, n - 1))))))))
        else:
            out.append((s, some(I, Agg("tuple", 0, (Ref(r.obj, I.join_path(r.path, ("ix", n - 1))), Ref(r.obj, I.join_path(r.path, ("rng", ZERO, n - 1))))))))
    return out


@model(("slice", "copy_from_slice"), ("slice", "clone_from_slice"))
def copy_from_slice(m):
    I, st = m.I, m.st
    r = I.seqref(st, m.args[0])
    src = I.seq(st, m.args[1])
    n = I.slen(st, r)
    if not need(m, eq0(n - src.len), "copy_from_slice lengths"):
        return []
    I.store(st, r, src)
    return [(st, UNIT)]


@model(("slice", "copy_within"))
def copy_within(m):
    I, st = m.I, m.st
    r, s = vget(m)
    out = []
    for st2, o, n in range_of(m, st, m.args[1], s.len) or ():
        d = lin(m.args[2])
        if need(m, ge0(s.len - d - n), "copy_within", st2):
            I.store(st2, r, seq_put(st2, s, d, seq_slice(st2, s, o, n)))
            out.append((st2, UNIT))
    return out


@model(("slice", "fill"))
def fill(m):
    I, st = m.I, m.st
    r = I.seqref(st, m.args[0])
    I.store(st, r, Seq((("fill", m.args[1], I.slen(st, r)),)))
    return [(st, UNIT)]


@model(("slice", "swap"))
def sswap(m):
    I, st = m.I, m.st
    r, s = vget(m)
    i, j = lin(m.args[1]), lin(m.args[2])
    if not (need(m, ge0(s.len - i - 1), "swap") and need(m, ge0(s.len - j - 1), "swap")):
        return []
    a, b = I.relem(st, seq_get(st, s, i)), I.relem(st, seq_get(st, s, j))
    s = seq_put(st, s, i, Seq((("lit", (b,)),)))
    s = seq_put(st, s, j, Seq((("lit", (a,)),)))
    I.store(st, r, s)
    return [(st, UNIT)]


@model(("slice", "reverse"), ("slice", "rotate_right"), ("slice", "rotate_left"), ("slice", "sort"), ("slice", "sort_unstable"))
def permute(m):
    I, st = m.I, m.st
    r, s = vget(m)
    if len(s.p) == 1 and s.p[0][0] == "lit":
        l = list(s.p[0][1])
        if m.name == "reverse":
            I.store(st, r, Seq((("lit", tuple(l[::-1])),)))
            return [(st, UNIT)]
        k = lin(m.args[1]).const if len(m.args) > 1 else None
        if k is not None and m.name.startswith("rotate") and l:
            k %= len(l)
            if m.name == "rotate_right":
                k = (len(l) - k) % len(l)
            I.store(st, r, Seq((("lit", tuple(l[k:] + l[:k])),)))
            return [(st, UNIT)]
    if m.name.startswith("rotate"):
        k = lin(m.args[1])
        if st.truth(ge0(s.len - k)) is True:
            o = k if m.name == "rotate_left" else s.len - k
            I.store(st, r, seq_slice(st, s, o, s.len - o) + seq_slice(st, s, ZERO, o))
            return [(st, UNIT)]
    t = T("perm", m.name, s, *[x for x in m.args[1:]])
    I.store(st, r, Seq((("src", t, ZERO, s.len),)))
    return [(st, UNIT)]


@model(("slice", "contains"))
def contains(m):
    I, st = m.I, m.st
    s, x = I.seq(st, m.args[0]), deref(I, st, m.args[1])
    if s.len.const is not None and s.len.const <= 16 and isinstance(x, Lin):
        out = []
        for i in range(s.len.const):
            y = seq_get(st, s, Lin(i))
            if not isinstance(y, Lin):
                return [(st, T("contains", s, x))]
            hit = st.copy()
            if hit.assume(eq0(x - y), True):
                out.append((hit, TRUE))
            if not st.assume(eq0(x - y), False):
                return out
        return out + [(st, FALSE)]
    return [(st, T("contains", s, x))]


@model(("Range", "contains"), ("RangeInclusive", "contains"), ("RangeFrom", "contains"), ("RangeTo", "contains"), ("RangeToInclusive", "contains"))
def range_contains(m):
    I, st = m.I, m.st
    r, x = deref(I, st, m.args[0]), deref(I, st, m.args[1])
    nm = r.kind[1].split("::")[-1] if isinstance(r, Agg) and isinstance(r.kind, tuple) else None
    if isinstance(x, Lin) and all(isinstance(y, Lin) for y in r.f[:2]) if nm else False:
        lo = hi = None
        if nm in ("Range", "rangei", "range"):
            lo, hi = r.f[0], r.f[1]
        elif nm == "RangeFrom":
            lo = r.f[0]
        elif nm == "RangeTo":
            hi = r.f[0]
        elif nm == "RangeToInclusive":
            hi = r.f[0] + 1
        elif nm == "RangeInclusive":
            lo, hi = r.f[0], r.f[1] + 1
        out = []
        for c in [ge0(x - lo)] * (lo is not None) + [ge0(hi - 1 - x)] * (hi is not None):
            no = st.copy()
            if no.assume(c, False):
                out.append((no, FALSE))
            if not st.assume(c, True):
                return out
        if lo is not None or hi is not None:
            return out + [(st, TRUE)]
    return [(st, T("contains", m.args[0], x))]


@model(("slice", "starts_with"), ("slice", "ends_with"))
def starts_with(m):
    I = m.I
    a, b = I.seq(m.st, m.args[0]), I.seq(m.st, m.args[1])
    out = []
    for s, t in split(m.st, ge0(a.len - b.len)):
        if not t:
            out.append((s, FALSE))
        else:
            x = seq_slice(s, a, ZERO, b.len) if m.name == "starts_with" else seq_slice(s, a, a.len - b.len, b.len)
            out.append((s, seqeq(I, s, x, b)))
    return out


@model(("slice", "concat"), ("[V]", "concat"))
def concat(m):
    I, st = m.I, m.st
    s = I.seq(st, m.args[0])
    if len(s.p) == 1 and s.p[0][0] == "lit":
        r = EMPTY
        for x in s.p[0][1]:
            r = r + I.seq(st, x)
        return [(st, r)]
    return None


@model(("slice", "repeat"))
def srepeat(m):
    I, st = m.I, m.st
    s = I.seq(st, m.args[0])
    n = lin(m.args[1])
    if s.len is ONE and len(s.p) == 1 and s.p[0][0] == "lit":
        return [(st, Seq((("fill", s.p[0][1][0], n),)))]
    return None


@model(("", "from_elem"), ("vec", "from_elem"))
def from_elem(m):
    return [(m.st, Seq((("fill", m.args[0], lin(m.args[1])),)))]


@model(("Vec", "from_elem"))
def from_elem2(m):
    return from_elem(m)


# ---- iterators --------------------------------------------------------------

def it(kind, *f):
    return Agg(("it", kind), 0, tuple(f))


def isit(v, kind=None):
    return isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "it" and (kind is None or v.kind[1] == kind)


def adt_name(v):
    if isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "adt":
        return v.kind[1].split("::")[-1]
    return None


@model(("slice", "iter"), ("slice", "iter_mut"), ("Vec", "iter"), ("Vec", "iter_mut"))
def s_iter(m):
    I, st = m.I, m.st
    r = I.seqref(st, m.args[0])
    if not isinstance(r, Ref):
        r = I.alloc(st, I.seq(st, r))
    return [(st, it("slice", r, ZERO, I.slen(st, r)))]


@model(("slice", "chunks"), ("slice", "chunks_exact"), ("slice", "windows"), ("slice", "chunks_mut"), ("slice", "chunks_exact_mut"))
def chunks(m):
    I, st = m.I, m.st
    r = I.seqref(st, m.args[0])
    k = m.name.replace("_mut", "")
    n = lin(m.args[1])
    if not need(m, ge0(n - 1), "chunk size not zero"):
        return []
    end = I.slen(st, r)
    return [(st, it(k, r, ZERO, end, n))]


@model(("ChunksExact", "remainder"))
def ce_remainder(m):
    I, st = m.I, m.st
    v = deref(I, st, m.args[0])
    if isit(v, "chunks_exact"):
        r, pos, end, n = v.f
        # the original slice end is kept in `end`; the remainder starts at the last multiple
        tot = end
        k = ops.rem(st, tot, n.const) if n.const is not None else ops.rems(st, tot, n)
        return [(st, Ref(r.obj, I.join_path(r.path, ("rng", tot - k, k))))]
    return None


@model(("IntoIterator", "into_iter"))
def into_iter(m):
    return [(m.st, as_iter(m.I, m.st, m.args[0], selfty_arg(m)))]


def as_iter(I, st, v, ti=None):
    if isit(v) or adt_name(v) in ("Range", "RangeFrom", "RangeInclusive"):
        return v
    if isinstance(v, Seq):
        return it("vals", I.alloc(st, v, ti), ZERO, v.len)
    if isinstance(v, Ref):
        r = I.seqref(st, v)
        if isinstance(r, Ref):
            w = I.load(st, r, I.refty(r))
            if isit(w) or adt_name(w) in ("Range", "RangeFrom", "RangeInclusive"):
                return it("byref", r)
            ti2 = I.refty(r)
            k = I.tys[I.strip(ti2)] if ti2 is not None else None
            if isinstance(w, Seq) or (k is not None and (k["k"] in ("array", "slice") or I.is_vec(k))):
                return it("slice", r, ZERO, I.slen(st, r))
            return it("byref", r)
    return v


@model(("RangeInclusive", "new"))
def ri_new(m):
    return [(m.st, it("rangei", m.args[0], lin(m.args[1]) + 1))]


@model(("", "repeat"), ("iter", "repeat"), ("repeat", "repeat"))
def it_repeat(m):
    return [(m.st, it("repeat", m.args[0]))]


@model(("", "once"), ("iter", "once"))
def it_once(m):
    return [(m.st, it("once", m.args[0], ZERO))]


@model(("", "empty"), ("iter", "empty"))
def it_empty(m):
    return [(m.st, it("take", it("repeat", UNIT), ZERO))]


@model(("Iterator", "rev"))
def rev(m):
    return [(m.st, it("rev", m.args[0]))]


@model(("Iterator", "enumerate"))
def enumerate_(m):
    return [(m.st, it("enum", m.args[0], ZERO))]


@model(("Iterator", "zip"), ("", "zip"), ("iter", "zip"))
def zip_(m):
    return [(m.st, it("zip", as_iter(m.I, m.st, m.args[0]), as_iter(m.I, m.st, m.args[1])))]


@model(("Iterator", "chain"))
def chain(m):
    return [(m.st, it("chain", m.args[0], as_iter(m.I, m.st, m.args[1]), FALSE))]


@model(("Iterator", "map"))
def imap(m):
    return [(m.st, it("map", m.args[0], m.args[1]))]


@model(("Iterator", "filter"))
def ifilter(m):
    return [(m.st, it("filter", m.args[0], m.args[1]))]


@model(("Iterator", "take_while"))
def take_while(m):
    return [(m.st, it("take_while", m.args[0], m.args[1]))]


@model(("Iterator", "copied"), ("Iterator", "cloned"))
def copied(m):
    return [(m.st, it("copied", m.args[0]))]


@model(("Iterator", "by_ref"))
def by_ref(m):
    return [(m.st, it("byref", m.args[0]))]


@model(("Iterator", "peekable"), ("Iterator", "fuse"))
def fuse(m):
    return [(m.st, m.args[0])] if m.name == "fuse" else None


@model(("Iterator", "inspect"))
def inspect(m):
    return None


@model(("Iterator", "skip"))
def skip(m):
    n = lin(m.args[1])
    return [(s, i) for s, i in advance(m.I, m.st, m.args[0], n)]


def advance(I, st, v, n):
    """drop n items from the front"""
    if n is ZERO:
        return [(st, v)]
    if isit(v, "slice") or isit(v, "vals"):
        r, pos, end = v.f
        return [(s, it(v.kind[1], r, pos + n if t else end, end)) for s, t in split(st, ge0(end - pos - n))]
    if adt_name(v) == "Range" or isit(v, "rangei"):
        a, b = v.f[0], v.f[1]
        return [(s, Agg(v.kind, v.var, (a + n if t else b, b) + v.f[2:])) for s, t in split(st, ge0(b - a - n))]
    if isit(v, "enum"):
        return [(s, it("enum", i, v.f[1] + n)) for s, i in advance(I, st, v.f[0], n)]
    if isit(v, "copied"):
        return [(s, it("copied", i)) for s, i in advance(I, st, v.f[0], n)]
    if isit(v, "map"):
        return [(s, it("map", i, v.f[1])) for s, i in advance(I, st, v.f[0], n)]
    if isit(v, "gen"):
        return [(st, it("gen", v.f[0], v.f[1] + n))]
    if isit(v, "zip"):
        out = []
        for s, a in advance(I, st, v.f[0], n):
            out += [(s2, it("zip", a, b)) for s2, b in advance(I, s, v.f[1], n)]
        return out
    return [(st, it("skip", v, n))]


@model(("Iterator", "take"))
def itake(m):
    return limit(m.I, m.st, m.args[0], lin(m.args[1]))


def limit(I, st, v, n):
    if isit(v, "slice") or isit(v, "vals"):
        r, pos, end = v.f
        return [(s, it(v.kind[1], r, pos, pos + n if t else end)) for s, t in split(st, ge0(end - pos - n))]
    if adt_name(v) == "Range":
        a, b = v.f[0], v.f[1]
        return [(s, Agg(v.kind, v.var, (a, a + n if t else b))) for s, t in split(st, ge0(b - a - n))]
    if isit(v, "enum"):
        return [(s, it("enum", i, v.f[1])) for s, i in limit(I, st, v.f[0], n)]
    if isit(v, "copied"):
        return [(s, it("copied", i)) for s, i in limit(I, st, v.f[0], n)]
    return [(st, it("take", v, n))]


@model(("Iterator", "step_by"))
def step_by(m):
    v = m.args[0]
    n = lin(m.args[1])
    if not need(m, ge0(n - 1), "step not zero"):
        return []
    if adt_name(v) == "Range" or isit(v, "rangei"):
        return [(m.st, it("stepr", v.f[0], v.f[1], n))]
    if isit(v, "slice"):
        return [(m.st, it("steps", v.f[0], v.f[1], v.f[2], n))]
    if isit(v, "enum") and isit(v.f[0], "slice"):
        pass
    return [(m.st, it("step", v, n, TRUE))]


def it_next(I, fr, st, v, span=None):
    """[(state, iterator', item or None)]"""
    if isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "it":
        k = v.kind[1]
        f = v.f
        if k == "slice":
            r, pos, end = f
            out = []
            for s, t in split(st, ge0(end - pos - 1)):
                if t:
                    out.append((s, it("slice", r, pos + 1, end), Ref(r.obj, I.join_path(r.path, ("ix", pos)))))
                else:
                    out.append((s, v, None))
            return out
        if k == "vals":
            r, pos, end = f
            out = []
            for s, t in split(st, ge0(end - pos - 1)):
                if t:
                    ref = Ref(r.obj, I.join_path(r.path, ("ix", pos)))
                    out.append((s, it("vals", r, pos + 1, end), I.load(s, ref, I.refty(ref))))
                else:
                    out.append((s, v, None))
            return out
        if k == "rangei":
            a, b = f[0], f[1]
            return [(s, it("rangei", a + 1, b), a) if t else (s, v, None) for s, t in split(st, ge0(b - a - 1))]
        if k == "stepr":
            a, b, n = f
            return [(s, it("stepr", a + n, b, n), a) if t else (s, v, None) for s, t in split(st, ge0(b - a - 1))]
        if k == "steps":
            r, pos, end, n = f
            return [(s, it("steps", r, pos + n, end, n), Ref(r.obj, I.join_path(r.path, ("ix", pos)))) if t else (s, v, None) for s, t in split(st, ge0(end - pos - 1))]
        if k in ("chunks_exact", "windows"):
            r, pos, end, n = f
            stp = n if k == "chunks_exact" else ONE
            return [(s, it(k, r, pos + stp, end, n), Ref(r.obj, I.join_path(r.path, ("rng", pos, n)))) if t else (s, v, None) for s, t in split(st, ge0(end - pos - n))]
        if k == "chunks":
            r, pos, end, n = f
            out = []
            for s, t in split(st, ge0(end - pos - n)):
                if t:
                    if n.const is not None and n.const == 0:
                        continue
                    out.append((s, it(k, r, pos + n, end, n), Ref(r.obj, I.join_path(r.path, ("rng", pos, n)))))
                else:
                    for s2, t2 in split(s, ge0(end - pos - 1)):
                        if t2:
                            out.append((s2, it(k, r, end, end, n), Ref(r.obj, I.join_path(r.path, ("rng", pos, end - pos)))))
                        else:
                            out.append((s2, v, None))
            return out
        if k == "repeat":
            return [(st, v, f[0])]
        if k == "once":
            if f[1] is ZERO:
                return [(st, it("once", f[0], ONE), f[0])]
            return [(st, v, None)]
        if k == "gen":
            out = []
            for s, t in split(st, ge0(I.lenatom(f[0]) - f[1] - 1)) if ending(I) else [(st, True)]:
                if t:
                    x = I.value_of(s, T("elem", f[0], f[1]), f[2].c if len(f) > 2 else None)
                    out.append((s, it("gen", f[0], f[1] + 1, *f[2:]), x))
                else:
                    out.append((s, v, None))
            return out
        if k == "rev":
            return [(s, it("rev", i), x) for s, i, x in it_back(I, fr, st, f[0], span)]
        if k == "enum":
            return [(s, it("enum", i, f[1] + 1) if x is not None else it("enum", i, f[1]), Agg("tuple", 0, (f[1], x)) if x is not None else None)
                    for s, i, x in it_next(I, fr, st, f[0], span)]
        if k == "zip":
            out = []
            for s, a, x in it_next(I, fr, st, f[0], span):
                if x is None:
                    out.append((s, it("zip", a, f[1]), None))
                    continue
                for s2, b, y in it_next(I, fr, s, f[1], span):
                    out.append((s2, it("zip", a, b), Agg("tuple", 0, (x, y)) if y is not None else None))
            return out
        if k == "chain":
            out = []
            if f[2] is not TRUE:
                for s, a, x in it_next(I, fr, st, f[0], span):
                    if x is not None:
                        out.append((s, it("chain", a, f[1], f[2]), x))
                    else:
                        out += [(s2, it("chain", a, b, TRUE), y) for s2, b, y in it_next(I, fr, s, f[1], span)]
                return out
            return [(s2, it("chain", f[0], b, TRUE), y) for s2, b, y in it_next(I, fr, st, f[1], span)]
        if k == "map":
            out = []
            for s, a, x in it_next(I, fr, st, f[0], span):
                if x is None:
                    out.append((s, it("map", a, f[1]), None))
                    continue
                for s2, y in I.call_value(fr, s, f[1], [x], None, span):
                    out.append((s2, it("map", a, f[1]), y))
            return out
        if k == "copied":
            return [(s, it("copied", a), deref1(I, s, x) if x is not None else None) for s, a, x in it_next(I, fr, st, f[0], span)]
        if k == "take":
            out = []
            for s, t in split(st, ge0(f[1] - 1)):
                if not t:
                    out.append((s, v, None))
                else:
                    out += [(s2, it("take", a, f[1] - 1), x) for s2, a, x in it_next(I, fr, s, f[0], span)]
            return out
        if k == "skip":
            # unknown inner: treat as opaque source
            pass
        if k == "byref":
            w = I.load(st, f[0], I.refty(f[0]))
            out = []
            for s, a, x in it_next(I, fr, st, w, span):
                I.store(s, f[0], a)
                out.append((s, v, x))
            return out
        if k == "take_while":
            out = []
            for s, a, x in it_next(I, fr, st, f[0], span):
                if x is None:
                    out.append((s, it("take_while", a, f[1]), None))
                    continue
                tmp = I.alloc(s, x)
                for s2, c in I.call_value(fr, s, f[1], [tmp], None, span):
                    s2.store.pop(tmp.obj, None)
                    for s3, t in split(s2, c):
                        out.append((s3, it("take_while", a, f[1]), x if t else None))
            return out
        if k == "filter":
            return it_filter(I, fr, st, v, span)
    nm = adt_name(v)
    if nm == "Range":
        a, b = lin(v.f[0]), lin(v.f[1])
        return [(s, Agg(v.kind, v.var, (a + 1, b)), a) if t else (s, v, None) for s, t in split(st, ge0(b - a - 1))]
    if nm == "RangeFrom":
        a = lin(v.f[0])
        return [(st, Agg(v.kind, v.var, (a + 1,)), a)]
    # user-defined iterator
    if isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "adt":
        f = I.p.trait_impls.get(("Iterator", v.kind[1], "next"))
        if f is not None and I.pol.inline(I, f):
            r = I.alloc(st, v, None)
            out = []
            for s, o in I.run_fn(f, [r], st, {}, fr, span=span):
                for s2, kk, ff in cases(I, s, o):
                    out.append((s2, s2.store[r.obj], ff[0] if kk == SOME else None))
            return out
    # opaque iterator
    I.nser += 1
    t = T("item", I.freeze(st, v), I.nser)
    s2 = st.copy()
    nv = Sym(T("iter", t), v.ty if isinstance(v, Sym) else None)
    return [(st, nv, Sym(t, None)), (s2, v, None)]


def it_filter(I, fr, st, v, span):
    from .loops import run_loop
    box = I.alloc(st, v.f[0])
    res = I.alloc(st, UNIT)

    def step(h):
        backs, exits = [], []
        for s, a, x in it_next(I, fr, h, h.store[box.obj], span):
            s.store[box.obj] = a
            if x is None:
                exits.append(("none", s))
                continue
            tmp = I.alloc(s, x)
            for s2, c in I.call_value(fr, s, v.f[1], [tmp], None, span):
                s2.store.pop(tmp.obj, None)
                for s3, t in split(s2, c):
                    if t:
                        s3.store[res.obj] = x
                        exits.append(("some", s3))
                    else:
                        backs.append(s3)
        return I.join(fr, None, backs), exits
    out = []
    for tag, s in run_loop(I, ("filter", 0, span), st, step, fr):
        a = s.store.pop(box.obj)
        x = s.store.pop(res.obj)
        out.append((s, it("filter", a, v.f[1]), x if tag == "some" else None))
    return out


def it_back(I, fr, st, v, span):
    if isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "it":
        k, f = v.kind[1], v.f
        if k in ("slice", "vals"):
            r, pos, end = f
            out = []
            for s, t in split(st, ge0(end - pos - 1)):
                if t:
                    ref = Ref(r.obj, I.join_path(r.path, ("ix", end - 1)))
                    out.append((s, it(k, r, pos, end - 1), ref if k == "slice" else I.load(s, ref, I.refty(ref))))
                else:
                    out.append((s, v, None))
            return out
        if k == "rangei":
            a, b = f[0], f[1]
            return [(s, it("rangei", a, b - 1), b - 1) if t else (s, v, None) for s, t in split(st, ge0(b - a - 1))]
        if k == "rev":
            return [(s, it("rev", i), x) for s, i, x in it_next(I, fr, st, f[0], span)]
        if k == "copied":
            return [(s, it("copied", a), deref1(I, s, x) if x is not None else None) for s, a, x in it_back(I, fr, st, f[0], span)]
        if k == "map":
            out = []
            for s, a, x in it_back(I, fr, st, f[0], span):
                if x is None:
                    out.append((s, it("map", a, f[1]), None))
                else:
                    out += [(s2, it("map", a, f[1]), y) for s2, y in I.call_value(fr, s, f[1], [x], None, span)]
            return out
        if k == "enum":
            n = it_len(I, st, f[0])
            if n is not None:
                return [(s, it("enum", i, f[1]), Agg("tuple", 0, (f[1] + n - 1, x)) if x is not None else None) for s, i, x in it_back(I, fr, st, f[0], span)]
        if k == "zip":
            a, b = it_len(I, st, f[0]), it_len(I, st, f[1])
            if a is not None and b is not None and st.facts.entails_eq(a - b):
                out = []
                for s, x, p in it_back(I, fr, st, f[0], span):
                    if p is None:
                        out.append((s, it("zip", x, f[1]), None))
                    else:
                        out += [(s2, it("zip", x, y), Agg("tuple", 0, (p, q)) if q is not None else None) for s2, y, q in it_back(I, fr, s, f[1], span)]
                return out
        if k == "chunks_exact":
            r, pos, end, n = f
            if n.const is not None:
                e2 = end - ops.rem(st, end - pos, n.const)
                return [(s, it(k, r, pos, e2 - n, n), Ref(r.obj, I.join_path(r.path, ("rng", e2 - n, n)))) if t else (s, v, None) for s, t in split(st, ge0(e2 - pos - n))]
        if k == "stepr":
            a, b, n = f
            if n.const is not None and a.const is not None and b.const is not None:
                cnt = max(0, -(-(b.c - a.c) // n.c))
                if cnt == 0:
                    return [(st, v, None)]
                last = a.c + (cnt - 1) * n.c
                return [(st, it("stepr", a, Lin(last), n), Lin(last))]
    if adt_name(v) == "Range":
        a, b = lin(v.f[0]), lin(v.f[1])
        return [(s, Agg(v.kind, v.var, (a, b - 1)), b - 1) if t else (s, v, None) for s, t in split(st, ge0(b - a - 1))]
    I.nser += 1
    t = T("item", I.freeze(st, v), I.nser)
    s2 = st.copy()
    return [(st, Sym(T("iter", t), None), Sym(t, None)), (s2, v, None)]


def it_len(I, st, v):
    if isit(v, "slice") or isit(v, "vals"):
        return v.f[2] - v.f[1]
    if isit(v, "rangei") or adt_name(v) == "Range":
        return lin(v.f[1]) - lin(v.f[0])
    if isit(v, "enum") or isit(v, "copied") or isit(v, "map") or isit(v, "rev"):
        return it_len(I, st, v.f[0])
    if isit(v, "zip"):
        a, b = it_len(I, st, v.f[0]), it_len(I, st, v.f[1])
        if a is not None and b is not None:
            if st.facts.entails_ge(b - a):
                return a
            if st.facts.entails_ge(a - b):
                return b
    if isit(v, "take"):
        if isit(v.f[0], "repeat") or isit(v.f[0], "gen") and not ending(I):
            return v.f[1]
    return None


def ending(I):
    """random sources may fail midway: their iterators may end at any time"""
    return getattr(I.pol, "ending", False)


def it_seq(I, st, v, span=None):
    """contents of an iterator over plain values, if directly expressible"""
    if isit(v, "slice") or isit(v, "vals"):
        r, pos, end = v.f
        s = I.seq(st, r)
        if isinstance(r, Ref) and isinstance(s, Seq):
            return seq_slice(st, s, pos, end - pos)
    if isit(v, "copied"):
        return it_seq(I, st, v.f[0])
    if isit(v, "take") and isit(v.f[0], "repeat") and st.facts.entails_ge(v.f[1]):
        return Seq((("fill", v.f[0].f[0], v.f[1]),))
    if isit(v, "take") and isit(v.f[0], "gen") and not ending(I) and st.facts.entails_ge(v.f[1]):
        return Seq((("src", v.f[0].f[0], v.f[0].f[1], v.f[1]),))
    if isit(v, "once"):
        return Seq((("lit", (deref1(I, st, v.f[0]),)),))
    if isit(v, "chain") and v.f[2] is FALSE:
        a, b = it_seq(I, st, v.f[0]), it_seq(I, st, v.f[1])
        if a is not None and b is not None:
            return a + b
    if isit(v, "rev"):
        s = it_seq(I, st, v.f[0])
        if s is not None and len(s.p) == 1 and s.p[0][0] == "lit":
            return Seq((("lit", tuple(reversed(s.p[0][1]))),))
    return None


@model(("Iterator", "next"))
def nxt(m):
    I, st = m.I, m.st
    r = m.args[0]
    n = 0
    v = I.load(st, r, I.refty(r))
    while isinstance(v, Ref) and n < 3:
        r = v
        v = I.load(st, r, I.refty(r))
        n += 1
    out = []
    for s, i, x in it_next(I, m.fr, st, v, m.span):
        I.store(s, r, i)
        out.append((s, none(I) if x is None else some(I, I.coerce(s, x, retinner(m, SOME)))))
    return out


@model(("DoubleEndedIterator", "next_back"))
def nxt_back(m):
    I, st = m.I, m.st
    r = m.args[0]
    v = I.load(st, r, I.refty(r))
    out = []
    for s, i, x in it_back(I, m.fr, st, v, m.span):
        I.store(s, r, i)
        out.append((s, none(I) if x is None else some(I, x)))
    return out


@model(("Iterator", "nth"))
def nth(m):
    I, st = m.I, m.st
    r = m.args[0]
    v = I.load(st, r, I.refty(r))
    out = []
    for s0, w in advance(I, st, v, lin(m.args[1])):
        for s, i, x in it_next(I, m.fr, s0, w, m.span):
            I.store(s, r, i)
            out.append((s, none(I) if x is None else some(I, I.coerce(s, x, retinner(m, SOME)))))
    return out


@model(("ExactSizeIterator", "len"), ("Iterator", "count"))
def it_count(m):
    I, st = m.I, m.st
    v = deref(I, st, m.args[0]) if isinstance(m.args[0], Ref) else m.args[0]
    n = it_len(I, st, v)
    if n is not None:
        return [(st, n)]
    if m.name == "count":
        acc = I.alloc(st, ZERO)
        out = []

        def body(s, x):
            s.store[acc.obj] = s.store[acc.obj] + 1
            return [(s, None)]
        for tag, s in drive(m, st, v, body):
            n = s.store.pop(acc.obj)
            out.append((s, n))
        return out
    return None


def drive(m, st, v, body):
    """loop over iterator v; body(state, item) -> [(state, exit tag or None)]"""
    from .loops import run_loop
    I = m.I
    box = I.alloc(st, v)

    def step(h):
        backs, exits = [], []
        for s, a, x in it_next(I, m.fr, h, h.store[box.obj], m.span):
            s.store[box.obj] = a
            if x is None:
                exits.append(("end", s))
                continue
            for s2, tag in body(s, x):
                if tag is None:
                    backs.append(s2)
                else:
                    exits.append((tag, s2))
        return I.join(m.fr, None, backs), exits
    res = run_loop(I, (m.fr.fn["n"] + "::" + m.name, 0, m.span), st, step, m.fr)
    for tag, s in res:
        s.store.pop(box.obj, None)
    return res


@model(("Iterator", "for_each"))
def for_each(m):
    I = m.I
    f = I.alloc(m.st, m.args[1])

    def body(s, x):
        return [(s2, None) for s2, _ in I.call_value(m.fr, s, f, [x], None, m.span)]
    out = []
    for tag, s in drive(m, m.st, m.args[0], body):
        s.store.pop(f.obj, None)
        out.append((s, UNIT))
    return out


@model(("Iterator", "try_for_each"))
def try_for_each(m):
    I = m.I
    f = I.alloc(m.st, m.args[1])
    slot = I.alloc(m.st, UNIT)
    v = m.args[0]
    if isinstance(v, Ref):
        v = as_iter(I, m.st, v)
        if not isit(v, "byref"):
            v = I.load(m.st, m.args[0], I.refty(m.args[0]))

    def body(s, x):
        out = []
        for s2, r in I.call_value(m.fr, s, f, [x], m.rty, m.span):
            for s3, k, ff in cases(I, s2, r):
                if k == OK:
                    out.append((s3, None))
                else:
                    s3.store[slot.obj] = mk(I, "Result", k, *ff)
                    out.append((s3, "err"))
        return out
    out = []
    for tag, s in drive(m, m.st, v, body):
        s.store.pop(f.obj, None)
        r = s.store.pop(slot.obj)
        out.append((s, r if tag == "err" else mk(I, "Result", OK, UNIT)))
    return out


@model(("Iterator", "fold"))
def fold(m):
    I = m.I
    f = I.alloc(m.st, m.args[2])
    acc = I.alloc(m.st, m.args[1], m.rty)

    def body(s, x):
        out = []
        for s2, v in I.call_value(m.fr, s, f, [s.store[acc.obj], x], m.rty, m.span):
            s2.store[acc.obj] = v
            out.append((s2, None))
        return out
    out = []
    for tag, s in drive(m, m.st, m.args[0], body):
        s.store.pop(f.obj, None)
        out.append((s, s.store.pop(acc.obj)))
    return out


@model(("Iterator", "all"), ("Iterator", "any"))
def all_any(m):
    I = m.I
    f = I.alloc(m.st, m.args[1])
    v = m.args[0]
    r = v
    if isinstance(v, Ref):
        v = I.load(m.st, v, I.refty(v))
    isall = m.name == "all"

    def body(s, x):
        out = []
        for s2, c in I.call_value(m.fr, s, f, [x], None, m.span):
            for s3, t in split(s2, c):
                out.append((s3, None if t == isall else "stop"))
        return out
    out = []
    for tag, s in drive(m, m.st, v, body):
        s.store.pop(f.obj, None)
        stop = tag == "stop"
        out.append((s, (FALSE if stop else TRUE) if isall else (TRUE if stop else FALSE)))
    return out


@model(("Iterator", "position"), ("Iterator", "find"), ("Iterator", "rposition"))
def position(m):
    I = m.I
    r = m.args[0]
    v = I.load(m.st, r, I.refty(r)) if isinstance(r, Ref) else r
    back = None
    if m.name == "rposition":
        back = it_seq(I, m.st, v)
        if back is None:
            return None
        back, v = back.len, it("rev", v)
    f = I.alloc(m.st, m.args[1])
    cnt = I.alloc(m.st, ZERO)
    slot = I.alloc(m.st, UNIT)

    def body(s, x):
        out = []
        arg = x
        tmp = None
        if m.name == "find":
            arg = tmp = I.alloc(s, x)
        for s2, c in I.call_value(m.fr, s, f, [arg], None, m.span):
            if tmp is not None:
                s2.store.pop(tmp.obj, None)
            for s3, t in split(s2, c):
                if t:
                    at = s3.store[cnt.obj]
                    s3.store[slot.obj] = x if m.name == "find" else at if back is None else back - 1 - at
                    out.append((s3, "hit"))
                else:
                    s3.store[cnt.obj] = s3.store[cnt.obj] + 1
                    out.append((s3, None))
        return out
    out = []
    for tag, s in drive(m, m.st, v, body):
        s.store.pop(f.obj, None)
        s.store.pop(cnt.obj, None)
        x = s.store.pop(slot.obj)
        out.append((s, some(I, x) if tag == "hit" else none(I)))
    return out


@model(("Iterator", "eq"), ("Iterator", "ne"))
def it_eq(m):
    I, st = m.I, m.st
    a = it_seq(I, st, m.args[0])
    b = it_seq(I, st, as_iter(I, st, m.args[1]))
    if a is not None and b is not None:
        r = seqeq(I, st, a, b)
        return [(st, r if m.name == "eq" else bnot(r))]
    return None


@model(("Extend", "extend"), ("Iterator", "collect"), ("FromIterator", "from_iter"))
def extend(m):
    I, st = m.I, m.st
    collect = m.name != "extend"
    if collect and m.rty is not None and not I.is_vec(I.tys[I.strip(m.rty)]):
        return None
    src = m.args[0] if collect else m.args[1]
    v = as_iter(I, st, src)
    base = None
    if not collect:
        base = I.seqref(st, m.args[0])
    s = it_seq(I, st, v)
    if s is not None:
        if collect:
            return [(st, s)]
        I.store(st, base, I.seq(st, base) + s)
        return [(st, UNIT)]
    box = I.alloc(st, I.seq(st, base) if not collect else EMPTY, None)
    if not collect and isinstance(base, Ref):
        I.oty[box.obj] = I.refty(base)

    def body(s, x):
        x = deref1(I, s, x) if not collect or isinstance(x, Ref) and not collect else x
        s.store[box.obj] = s.store[box.obj] + Seq((("lit", (x,)),))
        return [(s, None)]
    out = []
    for tag, s in drive(m, st, v, body):
        r = s.store.pop(box.obj)
        if collect:
            out.append((s, r))
        else:
            I.store(s, base, r)
            out.append((s, UNIT))
    return out


@model(("Iterator", "sum"), ("Iterator", "last"), ("Iterator", "max"), ("Iterator", "min"), ("Iterator", "product"))
def it_sum(m):
    return None


@model(("FnOnce", "call_once"), ("FnMut", "call_mut"), ("Fn", "call"))
def fncall(m):
    I, st = m.I, m.st
    t = m.args[1]
    a = list(t.f) if isinstance(t, Agg) and t.kind == "tuple" else [t]
    return I.call_value(m.fr, st, m.args[0], a, m.rty, m.span)


@model(("TypeId", "of"))
def typeid(m):
    ti = selfty_arg(m)
    return [(m.st, Sym(T("typeid", m.I.tys[ti]["s"]), m.rty))]


@model(("any", "type_name"), ("", "type_name"))
def typename(m):
    ti = selfty_arg(m)
    return [(m.st, Ref(("K", Seq((("src", T("typename", m.I.tys[ti]["s"]), ZERO, m.I.lenatom(T("typename", m.I.tys[ti]["s"]))),)))))]


@model(("mem", "size_of"), ("", "size_of"))
def size_of(m):
    ti = selfty_arg(m)
    t = m.I.tys[ti]
    if t["k"] in ("int", "uint"):
        return [(m.st, Lin(t["bits"] // 8))]
    return [(m.st, ops.atom("sizeof", None, t["s"]))]
