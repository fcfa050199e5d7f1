"""Shared by the checks that run the abstract interpreter."""
import os
import signal
import sys
import time

from engine.interp import Interp, Policy, Budget
from engine.state import State, Ev, seq_get
from engine.terms import *
from engine.contracts import Contracts
from engine import models
from engine.subst import subst


class Undecided(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class Run:
    """one function analysed from a symbolic entry state"""
    def __init__(self, prog, fn, pol, prep=None, limit=120, env=None, maxsteps=None):
        self.prog, self.fn = prog, fn
        self.I = I = Interp(prog, pol)
        if maxsteps:
            I.MAXSTEPS = maxsteps
        self.st = st = State()
        self.args = [I.param(st, "a%d" % i, t) for i, t in enumerate(fn["in"])]
        if prep:
            prep(self)
        self.entry = st.copy()
        self.outs = I.run_fn(fn, list(self.args), st, dict(env or {}), None)

    def ok(self):
        """paths returning Ok (or any value for functions without Result)"""
        return [(s, v) for s, v in self.outs if not is_err(self.I, s, v)]

    def errs(self):
        return [(s, v) for s, v in self.outs if is_err(self.I, s, v)]

    def self_after(self, s):
        return self.I.load(s, self.args[0], self.I.refty(self.args[0]))

    def deref(self, s, i):
        return self.I.load(s, self.args[i], self.I.refty(self.args[i]))


def adt_last(v):
    return v.kind[1].split("::")[-1] if isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "adt" else None


def is_err(I, s, v):
    if adt_last(v) == "Result":
        return v.var == 1
    if isinstance(v, Sym) and v.ty is not None:
        t = I.tys[I.strip(v.ty)]
        if t["k"] == "adt" and t["n"].endswith("Result"):
            return s.vr.get(v.t) == 1
    return False


def is_ok(I, s, v):
    if adt_last(v) == "Result":
        return v.var == 0
    return False


def guarded(f, limit=100):
    """run f; why the interpreter gave up, None if it did not"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        f()
        return None
    except Timeout:
        why = "time limit"
    except Budget as e:
        why = str(e)
    except RecursionError:
        why = "recursion limit"
    except Exception as e:                       # an unsupported construct: undecided, not an alarm
        if os.environ.get("VERIF_DEBUG"):
            raise
        why = "unsupported: %s: %s" % (type(e).__name__, e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return why


def attempt(rep, prog, fn, pol, prep=None, limit=100, **kw):
    """analyse; None (and a note) if the interpreter gives up"""
    r = []
    why = guarded(lambda: r.append(Run(prog, fn, pol, prep, **kw)), limit)
    if why is None:
        return r[0]
    rep.notes.setdefault("undecided", []).append("%s: %s" % (fn["n"], why))
    rep.obl += 1
    return None


def where(fn, line=None):
    return "%s:%s in %s" % (rel(fn["span"][0]), line or fn["span"][1], fn["n"])


def rel(p):
    i = p.find("/src/")
    return p[i + 1:] if i >= 0 else p


def self_adt(prog, fn):
    if fn.get("self") is None:
        return None
    t = prog.tys[fn["self"]]
    return prog.adts.get(t["d"]) if t["k"] == "adt" else None


def local_fns(prog):
    return [f for f in prog.fns.values() if f["kind"] == "fn" and "::tests::" not in f["d"] and "::test::" not in f["d"]]


def fieldname(adt, i, var=0):
    return adt["vars"][var]["f"][i]["n"]


def peel_refs(prog, ti):
    t = prog.tys[ti]
    while t["k"] in ("ref", "ptr"):
        ti = t["e"]
        t = prog.tys[ti]
    return ti, t


def has_self_ref(prog, fn):
    """first parameter is &self / &mut self of the impl's type"""
    if not fn["in"] or fn.get("self") is None:
        return False
    t = prog.tys[fn["in"][0]]
    return t["k"] == "ref" and t["e"] == fn["self"]


def both(progs):
    """(config, prog); facts that do not depend on the configuration are the same in both"""
    return list(progs.items())


# ---- which fields carry state ---------------------------------------------

def entry_field(I, st, ref, adt, i):
    """the value of field i of the object behind ref"""
    return I.load(st, Ref(ref.obj, ref.path + (("f", i),)))


def roots(v):
    """outermost terms naming unknown contents within a value"""
    if isinstance(v, Sym):
        return {v.t}
    if isinstance(v, Lin):
        return {a for a, _ in v.t}
    if isinstance(v, Seq):
        return {p[1] for p in v.p if p[0] == "src"}
    if isinstance(v, Agg):
        r = set()
        for x in v.f:
            r |= roots(x)
        return r
    if isinstance(v, T):
        return {v}
    return set()


def nonempty(s, v):
    """a sequence without the pieces whose length is known to be zero on the path; lengths known to be zero put in"""
    if isinstance(v, Seq):
        z = {x: ZERO for x in set(walk(v)) if isinstance(x, T) and x.op == "len" and s.facts.entails_eq(Lin.atom(x))}
        v = subst(v, z) if z else v
        return Seq(tuple(p for p in v.p if p[0] == "lit" or not s.facts.entails_eq(p[3] if p[0] == "src" else p[2])))
    return v


def mentions(v, terms):
    return any(x in terms for x in walk(v))


def ev_mentions(evs, terms):
    for e in evs:
        if e.kind == "loop":
            if any(ev_mentions(b, terms) for b in e.x["backs"]):
                return True
            continue
        if any(mentions(a, terms) for a in e.args) or (e.x is not None and mentions(e.x if not isinstance(e.x, (list, dict)) else tuple(e.x), terms)):
            return True
    return False


_scratch = {}


def users_of(prog, adt):
    """functions of the module that defines the type having it as a parameter by reference"""
    for fn in local_fns(prog):
        if fn["span"][0] != adt["span"][0]:
            continue
        for j, ti in enumerate(fn["in"]):
            _, t = peel_refs(prog, ti)
            if t["k"] == "adt" and t["d"] == adt["d"] and prog.tys[ti]["k"] == "ref":
                yield fn, j


class AllContracts(Contracts):
    """cipher and digest calls on concrete types are replaced by the trait's contract, too"""
    concrete = ("Cipher", "Digest", "Padding", "Counter", "InitialVec")

    def __init__(self, own=()):
        self.own = own

    def call(self, I, fr, st, c, fn, args, rty, span):
        if fn is not None and c.get("tname") in self.concrete:
            a = self_adt(I.p, fn)
            if a is not None and a["d"] in self.own:
                return None
        return Contracts.call(self, I, fr, st, c, fn, args, rty, span)


def scratch(rep, prog, adt, i, pol=AllContracts):
    """True if what field i holds when a function is entered never influences anything but that field"""
    k = (prog.cfg if hasattr(prog, "cfg") else id(prog), adt["d"], i)
    if k not in _scratch:
        _scratch[k] = _is_scratch(rep, prog, adt, i, pol)
    return _scratch[k]


def _is_scratch(rep, prog, adt, i, pol):
    n = 0
    for fn, j in users_of(prog, adt):
        if fn.get("tname") in ("Clone", "Drop", "Debug", "Display"):
            continue
        ot = prog.tys[fn["out"]]
        if ot["k"] == "ref" and not fn.get("pub") and not fn.get("trait"):
            continue
        r = attempt(rep, prog, fn, pol((adt["d"],)))
        if r is None:
            return False
        n += 1
        I = r.I
        ref = r.args[j]
        obj = I.load(r.entry, ref, I.refty(ref))
        if not isinstance(obj, Agg):
            return False
        terms = tainted(I, roots(obj.f[i]))
        for s, v in r.outs:
            if mentions(I.freeze(s, v), terms) or ev_mentions(s.events(), terms):
                return False
            for q, a in enumerate(r.args):
                if not isinstance(a, Ref):
                    continue
                w = I.freeze(s, I.load(s, a, I.refty(a)))
                if q == j and isinstance(w, Agg):
                    w = tuple(x for m, x in enumerate(w.f) if m != i)
                if mentions(w, terms):
                    return False
    return n > 0


def tainted(I, terms):
    """terms together with the loop-carried values that depend on them"""
    terms = set(terms)
    more = True
    while more:
        more = False
        for t, d in I.mudef.items():
            if t not in terms and mu_mentions({k: v for k, v in d.items() if k in ("init", "backs", "extras", "step", "d")}, terms):
                terms.add(t)
                more = True
    return terms


def mu_mentions(d, terms):
    if isinstance(d, dict):
        return any(mu_mentions(x, terms) for x in d.values())
    if isinstance(d, (list, tuple)):
        return any(mu_mentions(x, terms) for x in d)
    if hasattr(d, "kids"):
        return mentions(d, terms)
    return False


# ---- arithmetic cores ------------------------------------------------------

WORDOPS = ("rotate_left", "rotate_right", "wrapping_add", "wrapping_sub", "wrapping_mul")


def big_array(prog, ti, n=1):
    t = prog.tys[ti]
    while t["k"] == "array" and isinstance(t["len"], int):
        n *= t["len"]
        t = prog.tys[t["e"]]
    return n > 512


def cores(prog):
    """functions that mix words or touch a large state array: kept as uninterpreted functions of their arguments"""
    if hasattr(prog, "_cores"):
        return prog._cores
    own, big = {}, set()
    for f in prog.fns.values():
        root = f["d"].split("::{closure")[0].split("#p")[0]
        w = 0
        for b in f["blocks"]:
            if b.get("c"):
                continue
            for s in b["s"]:
                if s[0] != "=":
                    continue
                if s[2][0] == "bin" and s[2][1] == "BitXor" and prog.tys[f["locals"][s[1][0]][0]]["k"] != "bool":
                    w += 1
                for p in places(s):
                    for q in p[1:]:
                        if isinstance(q, list) and q[0] == "f" and isinstance(q[2], int) and big_array(prog, q[2]):
                            big.add(root)
            t = b["t"]
            if t[0] == "call" and "fn" in t[1]:
                c = t[1]["fn"]
                if c["name"] in WORDOPS or "core_arch" in c["d"]:
                    w += 1
        own[root] = own.get(root, 0) + w
    r = {d for d, w in own.items() if w >= 8} | big
    prog._cores = {d for d in r if d in prog.fns and not prog.fns[d].get("trait")}
    return prog._cores


def places(s):
    """places read or written by an assignment"""
    yield s[1]
    yield from _places(s[2])


def _places(x):
    if isinstance(x, dict):
        if x.get("k") in ("copy", "move"):
            yield x["p"]
        return
    if isinstance(x, list):
        if x and x[0] in ("ref", "rawptr", "discr") and isinstance(x[-1], list):
            yield x[-1]
            return
        for y in x[1:] if x and isinstance(x[0], str) else x:
            yield from _places(y)


class Cored(Contracts):
    """trait contracts for unknown types, arithmetic cores opaque, everything else followed"""
    def __init__(self, prog):
        self.cores = cores(prog)

    def inline(self, I, fn):
        return fn["d"] not in self.cores


def keyops(prog):
    """the public arithmetic of the RSA keys"""
    if not hasattr(prog, "_keyops"):
        r = set()
        for f in local_fns(prog):
            a = self_adt(prog, f)
            if a is not None and "::rsa::" in a["d"] and a["n"].split("::")[-1] in ("PublicKey", "PrivateKey") and (f["name"] in ("encrypt", "decrypt", "decrypt_and_check", "is_valid") or f["name"].startswith("generate")):
                r.add(f["d"])
        prog._keyops = r
    return prog._keyops


def maskgens(prog):
    """functions that take digests in a loop: mask generation"""
    if not hasattr(prog, "_maskgens"):
        r = set()
        for f in local_fns(prog):
            if f.get("trait"):
                continue
            inl = set()
            for h, body in f["loops"].items() if isinstance(f["loops"], dict) else f["loops"]:
                inl |= set(body)
            for i in inl:
                t = f["blocks"][i]["t"]
                if t[0] == "call" and "fn" in t[1] and t[1]["fn"].get("tname") == "Digest" and t[1]["fn"]["name"] == "checksum":
                    r.add(f["d"])
        prog._maskgens = r
    return prog._maskgens


class Keyed(Cored):
    """key arithmetic and mask generation opaque as well"""
    def __init__(self, prog):
        Cored.__init__(self, prog)
        self.key = keyops(prog) | maskgens(prog)

    def inline(self, I, fn):
        return fn["d"] not in self.key and Cored.inline(self, I, fn)


# ---- leaves ----------------------------------------------------------------

def leaves(v, path=()):
    """(path, value) of the scalar and sequence leaves of an object"""
    if isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] == "adt" and v.var == 0 and not v.kind[1].split("::")[-1] in ("Option", "Result"):
        for i, x in enumerate(v.f):
            yield from leaves(x, path + (i,))
    elif v is not UNIT:
        yield path, v


def leafname(prog, adt, path):
    n = []
    for i in path:
        f = adt["vars"][0]["f"][i]
        n.append(f["n"])
        t = prog.tys[f["t"]]
        while t["k"] == "adt" and (t["d"] not in prog.adts or not prog.adts[t["d"]]["local"]) and t.get("a"):
            t = prog.tys[t["a"][0]]           # Cell<T>
        if t["k"] != "adt" or t["d"] not in prog.adts:
            break
        adt = prog.adts[t["d"]]
    return ".".join(n)


# ---- equality up to the names of loop variables -----------------------------------

def unsym(v):
    return Lin.atom(v.t) if isinstance(v, Sym) and v.ty is None else v


def alike(I, s, a, b, m=None, wild=None):
    """a and b denote the same value: structurally equal, loop variables matched by start value, step and trip count"""
    if a is b:
        return True
    m = {} if m is None else m
    if wild is not None:
        if isinstance(a, Seq) and isinstance(b, Seq) and a.len.const is not None and a.len.const == b.len.const and a.len.const <= 64 and (len(a.p) > 1 or len(b.p) > 1):
            xs, ys = ([unsym(seq_get(s, q, Lin(i))) for i in range(a.len.const)] for q in (a, b))
            return all(alike(I, s, x, y, m, wild) for x, y in zip(xs, ys))
        if isinstance(a, (Lin, T)) and isinstance(b, (Lin, T)) and wild(a):
            return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(alike(I, s, x, y, m, wild) for x, y in zip(a, b))
    if isinstance(a, T):
        da, db = I.mudef.get(a), I.mudef.get(b)
        if da is not None and db is not None:
            if a in m:
                return m[a] is b
            if "backs" in da and "backs" in db:
                if len(da["backs"]) != len(db["backs"]) or not trip(I, s, da["loop"]) == trip(I, s, db["loop"]):
                    return False
                m2 = dict(m)
                m2[a] = b
                if alike(I, s, da["init"], db["init"], m2, wild) and all(alike(I, s, x, y, m2, wild) for x, y in zip(da["backs"], db["backs"])):
                    m.update(m2)
                    return True
                return False
            if "extras" in da and "extras" in db:
                m2 = dict(m)
                m2[a] = b
                if len(da["extras"]) == len(db["extras"]) and alike(I, s, da["init"], db["init"], m2, wild) and alike(I, s, da["extras"], db["extras"], m2, wild):
                    m.update(m2)
                    return True
                return False
            return "d" in da and "d" in db
        return a.op == b.op and len(a.args) == len(b.args) and all(alike(I, s, x, y, m, wild) for x, y in zip(a.args, b.args))
    if isinstance(a, Lin):
        return a.c == b.c and len(a.t) == len(b.t) and all(k == l and alike(I, s, x, y, m, wild) for (x, k), (y, l) in zip(a.t, b.t))
    if isinstance(a, Seq):
        if len(a.p) == len(b.p) and all(alike(I, s, x, y, m, wild) for x, y in zip(a.p, b.p)):
            return True
        return s.facts.entails_eq(a.len) and s.facts.entails_eq(b.len)
    if isinstance(a, Agg):
        return a.kind == b.kind and a.var == b.var and alike(I, s, a.f, b.f, m, wild)
    if isinstance(a, Sym):
        return alike(I, s, a.t, b.t, m, wild)
    return a == b


def trip(I, s, loop):
    """iteration counts of a loop known at the end of the path"""
    r = []
    for t, d in I.mudef.items():
        if d["loop"] == loop and "d" in d:
            for e in s.facts.eq:
                if len(e.t) == 1 and e.t[0][0] is t:
                    r.append(-e.c // e.t[0][1])
    return sorted(r)
