"""Numeric facts about a type's fields that every constructor establishes and every operation preserves."""
from .common import *
from .c02 import P, ctors_of, success, SKIP_TRAITS


def measure(I, st, v):
    """int leaf -> its value; sequence leaf -> its length"""
    if isinstance(v, Lin):
        return v
    if isinstance(v, Seq):
        return v.len
    return None


def candidates(obj):
    """(leaf a, leaf b or None, slack): a <= b + slack, or a <= slack, measured by value or length"""
    ints, fixed, seqs = [], [], []
    for p, v in leaves(obj):
        if isinstance(v, Lin):
            ints.append(p)
        elif isinstance(v, Seq):
            (fixed if v.len.const is not None else seqs).append((p, v))
    for p in ints:
        for n in sorted({v.len.const for _, v in fixed if v.len.const > 1}):
            yield (p, None, n - 1)
            yield (p, None, n)
    for p, _ in seqs:
        for q in ints:
            yield (p, q, -1)
            yield (p, q, 0)


def lows(obj):
    """numbers that may be positive, sequences that may never be empty"""
    for p, v in leaves(obj):
        if isinstance(v, Lin) and v.const is None or isinstance(v, Seq) and v.len.const is None:
            yield (None, p, -1)


def expr(lv, c, I, st):
    p, q, k = c
    a = Lin(0) if p is None else measure(I, st, lv[p]) if p in lv else None
    b = Lin(0) if q is None else measure(I, st, lv[q]) if q in lv else None
    if a is None or b is None:
        return None
    return b + k - a                                     # >= 0


def assume(run, adt, inv, ref=None):
    I, st = run.I, run.st
    ref = run.args[0] if ref is None else ref
    lv = dict(leaves(I.load(st, ref, I.refty(ref))))
    for c in inv:
        e = expr(lv, c, I, st)
        if e is not None:
            st.facts.add_ge(e)


def mutators(prog, adt):
    for fn in local_fns(prog):
        a = self_adt(prog, fn)
        if a is None or a["d"] != adt["d"] or not has_self_ref(prog, fn) or fn.get("tname") in SKIP_TRAITS:
            continue
        if fn.get("pub") or fn.get("trait"):
            yield fn


def invariants(rep, prog, adt, low=False):
    memo = prog.__dict__.setdefault("_invlow" if low else "_inv", {})
    if adt["d"] in memo:
        return memo[adt["d"]]
    cand = None
    for c in ctors_of(prog, adt):
        run = attempt(rep, prog, c, P(prog))
        if run is None:
            continue
        for s, v in run.outs:
            obj = success(run.I, s, v)
            if not isinstance(obj, Agg):
                continue
            lv = dict(leaves(obj))
            if cand is None:
                # the shape of an arbitrary object tells which sequences have a fixed length
                o = arbitrary(prog, adt, c)
                cand = set(lows(o)) if low else set(candidates(o))
            keep = set()
            for k in cand:
                e = expr(lv, k, run.I, s)
                if e is not None and s.facts.entails_ge(e):
                    keep.add(k)
            cand = keep
    cand = cand or set()
    while cand:
        bad = set()
        for fn in mutators(prog, adt):
            run = attempt(rep, prog, fn, P(prog), prep=lambda r: assume(r, adt, cand))
            if run is None:
                bad |= {k for k in cand if k not in bad}
                break
            for s, _ in run.outs:
                lv = dict(leaves(run.self_after(s)))
                for k in cand - bad:
                    e = expr(lv, k, run.I, s)
                    if e is None or not s.facts.entails_ge(e):
                        bad.add(k)
        if not bad:
            break
        cand -= bad
    memo[adt["d"]] = cand
    return cand


def arbitrary(prog, adt, ctor):
    """an object of the type with nothing known about it"""
    o = prog.tys[ctor["out"]]
    ti = ctor["out"]
    if o["k"] == "adt" and o["d"] != adt["d"]:
        ti = o["a"][0]
    I = Interp(prog, P(prog))
    st = State()
    return I.value_of(st, T("any"), ti)
