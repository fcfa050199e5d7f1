"""Loop summaries.

A loop is analysed once per abstract entry state.  Locations the body changes are
given a shape (affine progression, growing sequence, sweep over a sequence, opaque)
and the body is re-analysed until the shapes are inductive; candidate bounds are
kept only if they hold on entry and are preserved by every path through the body.
"""
from .terms import *
from .num import note_atom, UNSIGNED
from .state import Ev, seq_slice, seq_put
from .subst import subst, mklam, jdepth
from . import ops

UNROLL = 17


class Loop:
    def __init__(self, lid, key):
        self.id = lid
        self.key = key
        self.prog = {}          # step length d (Lin) -> progress atom

    def P(self, d):
        a = self.prog.get(d)
        if a is None:
            a = self.prog[d] = T("pr", "%d" % self.id, d)
        return a


def mine(lid):
    s = "%d" % lid

    def f(t):
        return t.op in ("pr", "mu", "app") and len(t.args) >= 2 and t.args[0] == s
    return f


def dep(v, pred):
    for x in walk(v):
        if isinstance(x, T) and pred(x):
            return True
    return False


def diff(I, st, a, b, path=()):
    """leaf paths where values a (header) and b (back edge) differ"""
    if a is b:
        return []
    if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.var == b.var and len(a.f) == len(b.f):
        r = []
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            r += diff(I, st, x, y, path + (i,))
        return r
    if isinstance(a, Ref) and isinstance(b, Ref) and a.obj == b.obj:
        pa, pb = a.path, b.path
        ra = pa and isinstance(pa[-1], tuple) and pa[-1][0] == "rng"
        rb = pb and isinstance(pb[-1], tuple) and pb[-1][0] == "rng"
        if ra and rb and pa[:-1] == pb[:-1]:
            r = []
            if pa[-1][1] is not pb[-1][1]:
                r.append((path + ("@o",), pa[-1][1], pb[-1][1]))
            if pa[-1][2] is not pb[-1][2]:
                r.append((path + ("@n",), pa[-1][2], pb[-1][2]))
            return r
        if rb and pb[:-1] == pa:
            return [(path + ("@norm",), a, b)]
    return [(path, a, b)]


def get_leaf(v, path):
    for e in path:
        if e == "@o":
            return v.path[-1][1]
        if e == "@n":
            return v.path[-1][2]
        v = v.f[e]
    return v


def set_leaf(v, path, new):
    if not path:
        return new
    e = path[0]
    if e in ("@o", "@n"):
        q = v.path[-1]
        q = ("rng", new, q[2]) if e == "@o" else ("rng", q[1], new)
        return Ref(v.obj, v.path[:-1] + (q,))
    f = list(v.f)
    f[e] = set_leaf(f[e], path[1:], new)
    return Agg(v.kind, v.var, tuple(f))


def leaf_ty(I, obj, path, root):
    ti = I.objty(obj)
    v = root
    for e in path:
        if ti is None:
            return None
        ti = I.strip(ti)
        if isinstance(e, int):
            if not (isinstance(v, Agg) and isinstance(v.kind, tuple) and v.kind[0] in ("adt", "closure")) and not (isinstance(v, Agg) and v.kind == "tuple"):
                return None
            ti = I.fty(ti, v.var, e)
            v = v.f[e]
        else:
            return None
    return ti


def run_loop(I, key, st, step, fr):
    r = unroll(I, st, step)
    if r is not None:
        return r
    I.nser += 1
    lp = Loop(I.nser, key)
    me = mine(lp.id)
    modes = {}
    cands = []
    tried = set()
    base_ev = st.ev
    stable = False
    for it in range(26):
        I.tick()
        if it == 22:
            modes = {(o, p): ("opq",) for (o, p) in modes}
            cands = []
        pan = {k: list(v) for k, v in I.panics.items()}
        h = st.copy()
        h.ev = None
        hdr = {}
        for (obj, path), m in modes.items():
            v0 = st.store[obj]
            init = get_leaf(v0, path)
            v = mode_value(I, h, lp, obj, path, init, m)
            hdr[(obj, path)] = v
            h.store[obj] = set_leaf(h.store[obj], path, v)
        for d, a in lp.prog.items():
            if st.facts.entails_ge(d):
                h.facts.add_ge(Lin.atom(a))
                if d is ONE:
                    note_atom(a)
            if d.const is None:
                ops.add_mult(h, d, Lin.atom(a))
        for (obj, path), v in hdr.items():
            if isinstance(v, Lin) and (path and path[-1] in ("@o", "@n") or unsigned(I, obj, path, st.store[obj])):
                h.facts.add_ge(v)
        for c in cands:
            if c[0] == "ge":
                h.facts.add_ge(c[1])
            else:
                h.facts.add_eq(c[1])
        hcopy = h.copy()
        backs, exits = step(h)
        # objects materialised inside the body
        again = False
        for b in backs:
            for obj in b.store:
                if obj not in hcopy.store and obj[0] in ("D", "S") and not dep(obj[1], me) and obj not in st.store:
                    I.root(st, obj)
                    again = True
        if again:
            I.panics = pan
            continue
        changed = False
        for b in backs:
            for obj, v0 in hcopy.store.items():
                v1 = b.store.get(obj)
                if v1 is None or v1 is v0:
                    continue
                for path, x, y in diff(I, b, v0, v1):
                    if path and path[-1] == "@norm":
                        lf = get_leaf(st.store[obj], path[:-1])
                        n = I.slen(st, lf)
                        st.store[obj] = set_leaf(st.store[obj], path[:-1], Ref(lf.obj, lf.path + (("rng", ZERO, n),)))
                        changed = True
                        continue
                    if (obj, path) in modes and (obj, path) not in hdr:
                        # shape guessed from another path in this pass
                        m2 = guess(I, lp, b, st, x, y, me)
                        if m2 != modes[(obj, path)]:
                            modes[(obj, path)] = ("opq", "inp") if m2 == ("opq", "inp") and modes[(obj, path)][0] in ("app", "opq") and len(modes[(obj, path)]) > 1 and modes[(obj, path)][1] == "inp" else ("opq",)
                    elif (obj, path) in modes:
                        m = modes[(obj, path)]
                        m2 = verify(I, lp, b, m, st, hdr[(obj, path)], get_leaf(st.store[obj], path), x, y, me)
                        if m2 != m:
                            modes[(obj, path)] = m2
                            changed = True
                    else:
                        # a leaf below / above an existing mode path
                        m = guess(I, lp, b, st, x, y, me)
                        drop_conflicts(modes, obj, path)
                        modes[(obj, path)] = m
                        changed = True
        # progressions must advance on every path
        if not changed:
            for b in backs:
                for (obj, path), m in modes.items():
                    v1 = b.store.get(obj)
                    if v1 is None:
                        continue
                    try:
                        y = get_leaf(v1, path)
                    except (AttributeError, IndexError, TypeError):
                        modes[(obj, path[:-1])] = ("opq",)
                        del modes[(obj, path)]
                        changed = True
                        break
                    x = hdr[(obj, path)]
                    m2 = verify(I, lp, b, m, st, x, get_leaf(st.store[obj], path), x, y, me)
                    if m2 != m:
                        modes[(obj, path)] = m2
                        changed = True
                        break
                if changed:
                    break
        if changed:
            # keep candidates only once the shapes are stable
            cands = []
            tried = set()
            I.panics = pan
            continue
        # inductiveness of the candidates
        bad = [c for c in cands if not all(holds(b, advance(I, lp, modes, hdr, b, c[1]), c[0]) for b in backs)]
        if bad:
            cands = [c for c in cands if c not in bad]
            I.panics = pan
            continue
        new = []
        for c in candidates(I, lp, modes, hdr, st, hcopy, backs, me):
            if c in tried:
                continue
            tried.add(c)
            if holds(st, initial(I, lp, modes, hdr, st, c[1]), c[0]):
                new.append(c)
        if new and it < 20 and not (it >= 22):
            cands = cands + new
            I.panics = pan
            continue
        stable = True
        break
    if not stable:
        from .interp import Budget
        raise Budget("loop at %s:%s does not stabilise" % (key[2][0] if len(key) > 2 and key[2] else key[0], key[2][1] if len(key) > 2 and key[2] else 0))
    return finish(I, lp, key, st, base_ev, modes, hdr, hcopy, backs, exits, me)


def drop_conflicts(modes, obj, path):
    for (o, p) in list(modes):
        if o == obj and p != path and (p[:len(path)] == path or path[:len(p)] == p):
            del modes[(o, p)]


def unsigned(I, obj, path, root):
    ti = leaf_ty(I, obj, path, root)
    if ti is None:
        return isinstance(root, Agg) and isinstance(root.kind, str) or True
    return I.tys[ti]["k"] == "uint"


def unroll(I, st, step):
    """loops whose trip count is fixed by constants"""
    s0 = st.copy()
    cur = [st.copy()]
    exits = []
    pan = {k: list(v) for k, v in I.panics.items()}
    st0 = I.steps
    for n in range(I.unroll or UNROLL):
        nxt = []
        for s in cur:
            b, e = step(s)
            real = [x for x in e if x[0] != "ret"]
            if b and real and not I.unroll:
                I.panics = pan
                return None
            nxt += b
            exits += e
        cur = nxt
        if not cur:
            return exits
        if len(cur) > (16 if I.unroll else 4):
            break
    I.panics = pan
    return None


def mode_value(I, h, lp, obj, path, init, m):
    k = m[0]
    if k == "lin":
        return init + Lin.atom(lp.P(m[2])).scale(m[1])
    if k == "app":
        A = T("app", "%d" % lp.id, oname(obj), path)
        return init + Seq((("src", A, ZERO, Lin.atom(lp.P(m[2])).scale(m[1])),))
    if k == "sweep":
        A = T("app", "%d" % lp.id, oname(obj), path)
        o = m[3]
        n = Lin.atom(lp.P(m[2])).scale(m[1])
        h.facts.add_ge(init.len - o - n)
        return seq_slice(h, init, ZERO, o) + Seq((("src", A, ZERO, n),)) + seq_slice(h, init, o + n, init.len - o - n)
    t = T("mu", "%d" % lp.id, oname(obj), path)
    ti = leaf_ty(I, obj, path, h.store[obj])
    if isinstance(init, Lin):
        if ti is not None and I.tys[ti]["k"] == "int":
            return Lin.atom(t)
        note_atom(t, I.bits(ti) if ti is not None else None)
        return Lin.atom(t)
    if isinstance(init, Seq):
        if ti is not None and I.tys[I.strip(ti)]["k"] == "array" or (len(m) > 1 and m[1] == "inp"):
            return Seq((("src", t, ZERO, init.len),))
        return Seq((("src", t, ZERO, I.lenatom(t)),))
    if isinstance(init, T):
        return t
    if isinstance(init, Ref):
        rt = I.refty(init)
        I.dty.setdefault(t, rt)
        return Ref(("D", t))
    if isinstance(init, Sym):
        return I.value_of(h, t, init.ty) if init.ty is not None else Sym(t, None)
    if isinstance(init, Agg):
        if isinstance(init.kind, tuple) and init.kind[0] == "adt":
            if ti is not None:
                return I.value_of(h, t, ti)
            for i, ty in enumerate(I.tys):
                if ty["k"] == "adt" and ty["d"] == init.kind[1]:
                    return Sym(t, i)
        return Sym(t, ti)
    return Sym(t, ti)


def oname(obj):
    return "%s.%s" % (obj[0], obj[-1] if obj[0] == "L" else (obj[1].id if obj[0] == "D" else obj[1]))


def guess(I, lp, b, st, x, y, me):
    if isinstance(x, Lin) and isinstance(y, Lin):
        d = y - x
        if not dep(d, me) and not newer(d, st):
            return lin_mode(st, d)
        return ("opq",)
    if isinstance(x, Seq) and isinstance(y, Seq):
        n = len(x.p)
        if y.p[:n] == x.p or n == 1 and x.p[0][0] == "lit" and y.p and y.p[0][0] == "lit" and y.p[0][1][:len(x.p[0][1])] == x.p[0][1]:
            ext = y.len - x.len
            if not dep(ext, me) and not newer(ext, st):
                k = lin_mode(st, ext)
                return ("app", k[1], k[2])
        if b.facts.entails_eq(y.len - x.len):
            return ("opq", "inp")
    return ("opq",)


def newer(d, st):
    """mentions results computed inside the body only (conservatively: fresh terms)"""
    for x in walk(d):
        if isinstance(x, T) and x.op in ("fresh", "callv"):
            return True
    return False


def lin_mode(st, d):
    if d.const is not None:
        return ("lin", d.c, ONE)
    if not st.facts.entails_ge(d) and st.facts.entails_ge(-d):
        return ("lin", -1, -d)
    return ("lin", 1, d)


def verify(I, lp, b, m, st, hv, init, x, y, me):
    k = m[0]
    if k == "lin":
        if isinstance(y, Lin) and b.facts.entails_eq(y - x - m[2].scale(m[1])):
            return m
        return ("opq",)
    if k == "app":
        if isinstance(y, Seq) and y.p[:len(x.p)] == x.p and b.facts.entails_eq(y.len - x.len - m[2].scale(m[1])):
            return m
        if isinstance(y, Seq) and y is not x and b.facts.entails_eq(y.len - x.len):
            return ("opq", "inp")
        return ("opq",)
    if k == "sweep":
        if isinstance(y, Seq):
            n = Lin.atom(lp.P(m[2])).scale(m[1])
            w = m[2].scale(m[1])
            o = m[3]
            f = b.facts
            if y is x:
                return ("opq", "no")
            if f.entails_eq(y.len - x.len) and seq_slice(b, y, ZERO, o + n) is seq_slice(b, x, ZERO, o + n):
                tail = x.len - o - n - w
                if f.entails_ge(tail) and seq_slice(b, y, o + n + w, tail) is seq_slice(b, x, o + n + w, tail):
                    return m
        return ("opq", "no")
    # opaque: can it be a sweep?
    if m == ("opq", "inp") and isinstance(y, Seq) and isinstance(x, Seq) and len(x.p) == 1 and x.p[0][0] == "src":
        mu = x.p[0][1]
        if b.facts.entails_eq(y.len - x.len):
            ps = y.p
            i = 0
            pre = ZERO
            if ps and ps[0][0] == "src" and ps[0][1] is mu and ps[0][2] is ZERO:
                pre = ps[0][3]
                i = 1
            j = len(ps)
            suf = ZERO
            if j > i and ps[-1][0] == "src" and ps[-1][1] is mu:
                suf = ps[-1][3]
                j -= 1
            w = x.len - pre - suf
            # pre = o + k*P_d, w = k*d
            for d, a in list(lp.prog.items()):
                for kk in (1, 2, 4, 8, 16):
                    if b.facts.entails_eq(w - d.scale(kk)):
                        o = pre - Lin.atom(a).scale(kk)
                        if not dep(o, me) and not newer(o, st):
                            return ("sweep", kk, d, o)
            return m
        return ("opq",)
    if m[0] == "opq" and len(m) > 1 and isinstance(y, Seq) and isinstance(x, Seq) and not b.facts.entails_eq(y.len - x.len):
        return ("opq",)
    return m


def _map_init(lp, modes, hdr, st):
    m = {}
    for d, a in lp.prog.items():
        m[a] = ZERO
    for (obj, path), mo in modes.items():
        if mo[0] == "opq":
            hv = hdr[(obj, path)]
            init = get_leaf(st.store[obj], path)
            if isinstance(hv, Lin) and isinstance(init, Lin) and len(hv.t) == 1:
                m[hv.t[0][0]] = init
            elif isinstance(hv, Seq) and isinstance(init, Seq) and len(hv.p) == 1 and len(hv.len.t) == 1:
                m[hv.len.t[0][0]] = init.len
    return m


def initial(I, lp, modes, hdr, st, e):
    return subst(e, _map_init(lp, modes, hdr, st))


def advance(I, lp, modes, hdr, b, e):
    m = {}
    for d, a in lp.prog.items():
        m[a] = Lin.atom(a) + d
    for (obj, path), mo in modes.items():
        if mo[0] == "opq":
            hv = hdr[(obj, path)]
            v1 = b.store.get(obj)
            if v1 is None:
                continue
            try:
                y = get_leaf(v1, path)
            except (AttributeError, IndexError, TypeError):
                continue
            if isinstance(hv, Lin) and isinstance(y, Lin) and len(hv.t) == 1:
                m[hv.t[0][0]] = y
            elif isinstance(hv, Seq) and isinstance(y, Seq) and len(hv.p) == 1 and len(hv.len.t) == 1:
                m[hv.len.t[0][0]] = y.len
    return subst(e, m)


def holds(st, e, kind):
    return st.facts.entails_ge(e) if kind == "ge" else st.facts.entails_eq(e)


def candidates(I, lp, modes, hdr, st, h, backs, me):
    out = []
    for (obj, path), m in modes.items():
        if m[0] != "opq":
            continue
        hv = hdr[(obj, path)]
        init = get_leaf(st.store[obj], path)
        if isinstance(hv, Lin) and isinstance(init, Lin):
            out += [("ge", hv - init), ("ge", init - hv)]
        elif isinstance(hv, Seq) and isinstance(init, Seq) and len(hv.len.t) == 1 and hv.len is not init.len:
            out += [("eq", hv.len - init.len), ("ge", hv.len - init.len), ("ge", init.len - hv.len)]
            # lengths the body establishes
            ls = set()
            for b in backs:
                v1 = b.store.get(obj)
                try:
                    y = get_leaf(v1, path) if v1 is not None else None
                except (AttributeError, IndexError, TypeError):
                    y = None
                if isinstance(y, Seq):
                    ls.add(y.len)
            if len(ls) == 1:
                l = ls.pop()
                if not dep(l, me):
                    out.append(("eq", hv.len - l))
    # quantities that move in step, or against each other
    ms = []
    for (obj, path), m in modes.items():
        if m[0] == "opq":
            hv, init = hdr[(obj, path)], get_leaf(st.store[obj], path)
            ys = [leaf_or_none(b.store.get(obj), path) for b in backs]
            if isinstance(hv, Lin) and isinstance(init, Lin) and all(isinstance(y, Lin) for y in ys):
                ms.append((hv, init, ys))
            elif isinstance(hv, Seq) and isinstance(init, Seq) and len(hv.len.t) == 1 and all(isinstance(y, Seq) for y in ys):
                ms.append((hv.len, init.len, [y.len for y in ys]))
    if len(ms) <= 8:
        for i, (h1, i1, y1) in enumerate(ms):
            for h2, i2, y2 in ms[:i]:
                for k in (1, -1):
                    if all(b.facts.entails_eq((p - h1) + (q - h2).scale(k)) for b, p, q in zip(backs, y1, y2)):
                        out.append(("eq", (h1 - i1) + (h2 - i2).scale(k)))
    pd = {a: d for d, a in lp.prog.items()}
    for b in backs:
        for e in b.facts.ge:
            if e in h.facts.ge:
                continue
            hit = [(a, k) for a, k in e.t if a in pd]
            if hit and any(k < 0 for a, k in hit):
                c = e
                for a, k in hit:
                    c = c - pd[a].scale(k)
                out.append(("ge", c))
        for e in b.facts.ne:
            if e in h.facts.ne:
                continue
            if any(a in pd and k < 0 for a, k in e.t):
                out.append(("ge", e))
        for e in b.facts.eq:
            pass
        for hv in hdr.values():
            if isinstance(hv, Lin) and len(hv.t) == 1 and hv.t[0][0].op == "mu":
                for e in b.facts.ge:
                    if e not in h.facts.ge and any(a is hv.t[0][0] for a, _ in e.t) and not dep(e, lambda t: me(t) and t is not hv.t[0][0]):
                        out.append(("ge", e))
    return list(dict.fromkeys(out))


def finish(I, lp, key, st, base_ev, modes, hdr, h, backs, exits, me):
    # contents of grown / swept sequences
    vs = {}
    P1 = lp.prog.get(ONE)
    for (obj, path), m in modes.items():
        if m[0] not in ("app", "sweep"):
            continue
        A = T("app", "%d" % lp.id, oname(obj), path)
        n = Lin.atom(lp.P(m[2])).scale(m[1])
        w = m[2].scale(m[1])
        each = []
        for b in backs:
            y = get_leaf(b.store[obj], path)
            x = hdr[(obj, path)]
            if m[0] == "app":
                each.append(Seq(y.p[len(x.p):]))
            else:
                each.append(seq_slice(b, y, m[3] + n, w))
        xs = set(each)
        I.mudef[A] = {"loop": lp.id, "key": key, "step": w, "extras": list(xs), "each": each, "mode": m, "init": get_leaf(st.store[obj], path), "states": (h, backs)}
        if len(xs) == 1:
            r = summarise(lp, xs.pop(), n, w, m, me)
            if r is not None:
                vs[A] = r
    for (obj, path), m in modes.items():
        if m[0] == "opq":
            hv = hdr[(obj, path)]
            t = term_of(hv)
            if t is not None:
                I.mudef[t] = {"loop": lp.id, "key": key, "init": get_leaf(st.store[obj], path),
                              "backs": [leaf_or_none(b.store.get(obj), path) for b in backs], "mode": m, "states": (h, backs)}
        elif m[0] == "lin":
            I.mudef[lp.P(m[2])] = {"loop": lp.id, "key": key, "d": m[2]}
    # resolve chains among summaries
    ev = Ev("loop", key[0], (), {"id": lp.id, "backs": [b.events() for b in backs], "prog": dict(lp.prog)}, key[2] if len(key) > 2 else None, fr_stack(key))
    univ = []
    if P1 is not None and backs:
        common = None
        for b in backs:
            cs = {(k, v) for k, v in b.b.items() if h.b.get(k) != v and dep(k, lambda t: t is P1)}
            for e in b.facts.eq:
                if e not in h.facts.eq and dep(e, lambda t: t is P1):
                    cs.add((ops.eq0(e), True))
            common = cs if common is None else common & cs
        for k, v in common or ():
            univ.append((mklam(k, P1), v, Lin.atom(P1)))
    haseff = any(b.ev is not None for b in backs) or any(s.ev is not None for _, s in exits)
    out = []
    for tag, s in exits:
        inner = s.events()
        s.ev = base_ev
        if haseff:
            s.event(ev)
            for e in inner:
                s.event(e)
        if univ:
            s.univ = s.univ + tuple(univ)
        if vs:
            apply(I, s, vs)
        for d, a in lp.prog.items():
            if d.const is None:
                z = Lin.atom(a)
                ops.near(s.facts, d, z, tuple(x for x in ops.mults(s, d) if x != z))
        ps = set(lp.prog.values())
        for e in s.facts.ge:
            if any(a in ps for a, _ in e.t) and s.facts.entails_ge(-e):
                s.facts.add_eq(e)
        simplify(s)
        out.append((tag, s))
    return out


def fr_stack(key):
    return ()


def leaf_or_none(v, path):
    try:
        return get_leaf(v, path)
    except (AttributeError, IndexError, TypeError):
        return None


def term_of(v):
    if isinstance(v, T):
        return v
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, Lin) and len(v.t) == 1:
        return v.t[0][0]
    if isinstance(v, Seq) and len(v.p) == 1 and v.p[0][0] == "src":
        return v.p[0][1]
    if isinstance(v, Ref) and v.obj[0] == "D":
        return v.obj[1]
    if isinstance(v, Agg):
        for x in v.f:
            t = term_of(x)
            while t is not None and t.op == "fld":
                t = t.args[0]
            if t is not None and t.op == "mu":
                return t
    return None


def summarise(lp, X, n, w, m, me):
    """contents of the region built by the loop, one step X at progress n"""
    P = lp.prog[m[2]]

    def free(v):
        return not dep(v, lambda t: me(t) and t is not P)
    if not free(X):
        return None
    if len(X.p) == 1:
        q = X.p[0]
        if q[0] == "src":
            o = q[2] - n
            if not dep(o, me) and not dep(q[1], me):
                return ("copy", q[1], o)
        if q[0] == "fill" and not dep(q[1], me):
            return ("fill", q[1])
    if w is ONE and len(X.p) == 1 and X.p[0][0] == "lit":
        v = X.p[0][1][0]
        if not dep(v, me):
            return ("fill", v)
        if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0].op == "elem":
            src, ix = v.t[0][0].args
            o = ix - Lin.atom(P)
            if not dep(o, me) and not dep(src, me):
                return ("copy", src, o)
        return ("map", mklam(v, P))
    if m[1] > 1 and m[2] is ONE and all(q[0] == "lit" for q in X.p):
        lits = [x for q in X.p for x in q[1]]
        if all(x is lits[0] for x in lits) and not dep(lits[0], me):
            return ("fill", lits[0])
    # blockwise map
    if isinstance(w, Lin):
        return ("copy", T("blocks", mklam(X, P), w), ZERO)
    return None


def apply(I, s, vs):
    memo = {}
    for k in list(s.store):
        s.store[k] = subst(s.store[k], {}, vs, memo)
    f = s.facts
    ge = tuple(subst(e, {}, vs, memo) for e in f.ge)
    eq = tuple(subst(e, {}, vs, memo) for e in f.eq)
    if ge != f.ge or eq != f.eq:
        f.ge, f.eq = ge, eq
        f._bump()
    s.b = {subst(k, {}, vs, memo): v for k, v in s.b.items()}


def simplify(s):
    """use equalities to rewrite lengths that are now known"""
    m = {}
    for e in s.facts.eq:
        # P = something without P : prefer eliminating progress atoms
        for a, k in e.t:
            if a.op == "pr" and abs(k) == 1 and a not in m:
                r = Lin.make(e.c, {x: y for x, y in e.t if x is not a})
                r = r.scale(-k)
                if any(x in m or x is a for x, _ in r.t):
                    continue
                m[a] = r
                break
    if not m:
        return
    # close the mapping
    for a in list(m):
        m[a] = subst(m[a], {x: y for x, y in m.items() if x is not a})
    memo = {}
    for k in list(s.store):
        s.store[k] = subst(s.store[k], m, None, memo)
    s.univ = tuple((c, v, subst(n, m, None, memo)) for c, v, n in s.univ)
