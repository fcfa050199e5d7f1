"""C06: what a hash or MAC has taken in does not depend on how the message was cut into writes."""
from .common import *
from .c02 import P, facade, ctors_of, success, leaf_type
from .c03 import writers
from .invariants import invariants, assume
from .absorb import *


def absorbers(prog):
    for fn in local_fns(prog):
        if fn.get("tname") == "Digest" and fn["name"] == "write" and len(fn["in"]) == 2:
            a = self_adt(prog, fn)
            if a is not None and a["kind"] == "struct" and not facade(prog, a):
                yield a, fn


def check(progs, rep):
    rep.rule("conserved", "for an arbitrary state and arbitrary data, on every path of write: the bytes newly mixed into the chaining value followed by the pending bytes are the pending bytes at entry followed by the data")
    rep.rule("whole-blocks", "bytes are mixed in only in whole blocks")
    rep.rule("counted", "every counter that grows with the data grows by the same multiple of its length on every path")
    rep.rule("no-restart", "a write in the middle of a message starts from the state the previous write left, and the position inside the data passed is used only to select data or together with a stored counter")
    rep.rule("completes", "no write to a block buffer can index outside it")
    n = 0
    prog = progs["A"]
    for a, fn in absorbers(prog):
        n += 1
        one(rep, prog, a, fn)
    rep.check(n >= 15, "writers", "digest types analysed: %d" % n)


def start(rep, prog, a):
    """the flags as a constructor leaves them"""
    flags = None
    for c in ctors_of(prog, a):
        run = attempt(rep, prog, c, P(prog))
        if run is None:
            continue
        for s, v in run.outs:
            o = success(run.I, s, v)
            if isinstance(o, Agg):
                f = {p: x for p, x in leaves(o) if x is TRUE or x is FALSE}
                flags = f if flags is None else {p: x for p, x in f.items() if flags.get(p) is x}
    return flags or {}


class Silent:
    def __getattr__(self, n):
        return lambda *a, **k: None

    def __init__(self):
        self.obl = 0
        self.notes = {}


def one(rep, prog, a, fn):
    short = a["n"]
    inv = invariants(rep, prog, a)
    flags = start(rep, prog, a)
    blk = equal_lens(rep, prog, a)

    def prep(r):
        assume(r, a, inv)
        I, st = r.I, r.st
        o = I.load(st, r.args[0], I.refty(r.args[0]))
        lv = dict(leaves(o))
        for p, x in flags.items():
            if p in lv:
                st.assume(I_bool(lv[p]), x is TRUE)
        for p, q in blk:
            if isinstance(lv.get(p), Seq):
                e = lv[p].len - Lin.atom(T("bs", lv[q].t))
                st.facts.add_eq(e)
    run = attempt(rep, prog, fn, P(prog), prep=prep)
    if run is None:
        return
    I = run.I
    obj0 = run.I.load(run.entry, run.args[0], I.refty(run.args[0]))
    lv0 = {p: I.freeze(run.entry, v) for p, v in leaves(obj0)}
    data = I.seq(run.entry, run.args[1])
    paths = []
    for s, v in run.outs:
        paths.append((s, {p: I.freeze(s, x) for p, x in leaves(run.self_after(s))}))
    counters(rep, prog, a, fn, lv0, paths, data.len)
    chains, bufs, ints = set(), set(), [p for p, v in lv0.items() if isinstance(v, Lin)]
    dt = data.p[0][1]
    for s, lv in paths:
        for p, v in lv.items():
            t = Absorb(I, s, p, None).root(v) if not isinstance(v, (T,)) else None
            if t is not None and (outpath(t) is not None or t.op in ("E", "mu")):
                chains.add(p)
            if isinstance(v, Seq) and isinstance(lv0.get(p), Seq) and any(x is dt for x in walk(v)) and p not in chains:
                bufs.add(p)
    best = None
    for c in sorted(chains) or [None]:
        for b in sorted(bufs):
            for x in ints + [None]:
                if x is None and lv0[b].len.const is not None:
                    continue
                if x is not None and lv0[b].len.const is None:
                    continue
                r = conserved(I, paths, lv0, data, c, b, x)
                score = (len(r["differ"]), len(r["shape"]))
                if best is None or score < best[0]:
                    best = (score, c, b, x, r)
    if best is None or any(isinstance(v, Lin) and in_loop(I, lv.get(p)) for s, lv in paths for p, v in lv0.items()) and not bufs:
        return restart(rep, prog, a, fn, run, flags)
    _, c, b, x, r = best
    if c is not None and x is not None:
        cnt = [(p, k) for p, v in lv0.items() if p != x and isinstance(v, Lin) for k in (1, 8) if all(isinstance(lv.get(p), Lin) and s.facts.entails_eq(lv[p] - v - data.len.scale(k)) for s, lv in paths)]
        if len(cnt) == 1:
            prog.__dict__.setdefault("_layout", {})[a["d"]] = (c, b, x, cnt[0][0], cnt[0][1], lv0[b].len.const)
    nm = leafname(prog, a, b)
    for t in r["shape"]:
        rep.notes.setdefault("undecided", []).append("%s: %s" % (fn["n"], t))
        rep.obl += 1
    for i in range(r["ok"]):
        rep.hold("%s: data conserved on path %d" % (short, i))
    if x is not None:
        completes(rep, prog, a, fn, prep, b, x)
    if r["differ"]:
        rep.violation("conserved:%s" % short, "a write to %s does not add exactly the data passed to what was taken in before: %s (pending bytes in %s)" % (short, r["differ"][0], nm), where(fn))


def completes(rep, prog, a, fn, prep, b, x):
    def both(r):
        prep(r)
        lv = dict(leaves(r.I.load(r.st, r.args[0], r.I.refty(r.args[0]))))
        r.st.facts.add_ge(lv[b].len - lv[x])
    run = attempt(rep, prog, fn, P(prog), prep=both)
    if run is None:
        return
    bad = sorted({(k[0], k[1], show(v[0][0])) for k, v in run.I.panics.items() if "overflow" not in k[2] and "unwrap" not in k[2]})
    rep.check(not bad, "completes:%s" % a["n"], "%s: write completes for every length" % a["n"], where(fn),
              "a write to %s stops the program when %s" % (a["n"], bad[0][2][:160] if bad else ""))


def I_bool(v):
    return v.t if isinstance(v, Sym) else unlin(v)


def in_loop(I, v):
    t = unlin(v) if v is not None else None
    return isinstance(t, T) and t.op == "mu"


def conserved(I, paths, lv0, data, c, b, x):
    r = {"ok": 0, "differ": [], "shape": []}
    for s, lv in paths:
        try:
            ab = Absorb(I, s, c, b)
            got = Seq(())
            if c is not None:
                z = lv0[c]
                zt = ab.root(z)
                for q in ab.parts(lv[c], lambda v: v is z or v is zt):
                    got = got + q
                unit = lv0[b].len if lv0[b].len.const is not None else None
                for u in ab.units:
                    whole(I, s, u, unit, lv)
            after = lv[b]
            if not isinstance(after, Seq):
                raise Shape("pending bytes %s" % show(after)[:80])
            before = lv0[b]
            if x is not None:
                if not isinstance(lv.get(x), Lin):
                    raise Shape("position %s" % show(lv.get(x))[:60])
                before = seq_slice(s, before, ZERO, lv0[x])
                after = seq_slice(s, after, ZERO, lv[x])
            got, want = got + after, before + data
            got = unbits(s, got, data)
            match(I, s, got, want)
            r["ok"] += 1
        except Differ as e:
            r["differ"].append(str(e))
        except Shape as e:
            r["shape"].append(str(e))
    return r


def whole(I, s, n, unit, lv):
    """n is a whole number of blocks"""
    if unit is not None:
        u = unit.const
        m = Lin.make(n.c % u, {a: k % u for a, k in n.t})
        if m is ZERO or n.const is not None and n.const % u == 0:
            return
        if not n.t or n.const is not None:
            raise Differ("%s bytes mixed in, which is not a whole number of blocks of %d" % (show(n), u))
        if s.facts.entails_eq(m) or s.facts.entails_eq(n - u):
            return
        raise Differ("%s bytes mixed in, which need not be a whole number of blocks of %d" % (show(n)[:120], u))


def unbits(s, q, data):
    """a piece holding w derived values for each byte of the data stands for the data"""
    out = []
    dt = data.p[0][1]
    for p in q.p:
        if p[0] == "src" and p[1].op == "blocks" and len(p[1].args) == 2 and isinstance(p[1].args[1], Lin) and p[1].args[1].const:
            w = p[1].args[1].const
            j = T("at")
            body = inst(p[1].args[0], Lin.atom(j))
            if isinstance(body, Seq):
                els = [e for z in body.p if z[0] == "lit" for e in z[1]]
                at = T("elem", dt, Lin.atom(j))
                if len(els) == w and all(elem_only(e, dt, at) for e in els):
                    k = w
                    if all(c % k == 0 for _, c in p[3].t) and p[3].c % k == 0 and all(c % k == 0 for _, c in p[2].t) and p[2].c % k == 0:
                        sh = lambda l: Lin(l.c // k, tuple((a, c // k) for a, c in l.t))
                        out.append(("src", dt, sh(p[2]), sh(p[3])))
                        continue
        out.append(p)
    return Seq(out)


def elem_only(e, dt, at):
    es = {x for x in walk(e) if isinstance(x, T) and x.op == "elem"}
    return es == {at}


def counters(rep, prog, a, fn, lv0, paths, n):
    short = a["n"]
    atom = [x for x, _ in n.t]
    for p, v in lv0.items():
        if not isinstance(v, Lin) or not atom:
            continue
        ks = []
        for s, lv in paths:
            w = lv.get(p)
            if not isinstance(w, Lin):
                break
            d = w - v
            k = next((k for k in (0, 1, 8) if s.facts.entails_eq(d - n.scale(k))), None)
            ks.append((k, d, s))
        else:
            pos = [k for k, d, s in ks if k and not s.facts.entails_eq(n)]
            if not pos:
                continue
            bad = [(k, d) for k, d, s in ks if k != pos[0] and not s.facts.entails_eq(n)]
            if any(isinstance(x, T) and x.op == "call" for k, d in bad for x in walk(d)):
                rep.notes.setdefault("undecided", []).append("%s: %s" % (fn["n"], leafname(prog, a, p)))
                rep.obl += 1
                continue
            if len(bad) * 2 >= len(ks) and any(k is None for k, d in bad):
                continue                                 # a position inside the buffer
            rep.check(not bad, "counted:%s:%s" % (short, ".".join(map(str, p))), "%s.%s counts every byte written" % (short, leafname(prog, a, p)), where(fn),
                      "%s.%s grows by %s on a path of write where it should grow by %d per byte" % (short, leafname(prog, a, p), show(bad[0][1])[:120] if bad else "", pos[0]))


def equal_lens(rep, prog, a):
    """(sequence leaf, cipher leaf): every constructor makes the sequence one block long, and every operation keeps it so"""
    cand = None
    for c in ctors_of(prog, a):
        run = attempt(rep, prog, c, P(prog))
        if run is None:
            return []
        for s, v in run.outs:
            o = success(run.I, s, v)
            if not isinstance(o, Agg):
                continue
            lv = dict(leaves(o))
            r = {(p, q) for p, x in lv.items() if isinstance(x, Seq) for q, y in lv.items() if isinstance(y, Sym) and s.facts.entails_eq(x.len - Lin.atom(T("bs", y.t)))}
            cand = r if cand is None else cand & r
    cand = cand or set()
    while cand:
        bad = set()
        for f in local_fns(prog):
            sa = self_adt(prog, f)
            if sa is None or sa["d"] != a["d"] or not has_self_ref(prog, f) or not (f.get("pub") or f.get("trait")) or f.get("tname") == "Clone":
                continue

            def prep(r):
                lv = dict(leaves(r.I.load(r.st, r.args[0], r.I.refty(r.args[0]))))
                for p, q in cand:
                    r.st.facts.add_eq(lv[p].len - Lin.atom(T("bs", lv[q].t)))
            run = attempt(rep, prog, f, P(prog), prep=prep)
            if run is None:
                return []
            for s, _ in run.outs:
                lv = dict(leaves(run.self_after(s)))
                for p, q in cand:
                    if not isinstance(lv.get(p), Seq) or not isinstance(lv.get(q), Sym) or not s.facts.entails_eq(lv[p].len - Lin.atom(T("bs", lv[q].t))):
                        bad.add((p, q))
        if not bad:
            break
        cand -= bad
    return sorted(cand)


def restart(rep, prog, a, fn, run, flags):
    """no pending bytes: the data is worked in element by element in a loop"""
    short = a["n"]
    I = run.I
    lv0 = {p: I.freeze(run.entry, v) for p, v in leaves(I.load(run.entry, run.args[0], I.refty(run.args[0])))}
    data = I.seq(run.entry, run.args[1])
    grow = [p for p, v in lv0.items() if isinstance(v, Lin) and all(grows(s, lv_of(run, s).get(p), v, data.len) for s, _ in run.outs)]

    def prep(r):
        lv = dict(leaves(r.I.load(r.st, r.args[0], r.I.refty(r.args[0]))))
        for p, x in flags.items():
            r.st.assume(I_bool(lv[p]), x is TRUE)
        for p in grow:
            r.st.facts.add_ge(lv[p] - 1)
    run = attempt(rep, prog, fn, P(prog), prep=prep)
    if run is None:
        return
    I = run.I
    dt = data.p[0][1]
    lv0 = {p: I.freeze(run.entry, v) for p, v in leaves(I.load(run.entry, run.args[0], I.refty(run.args[0])))}
    seen, looped = set(), False
    for s, _ in run.outs:
        for p, v in lv_of(run, s).items():
            t = Absorb(I, s, p, None).root(v)
            if not isinstance(t, T) or t.op != "mu" or t not in I.mudef:
                continue
            looped = True
            d = I.mudef[t]
            init = I.freeze(s, d["init"])
            rep.check(init is lv0[p] or alike(I, s, init, lv0[p]), "restart:%s:%s" % (short, ".".join(map(str, p))),
                      "%s.%s carries over into the next write" % (short, leafname(prog, a, p)), where(fn),
                      "a write in the middle of a message to %s replaces %s before any data is used" % (short, leafname(prog, a, p)))
            if d["loop"] in seen:
                continue
            seen.add(d["loop"])
            bad = None
            h, backs = d["states"]
            own = {x for x, y in I.mudef.items() if x.op == "pr" and y.get("loop") == d["loop"]}
            for b in backs:
                o = I.load(b, run.args[0], I.refty(run.args[0]))
                vals = [I.freeze(b, x) for _, x in leaves(o)]
                vals += [e for e in list(b.facts.ge) + list(b.facts.eq) if e not in h.facts.ge and e not in h.facts.eq and not defining(e) and not selects(e, dt)]
                vals += [k for k in b.b if k not in h.b and not selects(k, dt)]
                for v in vals:
                    bad = bad or position(v, own, dt)
            rep.check(bad is None, "position:%s" % short, "%s: position inside the data passed used only to select data or with a stored counter" % short, where(fn),
                      "%s uses the position inside the data of one write as if it were the position inside the message: %s" % (short, show(bad)[:160]))
    if not looped:
        rep.notes.setdefault("undecided", []).append("%s: no pending bytes and no loop over the data" % fn["n"])
        rep.obl += 1


def selects(e, dt):
    """a condition on the data itself"""
    return any(isinstance(x, T) and x.op == "elem" and x.args[0] is dt for x in walk(e))


def lv_of(run, s):
    return {p: run.I.freeze(s, x) for p, x in leaves(run.self_after(s))}


def grows(s, w, v, n):
    return isinstance(w, Lin) and any(s.facts.entails_eq(w - v - n.scale(k)) for k in (1, 8))


def defining(e):
    """0 <= x - c*div(x,c) < c"""
    for a, k in e.t:
        if a.op == "div" and len(a.args) == 2 and isinstance(a.args[0], Lin):
            c = a.args[1]
            c = c.const if isinstance(c, Lin) else c
            r = a.args[0] - Lin.atom(a, c) if isinstance(c, int) else None
            if r is not None and (e is r or e is Lin(c - 1) - r):
                return True
    return False


def position(v, own, dt):
    if isinstance(v, T):
        if v.op == "elem" and v.args[0] is dt:
            return None
        if v in own:
            return v
        for x in v.args:
            r = position(x, own, dt)
            if r is not None:
                return v if r in own else r
        return None
    if isinstance(v, Lin):
        if any(a in own for a, _ in v.t) and any(plain(a) or a.op == "len" for a, _ in v.t):
            return None
        for a, _ in v.t:
            r = position(a, own, dt)
            if r is not None:
                return v
        return None
    if isinstance(v, (Seq, Agg, Sym)):
        for x in v.kids():
            r = position(x, own, dt)
            if r is not None:
                return r
    return None


def layout(rep, prog, a, fn):
    """(chaining value, buffer, position in it, length counter, counted per byte, block size) of a block hash"""
    memo = prog.__dict__.setdefault("_layout", {})
    if a["d"] not in memo:
        memo[a["d"]] = None
        one(Silent(), prog, a, fn)
    return memo[a["d"]]
