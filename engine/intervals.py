"""Interval analysis of the integers in every function of a program.

Forward dataflow over the control-flow graph with branch refinement and widening.  An abstract value
maps each integer type a value holds to the range of all integers of that type in it, plus '#len' for
the length of the slice, array or iterator it stands for.  Parameters of functions that cannot be
called from outside take the join over their call sites; everything else starts at its type's range.
"""

LEN = "#len"
OBJ = "#obj"                          # depends on a size kept in an object, which the object's constructor bounds
BIG = 2 ** 63 - 1
MOVES = {"iter", "iter_mut", "into_iter", "next", "next_back", "rev", "step_by", "zip", "skip", "take", "enumerate", "clone", "cloned", "copied", "deref",
         "deref_mut", "as_ref", "as_mut", "as_slice", "as_mut_slice", "index", "index_mut", "unwrap", "expect", "unwrap_or", "ok", "get", "get_mut",
         "first", "last", "chunks", "chunks_exact", "windows", "split_at", "split_at_mut", "borrow", "borrow_mut", "to_vec", "into", "from", "try_into",
         "try_from", "as_ptr", "peekable", "get_unchecked", "chain", "by_ref", "cycle", "min", "max", "collect", "map", "fold", "for_each", "skip_while",
         "filter", "all", "any", "zip_eq", "to_owned", "branch", "from_residual", "copy_from_slice", "clone_from_slice", "extend_from_slice", "push", "extend",
         "unwrap_or_default", "rchunks", "into_boxed_slice", "concat", "nth", "position", "as_mut_ptr"}
STORES = {"copy_from_slice", "clone_from_slice", "extend_from_slice", "push", "extend", "resize", "append", "fill"}


def join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def jd(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    out = {}
    for k in set(a) | set(b):
        if k == LEN:
            if k in a and k in b:
                out[k] = join(a[k], b[k])
        elif k in a and k in b:
            out[k] = join(a[k], b[k])
        else:
            out[k] = a.get(k) or b.get(k)
    return out


class Analysis:
    def __init__(self, prog, scope=lambda f: True):
        self.p = prog
        self.tys = prog.tys
        self.ints = {}
        self.par = {}                  # fn d -> [abstract params] joined over call sites
        self.ret = {}
        self.fields = {}               # (type, variant, field) -> what any construction or assignment puts there
        self.opaque = set()            # fields of which a mutable reference is taken
        self.fns = {f["d"]: f for f in prog.fns.values() if scope(f)}
        self.sites = {}                # (fn d, block) -> (safe, lhs, rhs, op, type)
        self.changed = set()
        self.rounds = 0

    # ---- types
    def rng(self, n):
        if n == "bool":
            return (0, 1)
        s = n[0]
        b = {"size": 64}.get(n[1:]) or int(n[1:])
        return (0, 2 ** b - 1) if s == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)

    def inttys(self, ti, depth=0):
        if ti in self.ints:
            return self.ints[ti]
        self.ints[ti] = frozenset()
        t = self.tys[ti]
        k = t["k"]
        out = set()
        if k in ("int", "uint"):
            out = {t["s"]}
        elif k in ("ref", "ptr", "slice", "array"):
            out = set(self.inttys(t["e"]))
        elif k == "tuple":
            for x in t["e"]:
                out |= self.inttys(x)
        elif k == "adt":
            for x in t["a"]:
                if isinstance(x, int):
                    out |= self.inttys(x)
            a = self.p.adts.get(t["d"])
            if a is not None:
                for v in a["vars"]:
                    for f in v["f"]:
                        out |= self.inttys(f["t"])
            if "Enumerate" in t["s"]:
                out.add("usize")
        self.ints[ti] = frozenset(out)
        return self.ints[ti]

    def top(self, ti):
        d = {n: self.rng(n) for n in self.inttys(ti)}
        n = self.alen(ti)
        if n is not None:
            d[LEN] = (n, n)
        return d

    def alen(self, ti):
        t = self.tys[ti]
        while t["k"] in ("ref", "ptr"):
            t = self.tys[t["e"]]
        if t["k"] == "array" and isinstance(t.get("len"), int):
            return t["len"]
        return None

    def fit(self, d, ti):
        """a value restricted to what a type can hold"""
        out = {}
        for n in self.inttys(ti):
            r = self.rng(n)
            v = d.get(n, r)
            out[n] = (max(v[0], r[0]), min(v[1], r[1])) if v[0] <= r[1] and v[1] >= r[0] else r
        n = self.alen(ti)
        if n is not None:
            out[LEN] = (n, n)
        elif LEN in d:
            out[LEN] = d[LEN]
        if OBJ in d and out:
            out[OBJ] = d[OBJ]
        return out

    def constval(self, v, ti):
        if isinstance(v, dict):
            v = v.get("ref", v)
        t = self.tys[ti]
        while t["k"] in ("ref", "ptr"):
            t = self.tys[t["e"]]
            if isinstance(v, dict):
                v = v.get("ref")
        ns = self.inttys(ti)
        if len(ns) != 1:
            return self.top(ti)
        flat = []

        def go(x):
            if isinstance(x, bool):
                flat.append(int(x))
            elif isinstance(x, int):
                flat.append(x)
            elif isinstance(x, list):
                for y in x:
                    go(y)
            elif isinstance(x, dict) and "ref" in x:
                go(x["ref"])
            else:
                raise ValueError
        try:
            go(v)
        except ValueError:
            return self.top(ti)
        if not flat:
            return self.top(ti)
        n = next(iter(ns))
        lo, hi = min(flat), max(flat)
        r = self.rng(n)
        if n[0] == "i" and hi > r[1]:
            return self.top(ti)
        out = {n: (lo, hi)}
        if isinstance(v, list):
            out[LEN] = (len(v), len(v))
        return out

    # ---- fixpoint over the program
    def run(self, limit=12):
        out = [f for f in self.fns.values()]
        ext = set()
        called = set()
        for f in out:
            for b in f.get("blocks") or ():
                for d in self.mentioned(b):
                    called.add(d)
        for f in out:
            if f["kind"] == "closure":
                continue
            if f.get("reach") or f.get("trait") or f["d"] not in called:
                ext.add(f["d"])
        for f in out:
            for b in f.get("blocks") or ():
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] in ("ref", "rawptr") and s[2][1]:
                        k = Fn(self, f).fieldof(s[2][-1])
                        if k is not None:
                            self.opaque.add(k)
        for f in out:
            if f["d"] in ext and f.get("argc") is not None:
                self.par[f["d"]] = [self.top(f["locals"][i + 1][0]) for i in range(f["argc"])]
        for r in range(limit):
            self.rounds = r
            self.changed = set()
            for f in out:
                if f["d"] in self.par and f.get("blocks") and f["kind"] != "promoted":
                    Fn(self, f).solve()
            if not self.changed:
                break
        else:
            # not stable: everything that still moves is given up
            for f in out:
                if f["d"] in self.par:
                    self.par[f["d"]] = [self.top(f["locals"][i + 1][0]) for i in range(f["argc"])]
                    self.ret[f["d"]] = self.top(f["locals"][0][0])
            for f in out:
                if f["d"] in self.par and f.get("blocks") and f["kind"] != "promoted":
                    Fn(self, f).solve()
        return self

    def mentioned(self, b):
        t = b["t"]
        if t[0] == "call" and t[1].get("fn"):
            r = t[1]["fn"].get("r") or {}
            yield r.get("d") or t[1]["fn"].get("d")

    def flow(self, d, args):
        """a call site passes these arguments"""
        f = self.fns.get(d)
        if f is None or f.get("argc") is None:
            return
        n = f["argc"]
        args = [self.fit(a, f["locals"][i + 1][0]) for i, a in enumerate(args[:n])]
        while len(args) < n:
            args.append(self.top(f["locals"][len(args) + 1][0]))
        old = self.par.get(d)
        new = args if old is None else [jd(a, b) for a, b in zip(old, args)]
        if new != old:
            if self.rounds >= 6 and old is not None:
                new = [self.widen(f["locals"][i + 1][0], a, b) for i, (a, b) in enumerate(zip(old, new))]
            self.par[d] = new
            self.changed.add(d)

    def widen(self, ti, a, b):
        out = {}
        for k in b:
            if k == OBJ:
                out[k] = b[k]
            elif k == LEN:
                if a.get(k) == b[k]:
                    out[k] = b[k]
            else:
                r = self.rng(k)
                x = a.get(k, b[k])
                out[k] = (b[k][0] if b[k][0] >= x[0] else r[0], b[k][1] if b[k][1] <= x[1] else r[1])
        return out

    def put(self, key, v):
        old = self.fields.get(key)
        new = jd(old, v)
        if new != old:
            if self.rounds >= 4 and old is not None:
                new = self.widen(None, old, new)
            self.fields[key] = new
            self.changed.add(key)

    def returned(self, d, v):
        old = self.ret.get(d)
        new = jd(old, v)
        if new != old:
            self.ret[d] = new
            self.changed.add(d)


class Fn:
    def __init__(self, an, f):
        self.an, self.f = an, f
        self.L = [l[0] for l in f["locals"]]
        self.tys = an.tys
        self.pts = {}
        self.marks = None

    def solve(self):
        f = self.f
        self.points()
        self.addr = set().union(*self.pts.values()) if self.pts else set()
        st = {}
        for i in range(f["argc"]):
            st[i + 1] = self.an.par[f["d"]][i]
        ins = {0: st}
        cnt, entry = {}, {}
        work = [0]
        self.marks = self.thresholds()
        loops = f.get("loops") or {}
        rpo = f.get("rpo")
        order = {n: i for i, n in enumerate(rpo)} if isinstance(rpo, list) else rpo or {}
        while work:
            b = min(work, key=lambda x: order.get(x, x))
            work.remove(b)
            cnt[b] = cnt.get(b, 0) + 1
            for to, s in self.block(b, dict(ins[b])):
                old = ins.get(to)
                new = self.merge(old, s, cnt.get(to, 0) > 4)
                if to in loops:
                    if b not in loops[to]:
                        entry[to] = self.merge(entry.get(to), s, False)
                    elif to in entry:
                        self.bounded(to, loops[to], entry[to], new)
                if new != old:
                    ins[to] = new
                    if to not in work:
                        work.append(to)
                if cnt.get(to, 0) > 60:
                    ins[to] = {}
        self.ins = ins

    def bounded(self, h, body, e, st):
        """variables that a counted loop only adds to: at most the start plus trips times the largest step"""
        n = None
        for b in body:
            t = self.f["blocks"][b]["t"]
            if t[0] == "call" and t[1].get("fn") and t[1]["fn"]["name"] == "next" and t[2] and "p" in t[2][0]:
                for x in self.pts.get(t[2][0]["p"][0], ()):
                    v = e.get(x)
                    if v is not None and LEN in v and (n is None or v[LEN][1] < n):
                        n = v[LEN][1]
        if n is None or n > 2 ** 40:
            return
        for x, adds in self.sums(body).items():
            if x not in st or x not in e or adds is None:
                continue
            k = self.tys[self.L[x]]["s"]
            c = 0
            for b, o in adds:
                v = (self.an.sites.get((self.f["d"], b)) or (None,) * 3)[2] if o["k"] != "const" else self.num(st, o)
                if v is None or v[0] < 0:
                    break
                c += v[1]
            else:
                hi = e[x].get(k, self.an.rng(k))[1] + n * c
                lo = e[x].get(k, self.an.rng(k))[0]
                v = st[x].get(k)
                if v is not None:
                    st[x] = dict(st[x])
                    st[x][k] = (max(v[0], lo), min(v[1], hi))

    def sums(self, body):
        """integer locals written in the loop only as x = x + constant or loop-invariant: {local: [operands]}"""
        key = id(body)
        memo = self.__dict__.setdefault("_sums", {})
        if key in memo:
            return memo[key]
        out, tmp = {}, {}
        written, where = {}, {}
        for b in body:
            for s in self.f["blocks"][b]["s"]:
                if s[0] == "=":
                    written.setdefault(s[1][0], []).append(s)
                    where[id(s)] = b
            t = self.f["blocks"][b]["t"]
            if t[0] == "call" and t[3]:
                written.setdefault(t[3][0], []).append(None)
        for x, ws in written.items():
            if self.tys[self.L[x]]["k"] not in ("int", "uint") or x in self.addr:
                continue
            adds = []
            for s in ws:
                rv = s[2] if s is not None and len(s[1]) == 1 else None
                ok = False
                if rv is not None and rv[0] == "use" and "p" in rv[1] and len(rv[1]["p"]) == 2 and rv[1]["p"][1][:2] == ["f", 0]:
                    d = [w for w in written.get(rv[1]["p"][0], ())]
                    if len(d) == 1 and d[0] is not None and d[0][2][0] == "bin" and d[0][2][1] == "AddWithOverflow":
                        l, r = d[0][2][2], d[0][2][3]
                        if l.get("p") == [x]:
                            adds.append((where[id(d[0])], r))
                            ok = True
                if not ok:
                    adds = None
                    break
            if adds is not None:
                out[x] = adds
        memo[key] = out
        return out

    def thresholds(self):
        ms = {0, 1, BIG}
        for b in self.f["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    for o in s[2][1:]:
                        if isinstance(o, dict) and o.get("k") == "const" and isinstance(o.get("v"), int):
                            ms |= {o["v"], o["v"] - 1, o["v"] + 1}
        for x in (7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 65535, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 64 - 1):
            ms.add(x)
        return sorted(ms)

    def merge(self, old, s, wide):
        if old is None:
            return s
        out = {}
        for l in old:
            if l not in s or old[l] is None:
                continue                                 # absent means unknown
            a, b = old[l], s[l]
            n = jd(a, b)
            if wide and n != a:
                w = {}
                for k, v in n.items():
                    if k == OBJ:
                        w[k] = v
                        continue
                    o = a.get(k, v)
                    lo, hi = v
                    r = (0, BIG) if k == LEN else self.an.rng(k)
                    if lo < o[0]:
                        lo = max([m for m in self.marks if m <= lo] or [r[0]])
                    if hi > o[1]:
                        hi = min([m for m in self.marks if m >= hi] or [r[1]])
                    w[k] = (max(lo, r[0]), min(hi, r[1]))
                n = w
            out[l] = n
        return out

    # ---- points-to of references to locals (flow-insensitive)
    def points(self):
        f = self.f
        mv = []
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                dst, rv = s[1][0], s[2]
                if rv[0] in ("ref", "rawptr"):
                    p = rv[-1]
                    if "*" in p[1:]:
                        mv.append((dst, p[0]))
                    else:
                        self.pts.setdefault(dst, set()).add(p[0])
                        mv.append((dst, p[0]))
                else:
                    for o in self.ops(rv):
                        if "p" in o:
                            mv.append((dst, o["p"][0]))
            t = b["t"]
            if t[0] == "call" and t[3]:
                for a in t[2]:
                    if "p" in a:
                        mv.append((t[3][0], a["p"][0]))
        ch = True
        while ch:
            ch = False
            for d, s in mv:
                x = self.pts.get(s)
                if x and self.holds_ref(d) and not x <= self.pts.get(d, set()):
                    self.pts.setdefault(d, set()).update(x)
                    ch = True

    def holds_ref(self, l, ti=None, depth=0):
        t = self.tys[self.L[l] if ti is None else ti]
        if t["k"] in ("ref", "ptr", "closure"):
            return True
        if depth > 4:
            return True
        if t["k"] == "adt":
            return "'" in t["s"] or "&" in t["s"] or any(isinstance(x, int) and self.holds_ref(l, x, depth + 1) for x in t["a"])
        if t["k"] in ("tuple",):
            return any(self.holds_ref(l, x, depth + 1) for x in t["e"])
        if t["k"] in ("array", "slice"):
            return self.holds_ref(l, t["e"], depth + 1)
        return False

    def ops(self, rv):
        k = rv[0]
        out = []
        for x in rv[1:]:
            if isinstance(x, dict) and "k" in x:
                out.append(x)
            elif isinstance(x, list):
                out += [y for y in x if isinstance(y, dict) and "k" in y]
        return out

    # ---- reading and writing
    def get(self, st, l):
        return st[l] if l in st else self.an.top(self.L[l])

    def pty(self, p):
        ti = self.L[p[0]]
        for e in p[1:]:
            t = self.tys[ti]
            if e == "*":
                if t["k"] not in ("ref", "ptr"):
                    return None
                ti = t["e"]
            elif e == "cast":
                return None
            elif e[0] == "f":
                ti = e[2]
            elif e[0] in ("i", "ci"):
                if t["k"] not in ("array", "slice"):
                    return None
                ti = t["e"]
            elif e[0] == "dc":
                pass
            elif e[0] == "sub":
                pass
        return ti

    def fieldof(self, p):
        """(type, variant, field) if the place is a private field of an object of this crate"""
        if len(p) < 2 or p[-1] == "*" or p[-1] == "cast" or p[-1][0] != "f":
            return None
        ti = self.pty(p[:-1])
        if ti is None or self.tys[ti]["k"] != "adt" or any(e != "*" and e != "cast" and e[0] == "dc" for e in p[1:]):
            return None
        a = self.an.p.adts.get(self.tys[ti]["d"])
        if a is None or not a["local"] or len(a["vars"]) != 1 or a["vars"][0]["f"][p[-1][1]]["pub"]:
            return None
        return (a["d"], p[-1][1])

    def read(self, st, p):
        ti = self.pty(p)
        if ti is None:
            return {}
        k = self.fieldof(p)
        if k is not None and k not in self.an.opaque and self.tys[ti]["k"] in ("int", "uint"):
            v = dict(self.an.fields.get(k) or self.an.top(ti))
            if self.tys[ti]["s"] in ("usize", "isize"):
                v[OBJ] = (0, 0)
            return self.an.fit(v, ti)
        if len(p) > 1 and p[1] != "*" and p[1][0] == "f" and (p[0], p[1][1]) in st:
            v = st[(p[0], p[1][1])]
            return self.an.fit(v, ti) if len(p) == 2 else self.an.fit({k: x for k, x in v.items() if k != LEN}, ti)
        v = self.get(st, p[0])
        if "*" in p[1:]:
            for x in self.pts.get(p[0], ()):
                v = jd(v, self.get(st, x))
        fd = [e for e in p[1:] if e != "*" and e[0] != "dc"]
        if fd or len(p) > 1:
            v = dict(v)
            if any(e[0] in ("i", "ci", "f", "sub") for e in fd):
                v.pop(LEN, None)
            # a field of a self-like structure with several fields of a type: the range of that type in the whole
        return self.an.fit(v, ti)

    def write(self, st, p, v):
        l = p[0]
        k = self.fieldof(p)
        if k is not None:
            self.an.put(k, {x: y for x, y in v.items() if x != LEN})
        for i in range(len(self.tys[self.L[l]]["e"]) if self.tys[self.L[l]]["k"] == "tuple" else 0):
            if len(p) == 1 or p[1] == "*" or p[1][0] == "f" and p[1][1] == i:
                st.pop((l, i), None)
        if len(p) == 1:
            st[l] = self.an.fit(v, self.L[l])
            return
        tg = [l]
        if "*" in p[1:]:
            tg += list(self.pts.get(l, ()))
        v = {k: x for k, x in v.items() if k != LEN}
        for x in tg:
            old = self.get(st, x)
            n = jd(old, v) if old else v
            n = dict(n)
            if LEN in old:
                n[LEN] = old[LEN]
            st[x] = self.an.fit(n, self.L[x])

    def operand(self, st, o):
        if o["k"] == "const":
            ti = o["t"]
            if "v" in o:
                return self.an.fit(self.an.constval(o["v"], ti), ti)
            c = self.an.p.consts.get(o.get("def"))
            if c is not None and "v" in c:
                return self.an.fit(self.an.constval(c["v"], ti), ti)
            return self.an.top(ti)
        if "p" in o:
            return self.read(st, o["p"])
        return {}

    def oty(self, o):
        return o["t"] if o["k"] == "const" else self.pty(o["p"]) if "p" in o else None

    def num(self, st, o):
        ti = self.oty(o)
        if ti is None:
            return None
        n = self.tys[ti]["s"]
        if self.tys[ti]["k"] not in ("int", "uint"):
            return (0, 1) if self.tys[ti]["k"] == "bool" else None
        return self.operand(st, o).get(n, self.an.rng(n))

    # ---- transfer
    def block(self, bi, st):
        b = self.f["blocks"][bi]
        self.defs = {}
        for s in b["s"]:
            if s[0] == "=":
                self.assign(st, s[1], s[2], bi)
                if len(s[1]) == 1:
                    self.defs[s[1][0]] = s[2]
            elif s[0] == "dead":
                for x in [x for x in st if x == s[1] or isinstance(x, tuple) and x[0] == s[1]]:
                    st.pop(x)
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "return":
            self.an.returned(self.f["d"], self.get(st, 0))
            return []
        if k == "switch":
            return self.switch(st, t)
        if k == "assert":
            self.asserted(st, t, bi)
            return [(t[4], st)]
        if k == "call":
            return self.call(st, t, bi)
        return []

    def assign(self, st, p, rv, bi):
        k = rv[0]
        ti = self.pty(p)
        if ti is None:
            return
        v = None
        if k == "use":
            v = self.operand(st, rv[1])
        elif k in ("ref", "rawptr"):
            v = dict(self.read(st, rv[-1]))
            q = rv[-1]
            if len(q) == 1 or q[-1] == "*":
                g = self.get(st, q[0])
                if LEN in g:
                    v[LEN] = g[LEN]
        elif k == "cast":
            o = next((x for x in rv[1:] if isinstance(x, dict)), None)
            v = self.cast(st, o, ti) if o is not None else None
        elif k == "bin":
            v = self.binop(st, rv[1], rv[2], rv[3], ti, bi)
        elif k == "un":
            v = self.unop(st, rv, ti)
        elif k == "agg":
            v = None
            for o in self.ops(rv):
                w = dict(self.operand(st, o))
                w.pop(LEN, None)
                v = jd(v, w)
            v = {} if v is None else dict(v)
            if self.tys[ti]["k"] == "adt" and self.tys[ti]["d"].endswith("::Range"):
                os = self.ops(rv)
                a, e = self.num(st, os[0]), self.num(st, os[1])
                n = self.tys[self.oty(os[0])]["s"]
                if a and e:
                    v = {n: (a[0], max(a[0], e[1] - 1)), LEN: (0, max(0, e[1] - a[0]))}
            if self.tys[ti]["k"] == "array":
                v[LEN] = (self.tys[ti]["len"],) * 2 if isinstance(self.tys[ti].get("len"), int) else (0, BIG)
        elif k == "repeat":
            v = self.operand(st, rv[1])
        if v is None:
            v = self.an.top(ti)
        self.write(st, p, v)
        if k == "agg" and self.tys[ti]["k"] == "tuple" and len(p) == 1 and p[0] not in self.addr:
            for i, o in enumerate(self.ops(rv)):
                st[(p[0], i)] = self.operand(st, o)
        if k == "use" and len(p) == 1 and "p" in rv[1] and len(rv[1]["p"]) == 1 and self.tys[ti]["k"] == "tuple" and p[0] not in self.addr:
            for i in range(len(self.tys[ti]["e"])):
                if (rv[1]["p"][0], i) in st:
                    st[(p[0], i)] = st[(rv[1]["p"][0], i)]
        if k == "agg" and self.tys[ti]["k"] == "adt":
            a = self.an.p.adts.get(self.tys[ti]["d"])
            if a is not None and a["local"] and len(a["vars"]) == 1:
                for i, o in enumerate(self.ops(rv)):
                    if i < len(a["vars"][0]["f"]):
                        self.an.put((a["d"], i), {x: y for x, y in self.operand(st, o).items() if x != LEN})

    def cast(self, st, o, ti):
        src = self.oty(o)
        if src is None:
            return None
        v = self.operand(st, o)
        a, b = self.tys[src], self.tys[ti]
        if a["k"] in ("int", "uint", "bool", "char") and b["k"] in ("int", "uint"):
            x = self.num(st, o) or ((0, 1) if a["k"] == "bool" else (0, 0x10ffff))
            r = self.an.rng(b["s"])
            if r[0] <= x[0] and x[1] <= r[1]:
                return self.mark(st, {b["s"]: x}, o)
            w = r[1] - r[0] + 1
            if b["k"] == "uint" and x[0] // w == x[1] // w:
                return self.mark(st, {b["s"]: (x[0] % w, x[1] % w)}, o)
            return self.mark(st, {b["s"]: r}, o)
        return v

    def unop(self, st, rv, ti):
        o = next((x for x in rv[1:] if isinstance(x, dict)), None)
        t = self.tys[ti]
        x = self.num(st, o) if o is not None else None
        if rv[1] == "PtrMetadata" or t["k"] not in ("int", "uint") or x is None:
            if o is not None and "p" in o and t["k"] == "uint":
                g = self.operand(st, o)
                return {t["s"]: g.get(LEN, (0, BIG))}
            return None
        if rv[1] == "Not":
            if t["k"] == "uint":
                m = self.an.rng(t["s"])[1]
                return {t["s"]: (m - x[1], m - x[0])}
            return {t["s"]: (-x[1] - 1, -x[0] - 1)}
        if rv[1] == "Neg":
            return {t["s"]: (-x[1], -x[0])}
        return None

    def binop(self, st, op, l, r, ti, bi):
        lt = self.oty(l)
        n = self.tys[lt]["s"] if lt is not None and self.tys[lt]["k"] in ("int", "uint") else None
        a, b = self.num(st, l), self.num(st, r)
        if n is None or a is None or b is None:
            return None
        R = self.an.rng(n)
        v = self.arith(op.replace("WithOverflow", "").replace("Unchecked", ""), a, b, R, n)
        if v is None:
            return None
        if "WithOverflow" in op:
            v = (max(v[0], R[0]), min(v[1], R[1])) if v[0] <= R[1] and v[1] >= R[0] else R
        elif v[0] < R[0] or v[1] > R[1]:
            v = R
        return self.mark(st, {n: v}, l, r)

    def mark(self, st, v, *os):
        if any(OBJ in self.operand(st, o) for o in os):
            v[OBJ] = (0, 0)
        return v

    def arith(self, op, a, b, R, n):
        bits = 64 if n[1:] == "size" else int(n[1:])
        if op == "Add":
            return (a[0] + b[0], a[1] + b[1])
        if op == "Sub":
            return (a[0] - b[1], a[1] - b[0])
        if op == "Mul":
            xs = [x * y for x in a for y in b]
            return (min(xs), max(xs))
        if op == "Div":
            if a[0] >= 0 and b[0] >= 1:
                return (a[0] // b[1], a[1] // b[0])
            return R if a[0] < 0 else (0, a[1]) if b[0] >= 0 else R
        if op == "Rem":
            if a[0] >= 0 and b[1] > 0 and b[0] >= 0:
                return (0, min(a[1], b[1] - 1)) if a[1] >= b[0] or b[0] == 0 else a
            if b[0] > 0:
                return (-(b[1] - 1) if a[0] < 0 else 0, b[1] - 1)
            return R
        if op == "BitAnd":
            if a[0] >= 0 and b[0] >= 0:
                return (0, min(a[1], b[1]))
            if a[0] >= 0:
                return (0, a[1])
            if b[0] >= 0:
                return (0, b[1])
            return R
        if op in ("BitOr", "BitXor"):
            if a[0] >= 0 and b[0] >= 0:
                m = max(a[1], b[1]).bit_length()
                return (max(a[0], b[0]) if op == "BitOr" else 0, 2 ** m - 1)
            return R
        if op == "Shl":
            if 0 <= b[0] and b[1] < bits and a[0] >= 0:
                hi = a[1] << b[1]
                return (a[0] << b[0], hi) if hi <= R[1] else R
            return R
        if op == "Shr":
            if 0 <= b[0] and b[1] < bits:
                return (a[0] >> b[1], a[1] >> b[0]) if a[0] >= 0 else (a[0] >> b[0], max(a[1] >> b[0], a[1] >> b[1]))
            return (0, a[1]) if a[0] >= 0 else R
        return None

    # ---- branches
    def switch(self, st, t):
        o = t[1]
        out = []
        vals = t[2]
        for v, to in vals:
            s = self.refine(dict(st), o, v, True)
            if s is not None:
                out.append((to, s))
        if t[3] is not None:
            s = dict(st)
            if len(vals) == 1:
                s = self.refine(s, o, vals[0][0], False)
            if s is not None:
                out.append((t[3], s))
        return out

    def refine(self, st, o, v, eq):
        if "p" not in o or len(o["p"]) != 1:
            return st
        l = o["p"][0]
        ti = self.L[l]
        if self.tys[ti]["k"] == "bool":
            d = self.defs.get(l)
            truth = bool(v) == eq
            while d is not None and d[0] == "un" and d[1] == "Not":
                x = next(y for y in d[1:] if isinstance(y, dict))
                truth = not truth
                d = self.defs.get(x["p"][0]) if "p" in x else None
            if d is not None and d[0] == "bin" and d[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return self.compare(st, d[1], d[2], d[3], truth)
            return st
        if self.tys[ti]["k"] in ("int", "uint"):
            n = self.tys[ti]["s"]
            d = self.defs.get(l)
            for x in [o] + ([d[1]] if d is not None and d[0] == "use" else []):
                if eq:
                    self.clip(st, x, v, v)
        return st

    def compare(self, st, op, l, r, truth):
        if not truth:
            op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}[op]
        a, b = self.num(st, l), self.num(st, r)
        if a is None or b is None:
            return st
        if op == "Gt":
            op, l, r, a, b = "Lt", r, l, b, a
        if op == "Ge":
            op, l, r, a, b = "Le", r, l, b, a
        ok = True
        if op == "Lt":
            ok = self.clip(st, l, None, b[1] - 1) and self.clip(st, r, a[0] + 1, None)
        elif op == "Le":
            ok = self.clip(st, l, None, b[1]) and self.clip(st, r, a[0], None)
        elif op == "Eq":
            ok = self.clip(st, l, b[0], b[1]) and self.clip(st, r, a[0], a[1])
        elif op == "Ne":
            if b[0] == b[1]:
                if a == b:
                    return None
                if a[0] == b[0]:
                    ok = self.clip(st, l, a[0] + 1, None)
                elif a[1] == b[0]:
                    ok = self.clip(st, l, None, a[1] - 1)
        return st if ok else None

    def clip(self, st, o, lo, hi):
        if o.get("k") == "const" or "p" not in o or len(o["p"]) != 1:
            return True
        l = o["p"][0]
        todo = [l]
        d = self.defs.get(l)
        if d is not None and d[0] == "use" and "p" in d[1] and len(d[1]["p"]) == 1:
            todo.append(d[1]["p"][0])
        for l in todo:
            t = self.tys[self.L[l]]
            if t["k"] not in ("int", "uint"):
                continue
            v = self.get(st, l).get(t["s"], self.an.rng(t["s"]))
            v = (v[0] if lo is None else max(v[0], lo), v[1] if hi is None else min(v[1], hi))
            if v[0] > v[1]:
                return False
            st[l] = dict(self.get(st, l))
            st[l][t["s"]] = v
        return True

    def asserted(self, st, t, bi):
        kind = t[3]
        if kind[0] != "overflow":
            return
        b = self.f["blocks"][bi]
        c = t[1]
        d = self.defs.get(c["p"][0]) if "p" in c else None
        key = (self.f["d"], bi)
        if d is None:
            self.an.sites[key] = (False, None, None, "?", None, self.f)
            return
        if d[0] == "bin" and d[1] == "Lt":
            a, w = self.num(st, d[2]), self.num(st, d[3])
            ok = a is not None and w is not None and a[0] >= 0 and a[1] < w[0]
            self.an.sites[key] = (ok, a, w, "shift", self.soft(st, d[2]), self.f)
            if not ok:
                self.clip(st, d[2], 0, w[1] - 1)
            return
        if d[0] == "bin" and d[1] in ("Eq",):
            a, w = self.num(st, d[2]), self.num(st, d[3])
            ok = a is not None and w is not None and (a[1] < w[0] or a[0] > w[1])
            self.an.sites[key] = (ok, a, w, "neg", self.tys[self.oty(d[2])]["s"], self.f)
            return
        if d[0] == "bin" and "WithOverflow" in d[1]:
            pass
        self.an.sites[key] = (True, None, None, d[1] if d[0] == "bin" else d[0], None, self.f)
        if d[0] == "bin" and "WithOverflow" in d[1]:
            self.over(st, d, key)

    def soft(self, st, o):
        """how a shift distance came about: '' if from words alone"""
        v = self.operand(st, o)
        return "object" if OBJ in v else "size" if (self.num(st, o) or (0, 0))[1] >= 2 ** 31 else ""

    def over(self, st, d, key):
        lt = self.oty(d[2])
        n = self.tys[lt]["s"]
        a, b = self.saved.get(id(d), (None, None)) if hasattr(self, "saved") else (None, None)
        if a is None:
            a, b = self.num(st, d[2]), self.num(st, d[3])
        R = self.an.rng(n)
        v = self.arith(d[1].replace("WithOverflow", ""), a, b, R, n)
        ok = v is not None and R[0] <= v[0] and v[1] <= R[1]
        op = d[1].replace("WithOverflow", "")
        self.an.sites[key] = (ok, a, b, op if ok or not self.counter(d) else "step", n, self.f)

    def counter(self, d):
        """the step of a loop counter: a local that only ever takes constants and is moved by constants"""
        if d[3]["k"] != "const" or "p" not in d[2] or len(d[2]["p"]) != 1 or d[2]["p"][0] in self.addr:
            return False
        x = d[2]["p"][0]
        step = False
        for b in self.f["blocks"]:
            t = b["t"]
            if t[0] == "call" and t[3] and t[3][0] == x:
                return False
            for s in b["s"]:
                if s[0] != "=" or s[1][0] != x:
                    continue
                rv = s[2]
                if rv[0] == "use" and rv[1]["k"] == "const":
                    continue
                if rv[0] == "use" and "p" in rv[1] and len(rv[1]["p"]) == 2 and any(
                        w[0] == "=" and w[1] == [rv[1]["p"][0]] and w[2][0] == "bin" and w[2][2].get("p") == [x] and w[2][3]["k"] == "const"
                        for c in self.f["blocks"] for w in c["s"]):
                    step = True
                    continue
                return False
        return step

    # ---- calls
    def call(self, st, t, bi):
        f = t[1].get("fn")
        args = [self.operand(st, a) for a in t[2]]
        dst, to = t[3], t[4]
        ti = self.pty(dst) if dst else None
        res = None
        known = False
        if f is not None:
            r = f.get("r") or {}
            d = r.get("d") or f.get("d")
            name = f["name"]
            if d in self.an.fns:
                self.an.flow(d, args)
                res = self.an.ret.get(d)
                known = res is not None and not self.mutref(t[2])
                if res is None and self.an.rounds < 3 and self.an.fns[d].get("argc") is not None and self.diverging(d):
                    pass
            elif name == "new" and "RangeInclusive" in f["n"] and len(args) == 2:
                a, e = self.num(st, t[2][0]), self.num(st, t[2][1])
                x = self.oty(t[2][0])
                if a and e:
                    res, known = self.mark(st, {self.tys[x]["s"]: (a[0], max(a[0], e[1])), LEN: (0, max(0, e[1] - a[0] + 1))}, *t[2]), True
            elif not r.get("local") and name in MOVES | STORES:
                res, known = self.std(st, t, name, args, ti), name in MOVES
        # closures handed over
        for a, v in zip(t[2], args):
            if "p" in a or a["k"] == "const":
                self.handed(st, a, args, f)
        if not known or (f and f["name"] in STORES):
            self.clobber(st, t, args, f)
        if to is None:
            return []
        if ti is not None:
            num = self.numeric(st, f, t, args, ti) if f is not None else None
            self.write(st, dst, num if num is not None else self.an.fit(res, ti) if res is not None else self.an.top(ti))
        return [(to, st)]

    def diverging(self, d):
        return False

    def mutref(self, ops):
        for o in ops:
            ti = self.oty(o)
            if ti is not None and self.tys[ti]["k"] in ("ref", "ptr") and self.tys[ti].get("m"):
                return True
        return False

    def clobber(self, st, t, args, f):
        """what the callee may write through references it is given"""
        name = f["name"] if f else ""
        for o in t[2]:
            if "p" not in o:
                continue
            l = o["p"][0]
            for x in self.pts.get(l, ()):
                if name in STORES:
                    v = self.get(st, x)
                    for w in args:
                        v = jd(v, {k: y for k, y in w.items() if k != LEN})
                    v = dict(v)
                    if self.an.alen(self.L[x]) is None:
                        v.pop(LEN, None)
                    st[x] = self.an.fit(v, self.L[x])
                else:
                    st[x] = self.an.top(self.L[x])
            ti = self.pty(o["p"])
            if ti is not None and self.tys[ti]["k"] in ("ref", "ptr") and self.tys[ti].get("m") and l in st and name not in STORES:
                st[l] = self.an.top(self.L[l])

    def handed(self, st, a, args, f):
        ti = self.oty(a)
        t = self.tys[ti] if ti is not None else None
        if t is None or t["k"] not in ("closure", "fndef"):
            return
        d = t.get("d")
        c = self.an.fns.get(d)
        if c is None:
            return
        # everything it may be called with: what the other arguments hold, and its own results
        pool = {}
        for v in args:
            pool = jd(pool, {k: x for k, x in v.items() if k != LEN}) if pool else {k: x for k, x in v.items() if k != LEN}
        pool = jd(pool, self.an.ret.get(d)) if self.an.ret.get(d) else pool
        pool = dict(pool or {})
        pool.pop(LEN, None)
        n = c["argc"]
        ps = []
        first = 1 if t["k"] == "closure" else 0
        for i in range(n):
            pt = c["locals"][i + 1][0]
            if i < first:
                ps.append(self.captured(st, a, pt))
            else:
                v = {k: pool[k] for k in self.an.inttys(pt) if k in pool}
                ps.append(self.an.fit(v, pt))
        self.an.flow(d, ps)

    def captured(self, st, a, pt):
        """what a closure holds; things it may write count as unknown"""
        if "p" not in a or len(a["p"]) != 1:
            return self.an.top(pt)
        ups = self.tys[self.L[a["p"][0]]].get("up")
        v = self.get(st, a["p"][0])
        return self.an.top(pt) if not v else self.an.fit(v, pt) if self.readonly(a["p"][0]) else self.an.top(pt)

    def readonly(self, l):
        return all(not self.written(x) for x in self.pts.get(l, ()))

    def written(self, x):
        """a mutable reference to the local is taken somewhere"""
        for b in self.f["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "rawptr") and s[2][-1][0] == x and s[2][1]:
                    return True
        return False

    def std(self, st, t, name, args, ti):
        v = None
        use = args[:1] if name in ("skip", "take", "step_by", "chunks", "chunks_exact", "windows", "get", "index", "index_mut", "get_mut", "get_unchecked", "nth",
                                   "split_at", "split_at_mut", "rchunks") else args
        if name in ("map", "fold", "for_each", "filter", "skip_while", "all", "any", "position"):
            for o in t[2][1:]:
                x = self.oty(o)
                if x is not None and self.tys[x]["k"] in ("closure", "fndef"):
                    r = self.an.ret.get(self.tys[x].get("d"))
                    use = use + [r] if r is not None else use
                    if r is None and name in ("map", "fold"):
                        return self.an.top(ti) if ti is not None else None
        for a in use:
            v = jd(v, a)
        v = dict(v or {})
        lens = [a.get(LEN) for a in args]
        if name in ("index", "index_mut", "get", "get_mut", "chunks", "windows", "split_at", "split_at_mut", "concat", "next", "next_back", "collect", "chain", "cycle",
                    "push", "extend", "from", "into", "try_into", "try_from", "map", "fold", "nth", "rchunks", "chunks_exact", "filter", "skip_while"):
            v.pop(LEN, None)
            if name in ("map",) and lens[0]:
                v[LEN] = lens[0]
        if name == "take" and len(t[2]) > 1:
            n = self.num(st, t[2][1])
            if n:
                v[LEN] = (0, min(n[1], lens[0][1] if lens[0] else BIG))
        if name == "zip":
            hs = [x[1] for x in lens if x]
            if hs:
                v[LEN] = (0, min(hs))
            else:
                v.pop(LEN, None)
        if name == "enumerate":
            h = lens[0][1] if lens[0] else BIG
            e = (0, max(0, h - 1))
            v["usize"] = join(v["usize"], e) if "usize" in v else e
        if name in ("from", "into", "try_into", "try_from") and ti is not None and self.tys[ti]["k"] in ("int", "uint") and len(t[2]) == 1:
            x = self.num(st, t[2][0])
            return {self.tys[ti]["s"]: x} if x is not None else self.an.top(ti)
        if ti is not None:
            for n in self.an.inttys(ti):
                if n not in v:
                    v[n] = self.an.rng(n)
        return v

    def numeric(self, st, f, t, args, ti):
        n = f["name"]
        k = self.tys[ti]
        if n == "len" and k["s"] == "usize":
            return {"usize": args[0].get(LEN, (0, BIG)) if args else (0, BIG)}
        if k["k"] not in ("int", "uint"):
            return None
        if n in ("min", "max") and len(t[2]) == 2:
            a, b = self.num(st, t[2][0]), self.num(st, t[2][1])
            if a and b:
                g = min if n == "min" else max
                return {k["s"]: (g(a[0], b[0]), g(a[1], b[1]))}
        if n in ("leading_zeros", "trailing_zeros", "count_ones", "count_zeros") and t[2]:
            x = self.oty(t[2][0])
            b = self.an.rng(self.tys[x]["s"])[1].bit_length() if x is not None and self.tys[x]["k"] in ("int", "uint") else 128
            return {k["s"]: (0, b)}
        if n in ("saturating_sub",) and len(t[2]) == 2:
            a, b = self.num(st, t[2][0]), self.num(st, t[2][1])
            if a and b and a[0] >= 0:
                return {k["s"]: (max(0, a[0] - b[1]), max(0, a[1] - b[0]))}
        if n in ("rem_euclid",) and len(t[2]) == 2:
            b = self.num(st, t[2][1])
            if b and b[0] > 0:
                return {k["s"]: (0, b[1] - 1)}
        return None
