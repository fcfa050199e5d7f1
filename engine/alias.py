"""Who shares the storage of a big integer, and where storage is changed in place.

A big integer is a handle on shared storage: cloning copies the handle, an operation such as `x += y`
changes the storage under every handle.  For each function a forward dataflow keeps, per local, the
storages it may be a handle on: those reached from parameter i (("P", i)), from captured variable j
(("U", j)), or created at block b (("N", b)).  A summary says which parameters' storage a function
changes and which it hands back.
"""
NUMBERS = ("BigInt", "Nat")
ASSIGN = {"add_assign", "sub_assign", "mul_assign", "div_assign", "rem_assign", "shl_assign", "shr_assign", "bitand_assign", "bitor_assign", "bitxor_assign",
          "rem_euclid_assign", "div_euclid_assign", "and_not_assign", "neg_assign", "pow_assign"}
SHARE = {"clone", "as_ref", "as_mut", "deref", "deref_mut", "borrow", "borrow_mut", "into", "from", "to_owned", "as_ptr", "get_mut", "cloned", "copied"}


class Alias:
    def __init__(self, prog):
        self.p, self.tys = prog, prog.tys
        self.num = {}
        self.seen = {}                 # fn d -> places where storage is changed in place
        self.sum = {}                  # fn d -> {"mut": {origin}, "ret": {origin}, "sites": {origin: [(line, text)]}}
        self.ch = True
        self.found = {}                # (fn d, kind, line) -> text

    def isnum(self, ti):
        t = self.tys[ti]
        return t["k"] == "adt" and t["d"].split("::")[-1] in NUMBERS and t["d"].startswith("rmath")

    def holds(self, ti):
        """values of the type can be, contain or lead to a big integer"""
        if ti in self.num:
            return self.num[ti]
        self.num[ti] = False
        t = self.tys[ti]
        k = t["k"]
        r = False
        if k == "adt":
            r = self.isnum(ti) or any(isinstance(x, int) and self.holds(x) for x in t["a"])
            a = self.p.adts.get(t["d"])
            if not r and a is not None:
                r = any(self.holds(f["t"]) for v in a["vars"] for f in v["f"])
        elif k in ("ref", "ptr", "slice", "array"):
            r = self.holds(t["e"])
        elif k == "tuple":
            r = any(self.holds(x) for x in t["e"])
        elif k == "closure":
            r = True
        elif k in ("param", "other"):
            r = k == "other"
        self.num[ti] = r
        return r

    def run(self):
        fs = [f for f in self.p.fns.values() if f.get("blocks") and f["kind"] in ("fn", "closure")]
        fs = [f for f in fs if any(self.holds(l[0]) for l in f["locals"])]
        self.fns = {f["d"]: f for f in fs}
        for r in range(8):
            self.ch = False
            self.found = {}
            for f in fs:
                One(self, f).solve()
            if not self.ch:
                break
        self.rounds = r
        return self

    def merge(self, d, mut, ret):
        s = self.sum.setdefault(d, {"mut": {}, "ret": set(), "into": set()})
        for o, w in mut.items():
            if o not in s["mut"]:
                s["mut"][o] = w
                self.ch = True
        if not ret <= s["ret"]:
            s["ret"] |= ret
            self.ch = True


class One:
    def __init__(self, A, f):
        self.A, self.f, self.tys = A, f, A.tys
        self.L = [l[0] for l in f["locals"]]
        self.mut = {}
        self.caps = {}
        self.ret = set()

    def solve(self):
        f = self.f
        st = {}
        for i in range(f["argc"]):
            if self.A.holds(self.L[i + 1]):
                st[i + 1] = frozenset({("P", i)})
        self.points()
        self.live()
        ins = {0: st}
        work = [0]
        n = 0
        while work and n < 4000:
            n += 1
            b = work.pop(0)
            for to, s in self.block(b, dict(ins[b])):
                old = ins.get(to)
                new = s if old is None else {l: old.get(l, frozenset()) | s.get(l, frozenset()) for l in set(old) | set(s)}
                if new != old:
                    ins[to] = new
                    if to not in work:
                        work.append(to)
        self.A.merge(f["d"], self.mut, self.ret)

    # references to locals
    def points(self):
        self.pts = {}
        mv = []
        for b in self.f["blocks"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] in ("ref", "rawptr"):
                    if "*" in rv[-1][1:]:
                        mv.append((s[1][0], rv[-1][0]))
                    else:
                        self.pts.setdefault(s[1][0], set()).add(rv[-1][0])
                elif rv[0] in ("use", "cast"):
                    for o in rv[1:]:
                        if isinstance(o, dict) and "p" in o:
                            mv.append((s[1][0], o["p"][0]))
            t = b["t"]
            if t[0] == "call" and t[3] and self.tys[self.L[t[3][0]]]["k"] in ("ref", "ptr"):
                for a in t[2]:
                    if "p" in a:
                        mv.append((t[3][0], a["p"][0]))
        ch = True
        while ch:
            ch = False
            for d, s in mv:
                x = self.pts.get(s)
                if x and self.tys[self.L[d]]["k"] in ("ref", "ptr") and not x <= self.pts.get(d, set()):
                    self.pts.setdefault(d, set()).update(x)
                    ch = True

    def live(self):
        """locals read after the end of each block"""
        use, deff = {}, {}
        bl = self.f["blocks"]

        def reads(x, out):
            if isinstance(x, dict):
                if "p" in x:
                    out.add(x["p"][0])
                    out |= {e[1] for e in x["p"][1:] if isinstance(e, list) and e[0] == "i"}
                    return
                for k, y in x.items():
                    if k not in ("fn",):
                        reads(y, out)
            elif isinstance(x, list):
                for y in x:
                    reads(y, out)
        for i, b in enumerate(bl):
            u, d = set(), set()
            for s in b["s"]:
                if s[0] == "=":
                    r = set()
                    rv = s[2]
                    if rv[0] in ("ref", "rawptr", "discr"):
                        r.add(rv[-1][0])
                    else:
                        reads(rv[1:], r)
                    if len(s[1]) > 1:
                        r.add(s[1][0])
                    u |= r - d
                    if len(s[1]) == 1:
                        d.add(s[1][0])
            t = b["t"]
            r = set()
            if t[0] == "call":
                reads(t[1], r)
                reads(t[2], r)
                if t[3] and len(t[3]) > 1:
                    r.add(t[3][0])
            elif t[0] == "return":
                r.add(0)
            elif t[0] in ("switch", "assert"):
                reads(t[1], r)
            u |= r - d
            if t[0] == "call" and t[3] and len(t[3]) == 1:
                d.add(t[3][0])
            use[i], deff[i] = u, d
        out = {i: set() for i in range(len(bl))}
        ch = True
        succ = self.f["succ"] if isinstance(self.f.get("succ"), dict) else {i: self.A.p._succ(b) for i, b in enumerate(bl)}
        while ch:
            ch = False
            for i in range(len(bl) - 1, -1, -1):
                o = set()
                for s in succ.get(i, ()):
                    o |= use[s] | (out[s] - deff[s])
                # a live reference keeps what it points to alive
                for l in list(o):
                    o |= self.pts.get(l, set())
                if o != out[i]:
                    out[i] = o
                    ch = True
        self.liveout = out
        self.use = use

    # ---- origins
    def own(self, st, l):
        """everything local l may be a handle on: its own set and those of its tuple fields"""
        out = set(st.get(l, ()))
        if self.tys[self.L[l]]["k"] == "tuple":
            for i in range(len(self.tys[self.L[l]]["e"])):
                out |= st.get((l, i), frozenset())
        return out

    def get(self, st, l):
        out = self.own(st, l)
        for x in self.pts.get(l, ()):
            out |= self.own(st, x)
        return frozenset(out)

    def drop(self, st, l):
        st.pop(l, None)
        if l is not None and self.tys[self.L[l]]["k"] == "tuple":
            for i in range(len(self.tys[self.L[l]]["e"])):
                st.pop((l, i), None)

    def fields(self, st, l, parts):
        """a whole tuple is assigned, its parts known one by one"""
        self.drop(st, l)
        for i, v in enumerate(parts):
            st[(l, i)] = frozenset(v)

    def place(self, st, p):
        if self.f["kind"] == "closure" and p[0] == 1:
            fs = [e for e in p[1:] if isinstance(e, list) and e[0] == "f"]
            if fs:
                return frozenset({("U", fs[0][1])})
        if len(p) > 1 and isinstance(p[1], list) and p[1][0] == "f" and self.tys[self.L[p[0]]]["k"] == "tuple":
            return st.get(p[0], frozenset()) | st.get((p[0], p[1][1]), frozenset())
        return self.get(st, p[0])

    def oper(self, st, o):
        return self.place(st, o["p"]) if "p" in o else frozenset()

    def ops(self, rv):
        out = []
        for x in rv[1:]:
            if isinstance(x, dict) and "k" in x:
                out.append(x)
            elif isinstance(x, list):
                out += [y for y in x if isinstance(y, dict) and "k" in y]
        return out

    def pty(self, p):
        ti = self.L[p[0]]
        for e in p[1:]:
            t = self.tys[ti]
            if e == "*":
                ti = t["e"] if t["k"] in ("ref", "ptr") else (t["a"][0] if t["k"] == "adt" and t["a"] else ti)
            elif e == "cast":
                return None
            elif e[0] == "f":
                ti = e[2]
            elif e[0] in ("i", "ci"):
                ti = t["e"] if t["k"] in ("array", "slice") else ti
        return ti

    def assign(self, st, p, v):
        l = p[0]
        if not self.A.holds(self.L[l]):
            return
        if len(p) == 1:
            self.drop(st, l)
            st[l] = frozenset(v)
        elif isinstance(p[1], list) and p[1][0] == "f" and self.tys[self.L[l]]["k"] == "tuple":
            st[(l, p[1][1])] = frozenset(v) if len(p) == 2 else st.get((l, p[1][1]), frozenset()) | v
        else:
            st[l] = st.get(l, frozenset()) | v
            if "*" in p[1:]:
                for x in self.pts.get(l, ()):
                    st[x] = (frozenset(v) if p[1:] == ["*"] and len(self.pts[l]) == 1 else st.get(x, frozenset()) | v)

    def block(self, bi, st):
        b = self.f["blocks"][bi]
        for s in b["s"]:
            if s[0] != "=":
                if s[0] == "dead":
                    self.drop(st, s[1])
                continue
            rv = s[2]
            self.stored(st, s[1], s[3])
            if rv[0] in ("ref", "rawptr"):
                v = self.place(st, rv[-1])
                if rv[0] == "ref" and rv[1]:
                    self.stored(st, rv[-1], s[3])
            else:
                v = frozenset().union(*[self.oper(st, o) for o in self.ops(rv)]) if self.ops(rv) else frozenset()
                if rv[0] == "agg":
                    self.made(st, rv, s[3], bi)
                    self.caps[s[1][0]] = self.ops(rv)
            ti = self.pty(s[1])
            tup = len(s[1]) == 1 and self.tys[self.L[s[1][0]]]["k"] == "tuple"
            if tup and rv[0] == "agg":
                self.fields(st, s[1][0], [self.oper(st, o) for o in self.ops(rv)])
            elif tup and rv[0] == "use" and "p" in rv[1] and len(rv[1]["p"]) == 1:
                n, q = len(self.tys[self.L[s[1][0]]]["e"]), rv[1]["p"][0]
                self.fields(st, s[1][0], [st.get(q, frozenset()) | st.get((q, i), frozenset()) for i in range(n)])
            elif ti is None or self.A.holds(ti):
                self.assign(st, s[1], v)
            for o in self.ops(rv):
                if o["k"] == "move" and len(o["p"]) == 1 and o["p"][0] != s[1][0]:
                    self.drop(st, o["p"][0])
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            if len(t[1]) == 1:
                self.drop(st, t[1][0])
            return [(t[2], st)]
        if k == "return":
            ids = {}
            if self.tys[self.L[0]]["k"] == "tuple":
                parts = [(i, st.get((0, i), frozenset()) | st.get(0, frozenset())) for i in range(len(self.tys[self.L[0]]["e"]))]
            else:
                parts = [(None, self.get(st, 0))]
            for i, v in parts:
                for o in v:
                    self.ret.add((i, o if o[0] in "PU" else ("N", ids.setdefault(o, i or 0))))
            return []
        if k == "switch":
            return [(x[1], st) for x in t[2]] + ([(t[3], st)] if t[3] is not None else [])
        if k == "assert":
            return [(t[4], st)]
        if k == "call":
            return self.call(bi, st, t)
        return []

    def stored(self, st, p, line):
        """a number reached through a parameter's mutable reference is replaced (or lent out to be replaced)"""
        if "*" not in p[1:] or self.f["kind"] == "closure":
            return
        ti = self.pty(p)
        if ti is None or not self.numeric(ti) or self.pts.get(p[0]):
            return
        for x in self.get(st, p[0]):
            if x[0] == "P" and self.tys[self.L[x[1] + 1]]["k"] in ("ref", "ptr") and not self.excused(x[1]):
                self.A.found[(self.f["d"], "store", x[1], line)] = (self.f, line, "assignment", self.f["locals"][x[1] + 1][1] or "argument %d" % (x[1] + 1))

    def numeric(self, ti):
        t = self.tys[ti]
        return self.A.isnum(ti) or t["k"] == "adt" and t["d"].split("::")[-1] in ("Vec", "Option") and any(isinstance(x, int) and self.numeric(x) for x in t["a"])

    def made(self, st, rv, line, bi):
        """a closure that changes what it captured"""
        d = next((x for x in rv[1:] if isinstance(x, list) and x and x[0] == "closure"), None)
        d = d[1] if d else None
        s = self.A.sum.get(d)
        if s is None:
            return
        for o, w in s["mut"].items():
            ops = self.ops(rv)
            if o[0] == "U" and o[1] < len(ops):
                self.sink(bi, st, ops[o[1]], line, "closure: " + w[1])

    def call(self, bi, st, t):
        f = t[1].get("fn")
        b = self.f["blocks"][bi]
        line = b["sp"][1]
        vals = [self.oper(st, a) for a in t[2]]
        res, parts = frozenset(), None
        if t[3]:
            self.stored(st, t[3], line)
        name = f["name"] if f else "?"
        if f:
            r = f.get("r") or {}
            d = r.get("d") or f["d"]
            s = self.A.sum.get(d)
            if d in self.A.fns:
                if s is not None:
                    for o, w in s["mut"].items():
                        if o[0] == "P" and o[1] < len(t[2]):
                            self.sink(bi, st, t[2][o[1]], line, "%s changes it (%s)" % (name, w[1]))
                    out, parts = set(), {}
                    for i, o in s["ret"]:
                        if o[0] == "P" and o[1] < len(vals):
                            x = vals[o[1]]
                        elif o[0] == "N":
                            x = {("N", bi, o[1])}
                        else:
                            continue
                        out |= x
                        parts.setdefault(i, set()).update(x)
                    res = frozenset(out)
                elif t[3]:
                    res = frozenset()
            elif name in ASSIGN and t[2] and self.receiver(t[2][0]):
                self.sink(bi, st, t[2][0], line, name)
            elif self.fresh(f, name, t):
                res = frozenset({("N", bi, 0)})
                if t[3] and self.tys[self.L[t[3][0]]]["k"] == "tuple":
                    parts = {i: {("N", bi, i)} for i in range(len(self.tys[self.L[t[3][0]]]["e"]))}
            else:
                res = frozenset().union(*vals) if vals else frozenset()
            # closures handed over are called with what the other arguments lead to
            for a in t[2]:
                ti = a["t"] if a["k"] == "const" else self.pty(a["p"]) if "p" in a else None
                c = self.tys[ti] if ti is not None else None
                if c is not None and c["k"] in ("closure", "fndef") and c.get("d") in self.A.sum:
                    for o, w in self.A.sum[c["d"]]["mut"].items():
                        if o[0] == "P" and o[1] >= (1 if c["k"] == "closure" else 0):
                            for x in t[2]:
                                if x is not a:
                                    self.sink(bi, st, x, line, "closure: " + w[1])
                    for j in self.A.sum[c["d"]]["into"]:
                        ops = self.caps.get(a["p"][0], ()) if "p" in a else ()
                        for x in self.pts.get(ops[j]["p"][0], ()) if j < len(ops) and "p" in ops[j] else ():
                            st[x] = st.get(x, frozenset()).union(*[v for y, v in zip(t[2], vals) if y is not a])
                    if any(o[0] == "N" for _, o in self.A.sum[c["d"]]["ret"]):
                        res = res | {("N", bi, 0)}
        for a in t[2]:
            if a["k"] == "move" and len(a["p"]) == 1:
                self.drop(st, a["p"][0])
        if any(o[:2] == ("N", bi) for o in res):
            new = {o for o in res if o[:2] == ("N", bi)}
            for l in list(st):
                if st[l] & new:
                    st[l] = frozenset(("N", bi, "old", o[2]) if o in new else o for o in st[l])
        # what is stored through a mutable reference by a library call (push, extend, replace)
        if f and not (f.get("r") or {}).get("local") and name not in ASSIGN:
            for i, a in enumerate(t[2]):
                ti = self.pty(a["p"]) if "p" in a else None
                if ti is not None and self.tys[ti]["k"] in ("ref", "ptr") and self.tys[ti].get("m"):
                    rest = frozenset().union(*[v for j, v in enumerate(vals) if j != i]) if len(vals) > 1 else frozenset()
                    for x in self.pts.get(a["p"][0], ()):
                        if rest and self.A.holds(self.L[x]):
                            st[x] = st.get(x, frozenset()) | rest
                    for o in vals[i]:
                        if o[0] == "U" and any(r[0] in "PU" for r in rest):
                            s = self.A.sum.setdefault(self.f["d"], {"mut": {}, "ret": set(), "into": set()})
                            self.A.ch |= o[1] not in s["into"]
                            s["into"].add(o[1])
        if t[4] is None:
            return []
        if t[3]:
            ti = self.pty(t[3])
            if parts and None not in parts and len(t[3]) == 1:
                self.fields(st, t[3][0], [parts.get(i, ()) for i in range(len(self.tys[self.L[t[3][0]]]["e"]))])
            elif ti is None or self.A.holds(ti):
                self.assign(st, t[3], res)
            elif len(t[3]) == 1:
                self.drop(st, t[3][0])
        return [(t[4], st)]

    def receiver(self, o):
        ti = o["t"] if o["k"] == "const" else self.pty(o["p"]) if "p" in o else None
        while ti is not None and self.tys[ti]["k"] in ("ref", "ptr"):
            ti = self.tys[ti]["e"]
        return ti is not None and self.A.isnum(ti)

    def fresh(self, f, name, t):
        """operations of the number library other than those that copy the handle build a new number"""
        if name in SHARE:
            # conversions from something that is not a number build one
            return name in ("from", "into") and not any(self.A.holds(x) for x in [self.oty(a) for a in t[2]] if x is not None)
        ti = self.pty(t[3]) if t[3] else None
        if ti is None:
            return False
        n = f["n"] + " " + ((f.get("r") or {}).get("n") or "") + " " + ((f.get("r") or {}).get("d") or "") + " " + f["d"]
        if "rmath" in n:
            return True
        # operator traits on numbers
        return bool(t[2]) and self.receiver(t[2][0]) and name in ("add", "sub", "mul", "div", "rem", "shl", "shr", "neg", "not", "bitand", "bitor", "bitxor", "pow")

    def oty(self, o):
        return o["t"] if o["k"] == "const" else self.pty(o["p"]) if "p" in o else None

    def sink(self, bi, st, o, line, how):
        """the storage behind the operand is changed in place"""
        if "p" not in o:
            return
        site = self.A.seen.setdefault(self.f["d"], {}).setdefault((bi, line, how.split(" ")[0]), set())
        os = self.oper(st, o)
        base = set(self.pts.get(o["p"][0], ())) | {o["p"][0]}
        site |= os
        for x in os:
            if x[0] == "P":
                ti = self.L[x[1] + 1]
                if self.excused(x[1]):
                    self.mut.setdefault(x, (line, how))
                else:
                    self.A.found[(self.f["d"], "param", x[1], line)] = (self.f, line, how, self.f["locals"][x[1] + 1][1] or "argument %d" % (x[1] + 1))
                    self.mut.setdefault(x, (line, how)) if not self.tys[ti]["k"] == "ref" else None
            elif x[0] == "U":
                self.mut.setdefault(x, (line, how))
            elif x[0] == "N":
                for l, v in st.items():
                    if isinstance(l, tuple):
                        if x in v and self.byvalue(self.tys[self.L[l[0]]]["e"][l[1]]) and l[0] not in base and l[0] in self.liveout[bi]:
                            self.A.found[(self.f["d"], "alias", self.f["locals"][l[0]][1] or "", line)] = (self.f, line, how, self.f["locals"][l[0]][1] or "another value")
                        continue
                    if l in base or not (x in v) or self.tys[self.L[l]]["k"] in ("ref", "ptr", "closure"):
                        continue
                    if not self.byvalue(self.L[l]):
                        continue
                    if l in self.liveout[bi]:
                        self.A.found[(self.f["d"], "alias", self.f["locals"][l][1] or "", line)] = (self.f, line, how, self.f["locals"][l][1] or "another value")

    def byvalue(self, ti):
        t = self.tys[ti]
        return self.A.isnum(ti) or t["k"] == "adt" and "'" not in t["s"] or t["k"] in ("tuple", "array")

    def excused(self, i):
        """the function is given the number to change: a number by value, or a mutable reference to a number"""
        ti = self.L[i + 1]
        t = self.tys[ti]
        if self.A.isnum(ti):
            return True
        if t["k"] in ("ref", "ptr") and t.get("m"):
            e = t["e"]
            while self.tys[e]["k"] in ("ref", "slice", "array"):
                e = self.tys[e]["e"]
            return self.A.isnum(e) or self.tys[e]["k"] == "adt" and self.tys[e]["d"].split("::")[-1] in ("Vec", "Option") and self.A.holds(e)
        return self.f["kind"] == "closure"
