"""Program facts as written by the driver."""
import json


class Prog:
    def __init__(self, path, config="?"):
        j = json.load(open(path))
        self.config = config
        self.tys = j["tys"]
        self.fns = {f["d"]: f for f in j["fns"]}
        self.consts = {c["d"]: c for c in j["consts"]}
        self.adts = {a["d"]: a for a in j["adts"]}
        self.impls = j["impls"]
        self.drops = {}
        self.trait_impls = {}
        for f in self.fns.values():
            if f.get("tname") == "Drop" and f["name"] == "drop":
                t = self.tys[f["self"]]
                if t["k"] == "adt":
                    self.drops[t["d"]] = f
            if f.get("trait") and f.get("self") is not None:
                t = self.tys[f["self"]]
                k = t.get("d") if t["k"] == "adt" else t["s"]
                self.trait_impls[(f["tname"], k, f["name"])] = f
        for f in self.fns.values():
            self._prep(f)

    def _prep(self, f):
        f["lty"] = [l[0] for l in f["locals"]]
        f["file"], f["line"] = f["span"]
        bl = f["blocks"]
        succ = {}
        for i, b in enumerate(bl):
            succ[i] = self._succ(b)
        # reachable non-cleanup blocks, dominators, natural loops
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        post = []
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(n)
                stack.pop()
        rpo = post[::-1]
        idx = {n: i for i, n in enumerate(rpo)}
        preds = {n: [] for n in rpo}
        for n in rpo:
            for s in succ[n]:
                preds[s].append(n)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                ps = [p for p in preds[n] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a, b = d, p
                    while a != b:
                        while idx[a] > idx[b]:
                            a = idom[a]
                        while idx[b] > idx[a]:
                            b = idom[b]
                    d = a
                if idom.get(n) != d:
                    idom[n] = d
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for n in rpo:
            for s in succ[n]:
                if dom(s, n):
                    body = loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        f["loops"] = loops
        f["rpo"] = rpo
        f["succ"] = succ

    @staticmethod
    def _succ(b):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = []
            for _, x in t[2]:
                if x not in r:
                    r.append(x)
            if t[3] not in r:
                r.append(t[3])
            return r
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def ty(self, i):
        return self.tys[i]

    def tystr(self, i):
        return self.tys[i]["s"]

    # ---- lookup ---------------------------------------------------------
    def adt_named(self, name, top=None):
        """local ADTs with this last path segment (optionally below top-level module `top`)"""
        r = []
        for a in self.adts.values():
            if not a["local"]:
                continue
            p = a["n"].split("::")
            if p[-1] == name and (top is None or p[0] == top):
                r.append(a)
        return r

    def adt1(self, name, top=None):
        r = self.adt_named(name, top)
        return r[0] if len(r) == 1 else None

    def methods(self, adt, trait=None, name=None):
        """functions in impls whose self type is `adt` (dict); trait None = any, '' = inherent"""
        out = []
        for f in self.fns.values():
            if f["kind"] != "fn" or f.get("self") is None:
                continue
            t = self.tys[f["self"]]
            if t["k"] != "adt" or t["d"] != adt["d"]:
                continue
            if name is not None and f["name"] != name:
                continue
            if trait == "" and f.get("trait"):
                continue
            if trait and f.get("tname") != trait:
                continue
            out.append(f)
        return out

    def method(self, adt, name, trait=None):
        r = self.methods(adt, trait, name)
        return r[0] if len(r) == 1 else None

    def impls_of(self, trait):
        """ADTs that implement local/std trait by name"""
        r = []
        for i in self.impls:
            if i.get("tname") == trait:
                t = self.tys[i["self"]]
                if t["k"] == "adt" and t["d"] in self.adts and self.adts[t["d"]]["local"]:
                    r.append(self.adts[t["d"]])
        return r
