"""Which fields of a struct a function may read or write (by type, over the function, its closures and its callees)."""


def _tywalk(p, f, place, out, write, lend=False):
    tys = p.tys
    t = f["locals"][place[0]][0]
    n = len(place)
    for i, q in enumerate(place[1:], 1):
        if q == "*":
            ty = tys[t] if t is not None else None
            if ty is None:
                continue
            if ty["k"] in ("ref", "ptr"):
                t = ty["e"]
            elif ty["k"] == "adt" and ty.get("a"):
                t = ty["a"][0]
            else:
                t = None
        elif isinstance(q, list) and q[0] == "f":
            ty = tys[t] if t is not None else None
            if ty is not None and ty["k"] == "adt":
                out.setdefault(ty["d"], {}).setdefault(q[1], set()).add("w" if write else "r")
            t = q[2] if isinstance(q[2], int) else None
        elif isinstance(q, list) and q[0] in ("i", "ci"):
            ty = tys[t] if t is not None else None
            t = ty["e"] if ty is not None and ty["k"] in ("array", "slice") else t
    # a whole object stored or copied (lending is followed into the callee)
    ty = tys[t] if t is not None else None
    if lend and ty is not None and ty.get("d") in p.adts and p.adts[ty["d"]]["local"]:
        return
    if ty is not None and ty["k"] == "adt" and len(place) > 1:
        out.setdefault(ty["d"], {}).setdefault("*", set()).add("w" if write else "r")


def _ops(x):
    if isinstance(x, dict):
        if x.get("k") in ("copy", "move"):
            yield x["p"]
        return
    if isinstance(x, list):
        for y in x:
            yield from _ops(y)


def live(p, f, fixed):
    """blocks reachable when the enum parameters in fixed (local -> variant) have a known variant"""
    if not fixed:
        return range(len(f["blocks"]))
    seen, todo = set(), [0]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        b = f["blocks"][n]
        t = b["t"]
        if t[0] == "switch" and isinstance(t[1], dict) and "p" in t[1] and len(t[1]["p"]) == 1:
            k = None
            for s in b["s"]:
                if s[0] == "=" and s[1] == t[1]["p"] and s[2][0] == "discr" and len(s[2][1]) == 1:
                    k = fixed.get(s[2][1][0])
            if k is not None:
                todo.append(next((x[1] for x in t[2] if x[0] == k), t[3]))
                continue
        todo.extend(f["succ"][n])
    return seen


def direct(p, f, fixed=None):
    out, calls, whole = {}, [], False
    lv = live(p, f, fixed)
    for bi, b in enumerate(f["blocks"]):
        if bi not in lv:
            continue
        for s in b["s"]:
            if s[0] == "setd":
                _tywalk(p, f, s[1], out, True)
                continue
            if s[0] != "=":
                continue
            _tywalk(p, f, s[1], out, True)
            rv = s[2]
            if rv[0] in ("ref", "rawptr"):
                reborrow = len(rv[2]) == 2 and rv[2][1] == "*"
                if not reborrow:
                    _tywalk(p, f, rv[2], out, bool(rv[1]) and rv[1] not in ("shared", "fake"), True)
            elif rv[0] == "discr":
                _tywalk(p, f, rv[1], out, False)
            elif rv[0] in ("use", "cast", "repeat", "un", "bin", "agg"):
                for pl in _ops(rv[1:]):
                    if len(pl) > 1:
                        _tywalk(p, f, pl, out, False)
        t = b["t"]
        if t[0] == "call":
            _tywalk(p, f, t[3], out, True)
            for a in t[2]:
                for pl in _ops(a):
                    if len(pl) > 1:
                        _tywalk(p, f, pl, out, False)
            c = t[1].get("fn")
            if c is not None:
                calls.append(c)
                if (c.get("r") or c)["d"] not in p.fns:
                    for a in t[2]:
                        for pl in _ops(a):
                            ty = p.tys[f["locals"][pl[0]][0]] if len(pl) == 1 else {"k": "?"}
                            if ty["k"] in ("ref", "ptr"):
                                e = p.tys[ty["e"]]
                                if e["k"] == "adt" and e["d"] in p.adts and p.adts[e["d"]]["local"]:
                                    out.setdefault(e["d"], {}).setdefault("*", set()).add("w" if ty.get("m") else "r")
        elif t[0] == "switch":
            for pl in _ops(t[1]):
                if len(pl) > 1:
                    _tywalk(p, f, pl, out, False)
        elif t[0] == "drop":
            pass
    return out, calls


def use(p, f, fixed=None):
    """{adt: {field or '*': {'r','w'}}} transitively; None key 'unknown' if an unresolvable callee may touch local objects"""
    memo = p.__dict__.setdefault("_fielduse", {})
    key = (f["d"], tuple(sorted(fixed.items())) if fixed else ())
    if key in memo:
        return memo[key]
    memo[key] = {}
    out = {}
    todo, seen = [f["d"]], set()
    while todo:
        d = todo.pop()
        if d in seen:
            continue
        seen.add(d)
        g = p.fns.get(d)
        if g is None:
            continue
        o, calls = direct(p, g, fixed if g is f else None)
        for a, m in o.items():
            for k, v in m.items():
                out.setdefault(a, {}).setdefault(k, set()).update(v)
        for k in p.fns:
            if k.startswith(d + "::{closure"):
                todo.append(k)
        for c in calls:
            r = c.get("r") or c
            todo.append(r["d"])
    memo[key] = out
    return out


def fields(p, f, adt, fixed=None):
    """(accessed, written) field indices of the struct, or None when whole objects are read or written"""
    m = use(p, f, fixed).get(adt, {})
    if "*" in m:
        return None
    acc = {k for k in m}
    wr = {k for k, v in m.items() if "w" in v}
    return acc, wr
