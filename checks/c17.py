"""C17: hidden mutable state is never shared between threads, never handed out through a shared reference."""

INTERIOR = ("std::cell::Cell", "std::cell::UnsafeCell", "std::cell::RefCell", "core::cell::Cell", "core::cell::UnsafeCell", "core::cell::RefCell",
            "std::cell::OnceCell", "core::cell::OnceCell", "std::rc::Rc", "alloc::rc::Rc")


def struct_notsync(prog, ti, seen=None):
    """is a value of this type certainly not Sync, whatever the type parameters are?"""
    seen = seen or set()
    if ti in seen:
        return False
    seen.add(ti)
    t = prog.ty(ti)
    if t["k"] == "adt":
        a = prog.adts.get(t["d"])
        if t["n"].split("<")[0] in INTERIOR or any(t["d"].endswith(x.split("::", 1)[1]) for x in INTERIOR):
            return True
        if a is not None and a["local"]:
            if not a["gen"]:
                return not a["autos"]["Sync"]
            return any(struct_notsync(prog, f["t"], seen) for v in a["vars"] for f in v["f"])
        return any(struct_notsync(prog, x, seen) for x in t.get("a", []) if isinstance(x, int))
    if t["k"] == "ptr":
        return True
    if t["k"] in ("array", "slice", "ref"):
        return struct_notsync(prog, t["e"], seen)
    if t["k"] == "tuple":
        return any(struct_notsync(prog, x, seen) for x in t["e"])
    return False


def adt_notsync(prog, a, manual):
    if a["d"] in manual:
        return False
    if not a["gen"]:
        return not a["autos"]["Sync"]
    return any(struct_notsync(prog, f["t"]) for v in a["vars"] for f in v["f"])


def has_mut_ref(prog, ti, depth=0):
    t = prog.ty(ti)
    if t["k"] in ("ref", "ptr") and t["m"]:
        return True
    if depth > 4:
        return False
    if t["k"] == "adt":
        return any(has_mut_ref(prog, x, depth + 1) for x in t.get("a", []) if isinstance(x, int))
    if t["k"] == "tuple":
        return any(has_mut_ref(prog, x, depth + 1) for x in t["e"])
    return False


def grants(prog, ti, depth=0):
    """could an argument of this type carry exclusive access or ownership?"""
    t = prog.ty(ti)
    if t["k"] == "ref":
        return bool(t["m"])
    if t["k"] in ("ptr", "param"):
        return True
    if t["k"] == "adt":
        return True
    return False


def shared_mutators(prog, f):
    """constructs in f that obtain write access to something behind a shared reference: (kind, line)"""
    out = []
    lty = f["lty"]

    def ty_of_place(p):
        t = lty[p[0]]
        for e in p[1:]:
            if e == "*":
                t = prog.ty(t).get("e", t)
            elif isinstance(e, list) and e[0] == "f":
                t = e[2]
            else:
                return None
        return t

    def opty(o):
        if o.get("k") in ("copy", "move"):
            return ty_of_place(o["p"])
        return o.get("t")
    for b in f["blocks"]:
        if b.get("c"):
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "cast":
                src, dst = opty(s[2][2]), s[2][3]
                if src is None:
                    continue
                a, d = prog.ty(src), prog.ty(dst)
                if d["k"] in ("ptr", "ref") and d.get("m") and a["k"] in ("ptr", "ref") and not a.get("m"):
                    out.append(("cast to mutable pointer", s[3]))
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], dict) and t[1].get("fn"):
            n = t[1]["fn"]["n"]
            last = n.split("::")[-1]
            if "cell::" in n and last in ("as_ptr", "get", "set", "replace", "take", "swap", "update", "borrow_mut", "raw_get", "as_slice_of_cells") and "OnceCell" not in n:
                if last == "get" and "UnsafeCell" not in n:
                    continue
                out.append(("interior mutability: " + last, b["sp"][1]))
            if last == "cast_mut":
                out.append(("cast to mutable pointer", b["sp"][1]))
            if last.startswith("transmute"):
                src, dst = (opty(t[2][0]) if t[2] else None), ty_of_place(t[3])
                if src is not None and dst is not None:
                    a, d = prog.ty(src), prog.ty(dst)
                    if d["k"] in ("ref", "ptr") and d.get("m") and a["k"] in ("ref", "ptr") and not a.get("m"):
                        out.append(("transmute to exclusive reference", b["sp"][1]))
    return out


def check(progs, rep):
    rep.rule("not-sync", "a type with a shared-reference method that obtains write access to its own memory is not Sync")
    rep.rule("no-unsafe-impl", "no hand-written Sync/Send for a type with interior mutability or raw pointers")
    rep.rule("no-exposure", "no function callable from outside turns only shared references into an exclusive one")
    for cfg, prog in progs.items():
        manual = {}
        for i in prog.impls:
            if i.get("tname") in ("Sync", "Send") and i.get("pol") != "neg" and i.get("unsafe"):
                t = prog.ty(i["self"])
                if t["k"] == "adt":
                    if i["tname"] == "Sync":
                        manual[t["d"]] = i
                    a = prog.adts.get(t["d"])
                    ns = a and (any(struct_notsync(prog, f["t"]) for v in a["vars"] for f in v["f"]))
                    rep.check(not ns, "unsafe-impl:%s:%s" % (i["tname"], t["n"].split("<")[0]),
                              "[%s] hand-written %s for %s is backed by its fields" % (cfg, i["tname"], t["n"]), "%s:%s" % tuple(i["span"]),
                              "hand-written unsafe impl %s for %s, which has interior mutability or raw pointers" % (i["tname"], t["n"]))
        muts = 0
        for f in prog.fns.values():
            if f["kind"] == "promoted" or f.get("derived"):
                continue
            owners = []
            root = f
            while root.get("parent") and root["kind"] == "closure" and root["parent"] in prog.fns:
                root = prog.fns[root["parent"]]
            for ti in (root.get("in") or []):
                t = prog.ty(ti)
                if t["k"] == "ref" and not t["m"]:
                    e = prog.ty(t["e"])
                    if e["k"] == "adt" and e["d"] in prog.adts and prog.adts[e["d"]]["local"]:
                        owners.append(prog.adts[e["d"]])
            sm = shared_mutators(prog, f)
            for kind, line in sm:
                muts += 1
                where = "%s:%s in %s" % (f["file"], line, f["n"])
                if not owners:
                    if kind.startswith("interior"):
                        rep.hold("[%s] %s acts on something the caller owns: %s" % (cfg, kind, where))
                    else:
                        shared = any(prog.ty(ti)["k"] == "ref" and not prog.ty(ti)["m"] for ti in (root.get("in") or []))
                        rep.check(not shared, "shared-cast:%s" % f["name"], "[%s] %s does not start from a shared reference: %s" % (cfg, kind, where), where,
                                  "a shared reference is turned into write access without interior mutability")
                    continue
                # the first shared ADT parameter is the one whose memory is written
                a = owners[0]
                ok = adt_notsync(prog, a, manual)
                rep.check(ok, "sync:%s:%s" % (a["n"], f["name"]), "[%s] %s: %s is not Sync (%s)" % (cfg, where, a["n"], kind), where,
                          "%s writes through a shared reference (%s) but %s can be shared between threads" % (f["n"], kind, a["n"]))
                if kind.startswith("cast") or kind.startswith("transmute"):
                    # write access must come from interior-mutable memory
                    cells = any(struct_notsync(prog, x["t"]) for v in a["vars"] for x in v["f"])
                    rep.check(cells, "nocell:%s:%s" % (a["n"], f["name"]), "[%s] %s: write access to interior-mutable memory" % (cfg, where), where,
                              "%s turns a shared reference into write access without interior mutability" % f["n"])
        rep.notes["shared_write_sites_" + cfg] = muts
        rep.check(muts > 0, "no-sites", "[%s] %d shared-write sites analysed" % (cfg, muts))
        for a in prog.adts.values():
            if not a["local"] or not a["reach"]:
                continue
            cells = any(struct_notsync(prog, x["t"]) for v in a["vars"] for x in v["f"])
            if cells:
                rep.check(adt_notsync(prog, a, manual), "sync-type:" + a["n"], "[%s] %s has interior mutability and is not Sync" % (cfg, a["n"]), "%s:%s" % tuple(a["span"]),
                          "%s contains interior mutability but is shareable between threads" % a["n"])
        api = 0
        for f in prog.fns.values():
            if f["kind"] != "fn" or not (f["reach"] or (f.get("trait") and f.get("self") is not None and _pubself(prog, f))):
                continue
            api += 1
            if f.get("out") is None or not has_mut_ref(prog, f["out"]):
                continue
            ok = any(grants(prog, ti) for ti in f["in"])
            rep.check(ok, "exposes:" + f["n"], "[%s] %s returns exclusive access granted by its caller" % (cfg, f["n"]), "%s:%s" % (f["file"], f["line"]),
                      "%s returns an exclusive reference although it is only given shared ones" % f["n"])
        rep.notes["public_functions_" + cfg] = api


def _pubself(prog, f):
    t = prog.ty(f["self"])
    return t["k"] == "adt" and t["d"] in prog.adts and prog.adts[t["d"]]["reach"]
