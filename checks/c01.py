"""C01: every constant of a standardised algorithm has the standard's value."""
import re
from . import refs


def flat(v):
    if isinstance(v, dict):
        if "ref" in v:
            return flat(v["ref"])
        if v.get("adt") and "f" in v and len(v["f"]) == 1:
            return flat(v["f"][0])
        return None
    if isinstance(v, list):
        out = []
        for x in v:
            if isinstance(x, bool):
                return None
            if isinstance(x, int):
                out.append(x)
            else:
                y = flat(x)
                if y is None:
                    return None
                out += y
        return out
    return None


def operands(f):
    for b in f["blocks"]:
        for s in b["s"]:
            if s[0] == "=":
                yield from _ops(s[2], s[3])
        t = b["t"]
        if t[0] == "call":
            for o in t[2]:
                yield o, b["sp"]
        elif t[0] == "switch":
            yield t[1], b["sp"]


def _ops(rv, line):
    if isinstance(rv, dict):
        yield rv, line
    elif isinstance(rv, list):
        for x in rv[1:]:
            if isinstance(x, (dict, list)):
                yield from _ops(x, line) if not (isinstance(x, list) and x and isinstance(x[0], int)) else ()


def module(path):
    return path.split("::")[1]


class Pool:
    def __init__(self, prog):
        self.lists = []        # (values, where, module)
        self.ints = {}         # module -> {value: where}
        self.fnints = {}       # fn -> set
        self.fnstr = {}
        for d, c in prog.consts.items():
            v = c.get("v")
            w = "%s:%s (%s)" % (c["span"][0], c["span"][1], c["n"])
            if isinstance(v, int):
                self.ints.setdefault(module(d), {})[v] = w
            fl = flat(v)
            if fl:
                self.lists.append((fl, w, module(d)))
        for d, f in prog.fns.items():
            w = "%s:%s (%s)" % (f["file"], f["line"], f["n"])
            key = d.split("#p")[0]
            for o, line in operands(f):
                if not isinstance(o, dict) or o.get("k") != "const":
                    continue
                v = o.get("v")
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    t = prog.ty(o["t"])
                    bits = t.get("bits") or 64
                    v &= (1 << bits) - 1
                    self.ints.setdefault(module(d), {})[v] = w
                    self.fnints.setdefault(key, set()).add(v)
                elif isinstance(v, dict):
                    s = v
                    while isinstance(s, dict) and "ref" in s:
                        s = s["ref"]
                    if isinstance(s, dict) and "str" in s:
                        self.fnstr.setdefault(key, []).append((s["str"], line))
                fl = flat(v)
                if fl:
                    self.lists.append((fl, w, module(d)))
            for b in f["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "array":
                        vs = [o.get("v") for o in s[2][2]]
                        if vs and all(isinstance(x, int) for x in vs):
                            self.lists.append((vs, "%s:%s (%s)" % (f["file"], s[3], f["n"]), module(d)))


def check(progs, rep):
    rep.rule("table", "some constant of the module (named item or literal) equals the reference entry by entry")
    rep.rule("literal-set", "a body that uses most of a reference set of literals uses all of it")
    for cfg, prog in progs.items():
        pool = Pool(prog)
        _tables(prog, pool, rep, cfg)
        _sets(prog, pool, rep, cfg)
        _curves(prog, pool, rep, cfg)
    rep.notes["configurations"] = sorted(progs)


def _need(pool, rep, cfg, mods, name, alts):
    for vals, w, m in pool.lists:
        if m in mods and vals in alts:
            rep.hold("[%s] %s: %d entries equal, %s" % (cfg, name, len(vals), w))
            return
    best = None
    for vals, w, m in pool.lists:
        if m not in mods:
            continue
        for a in alts:
            if len(a) == len(vals):
                d = [i for i in range(len(a)) if a[i] != vals[i]]
                if best is None or len(d) < len(best[0]):
                    best = (d, w, [(i, hex(vals[i]), hex(a[i])) for i in d[:4]])
    if best:
        rep.violation("%s:%s" % (name, "value"), "%s: no constant has the standard's value; the closest differs in %d entries, e.g. (index, found, standard) %s"
                      % (name, len(best[0]), best[2]), best[1])
    else:
        rep.violation("%s:missing" % name, "%s: no table of this size in module %s" % (name, "/".join(mods)))


def _tables(prog, pool, rep, cfg):
    if cfg == "B":
        for n, v in refs.aes().items():
            _need(pool, rep, cfg, ["aes"], n, [v])
    for fn, mods in ((refs.sha, ["sha"]), (refs.md5, ["md5"]), (refs.sm3, ["sm3"]), (refs.sm4, ["sm4"]), (refs.zuc, ["zuc"]),
                     (refs.p256, ["elliptic"]), (refs.p224, ["elliptic"])):
        for n, v in fn().items():
            _need(pool, rep, cfg, mods, n, [v])
    for n, alts in refs.des().items():
        _need(pool, rep, cfg, ["des"], n, list(alts))
    for n, h in refs.PKCS1.items():
        _need(pool, rep, cfg, ["rsa"], "PKCS#1 digest prefix of " + n, [list(bytes.fromhex(h))])
    # limb constants that must be multiples of the prime
    p224, p256 = refs.CURVES["P-224"]["p"], refs.CURVES["P-256"]["p"]
    zero = 0
    for vals, w, m in pool.lists:
        if m != "elliptic":
            continue
        v28 = sum(x << (28 * i) for i, x in enumerate(vals))
        if len(vals) == 8 and any(vals) and max(vals) >= 1 << 30:
            zero += 1
            rep.check(v28 % p224 == 0, "P-224 zero offset", "[%s] P-224 subtraction offset is a multiple of p: %s" % (cfg, w), w)
        if len(vals) == 9 and any(vals) and max(vals) >= 1 << 30:
            zero += 1
            v = sum(x << (57 * (i // 2) + 29 * (i % 2)) for i, x in enumerate(vals))
            rep.check(v % p256 == 0, "P-256 zero offset", "[%s] P-256 subtraction offset is a multiple of p: %s" % (cfg, w), w)
    rep.check(zero >= 3, "zero offsets", "[%s] %d field subtraction offsets found" % (cfg, zero))


def _sets(prog, pool, rep, cfg):
    def sets(name, ref, mod):
        n = 0
        for f, vals in pool.fnints.items():
            if module(f) != mod:
                continue
            have = ref & vals
            if len(have) * 2 > len(ref) or have == ref:
                n += 1
                miss = sorted(ref - vals)
                rep.check(not miss, "%s:%s" % (name, prog.fns[f]["name"]), "[%s] %s: all %d literals present in %s" % (cfg, name, len(ref), f),
                          "%s:%s" % (prog.fns[f]["file"], prog.fns[f]["line"]), "%s: %s lacks %s" % (name, f, [hex(x) for x in miss]))
        if n == 0:
            lists = [set(v) for v, w, m in pool.lists if m == mod]
            anyw = any(ref <= l for l in lists) or ref <= set(pool.ints.get(mod, {}))
            rep.check(anyw, name + ":missing", "[%s] %s present in module %s" % (cfg, name, mod))
    sets("MD5 round constants", set(refs.MD5_K), "md5")
    sets("SM3 round constants", {0x79cc4519, 0x7a879d8a}, "sm3")
    names = {c["n"].split("::")[-1]: (c.get("v"), c) for c in prog.consts.values()}
    cm = pool.ints.get("cmac", {})
    for bits, v in refs.CMAC_RB.items():
        nm = "RB_%d" % bits
        if nm in names:
            w = names[nm][1]["span"]
            rep.check(names[nm][0] == v, "CMAC constant %d" % bits, "[%s] CMAC constant for %d-bit blocks is %#x" % (cfg, bits, v), "%s:%s" % tuple(w))
        else:
            rep.check(v in cm, "CMAC constant %d" % bits, "[%s] CMAC constant %#x present" % (cfg, v), "src/cmac")
    hm = pool.ints.get("hmac", {})
    for n, v in (("inner", 0x36), ("outer", 0x5c)):
        rep.check(v in hm, "HMAC %s pad" % n, "[%s] HMAC %s pad byte %#x present" % (cfg, n, v), "src/hmac")


def num(s):
    s = s.strip().lower()
    if re.fullmatch(r"0x[0-9a-f]+", s):
        return int(s, 16)
    if re.fullmatch(r"[0-9]{20,}", s):
        return int(s)
    return None


def _curves(prog, pool, rep, cfg):
    allv = {}
    for f, ss in pool.fnstr.items():
        if module(f) != "elliptic":
            continue
        for s, line in ss:
            v = num(s)
            if v is not None:
                allv.setdefault(f, {})[v] = line
    for name, c in refs.CURVES.items():
        best, score = None, 0
        for f, vs in allv.items():
            k = sum(1 for x in ("p", "n", "b", "gx", "gy") if c[x] in vs)
            if k > score:
                best, score = f, k
        if not best:
            rep.violation("curve %s:missing" % name, "no function builds the parameters of %s" % name)
            continue
        fn = prog.fns[best]
        for x in ("p", "n", "b", "gx", "gy"):
            rep.check(c[x] in allv[best], "curve %s:%s" % (name, x), "[%s] %s parameter %s has the standard's value in %s" % (cfg, name, x, best),
                      "%s:%s" % (fn["file"], fn["line"]))
        _built(prog, rep, cfg, name, c, fn)


def _built(prog, rep, cfg, name, c, fn):
    """the parameter object as built: each value in its place, and the size of the field in bits"""
    from .common import Run, Budget, Undecided, Timeout, walk, where
    from .bigs import Nums
    from .gates import wide
    from engine.terms import Agg, Lin, Seq, T
    try:
        run = Run(prog, fn, Nums(prog), wide)
        outs = [run.I.freeze(s, v) for s, v in run.ok()]
    except (Budget, Undecided, Timeout, ValueError, KeyError, AttributeError):
        outs = []
    objs = {o for v in outs for o in walk(v) if isinstance(o, Agg) and len(o.f) > 5}
    if len(objs) != 1:
        rep.notes.setdefault("undecided", []).append("curve %s: what %s builds" % (name, fn["n"]))
        rep.obl += 1
        return
    o, = objs
    adt = prog.adts.get(prog.tys[o.ty].get("d")) if getattr(o, "ty", None) is not None and isinstance(o.ty, int) else None
    adt = adt or next((a for a in prog.adts.values() if a["n"].endswith("CurveParams")), None)
    fs = adt["vars"][0]["f"] if adt else []
    for f, x in zip(fs, o.f):
        if f["n"] in ("p", "n", "b", "gx", "gy"):
            lit = [num(bytes(int(y.const) for y in p[1]).decode()) for t in walk(x) if isinstance(t, Seq) for p in t.p if p[0] == "lit" and all(isinstance(y, Lin) and y.const is not None and 0 < y.const < 128 for y in p[1])]
            if len(lit) == 1:
                rep.check(lit[0] == c[f["n"]], "curve %s:%s" % (name, f["n"]), "[%s] %s: the parameter object holds %s in its place" % (cfg, name, f["n"]), where(fn))
        elif isinstance(x, Lin) and x.const is not None:
            rep.check(x.const == c["p"].bit_length(), "curve %s:bits" % name, "[%s] %s: size of the field is %d bits" % (cfg, name, c["p"].bit_length()), where(fn),
                      text="%s: the size of the field is given as %d bits, it has %d" % (name, x.const, c["p"].bit_length()))
