"""Interned immutable values of the abstract domain.

T     symbolic term (operator + arguments)
Lin   affine integer expression over atoms (T)
Seq   contents of a Vec / array / slice: a tuple of pieces with affine lengths
Agg   struct / tuple / enum variant / closure / iterator with known shape
Ref   reference to a location (object id + path)
Sym   value of unknown shape named by a term
"""
import itertools

_ids = itertools.count(1)


class T:
    __slots__ = ("op", "args", "id")
    _tab = {}

    def __new__(cls, op, *args):
        k = (op, args)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.op = op
            o.args = args
            o.id = next(_ids)
            cls._tab[k] = o
        return o

    def kids(self):
        return self.args

    def _repr(self):
        if not self.args:
            return self.op
        return "%s(%s)" % (self.op, ",".join(show(a) for a in self.args))


TRUE = T("true")
FALSE = T("false")


class Lin:
    __slots__ = ("c", "t", "id", "_neg")
    _tab = {}

    def __new__(cls, c, t=()):
        k = (c, t)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.c = c
            o.t = t
            o.id = next(_ids)
            o._neg = None
            cls._tab[k] = o
        return o

    @staticmethod
    def atom(a, k=1):
        return Lin(0, ((a, k),))

    @staticmethod
    def make(c, d):
        return Lin(c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)))

    def __add__(self, o):
        if not isinstance(o, Lin):
            o = Lin(o)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return Lin.make(self.c + o.c, d)

    def __neg__(self):
        if self._neg is None:
            self._neg = Lin(-self.c, tuple((a, -k) for a, k in self.t))
        return self._neg

    def __sub__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    @property
    def const(self):
        return self.c if not self.t else None

    def kids(self):
        return tuple(a for a, _ in self.t)

    def _repr(self):
        s = []
        for a, k in self.t:
            s.append(("%s" % a) if k == 1 else "%d*%s" % (k, a))
        if self.c or not s:
            s.append(str(self.c))
        return "+".join(s)


ZERO = Lin(0)
ONE = Lin(1)


class Seq:
    """pieces: ('src', T, off Lin, len Lin) | ('lit', (v,...)) | ('fill', v, len Lin)"""
    __slots__ = ("p", "id", "_len")
    _tab = {}

    def __new__(cls, pieces):
        out = []
        for q in pieces:
            if q[0] == "src":
                if q[3] is ZERO:
                    continue
                if out and out[-1][0] == "src" and out[-1][1] is q[1] and (out[-1][2] + out[-1][3]) is q[2]:
                    out[-1] = ("src", q[1], out[-1][2], out[-1][3] + q[3])
                    continue
            elif q[0] == "lit":
                if not q[1]:
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + q[1])
                    continue
            elif q[0] == "fill":
                if q[2] is ZERO:
                    continue
                if q[2].const is not None and q[2].const <= 256:
                    q = ("lit", (q[1],) * q[2].const)
                    if out and out[-1][0] == "lit":
                        out[-1] = ("lit", out[-1][1] + q[1])
                        continue
                elif out and out[-1][0] == "fill" and out[-1][1] is q[1]:
                    out[-1] = ("fill", q[1], out[-1][2] + q[2])
                    continue
            out.append(q)
        t = tuple(out)
        o = cls._tab.get(t)
        if o is None:
            o = object.__new__(cls)
            o.p = t
            o.id = next(_ids)
            o._len = None
            cls._tab[t] = o
        return o

    @property
    def len(self):
        if self._len is None:
            n = ZERO
            for q in self.p:
                n = n + plen(q)
            self._len = n
        return self._len

    def __add__(self, o):
        return Seq(self.p + o.p)

    def kids(self):
        r = []
        for q in self.p:
            if q[0] == "src":
                r += [q[1], q[2], q[3]]
            elif q[0] == "lit":
                r += list(q[1])
            else:
                r += [q[1], q[2]]
        return r

    def whole(self):
        """the single source term if this is exactly one complete 'src' piece at offset 0"""
        if len(self.p) == 1 and self.p[0][0] == "src" and self.p[0][2] is ZERO:
            return self.p[0][1]
        return None

    def _repr(self):
        r = []
        for q in self.p:
            if q[0] == "src":
                r.append("%s[%s;+%s]" % (q[1], q[2], q[3]))
            elif q[0] == "lit":
                r.append("<%s>" % ",".join(show(v) for v in q[1][:20]) if len(q[1]) <= 20 else "<lit %d>" % len(q[1]))
            else:
                r.append("%s**(%s)" % (show(q[1]), q[2]))
        return "{" + "|".join(r) + "}"


def plen(q):
    if q[0] == "src":
        return q[3]
    if q[0] == "lit":
        return Lin(len(q[1]))
    return q[2]


EMPTY = Seq(())


class Agg:
    __slots__ = ("kind", "var", "f", "id")
    _tab = {}

    def __new__(cls, kind, var, fields):
        k = (kind, var, fields)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.kind = kind
            o.var = var
            o.f = fields
            o.id = next(_ids)
            cls._tab[k] = o
        return o

    def kids(self):
        return self.f

    def _repr(self):
        k = self.kind if isinstance(self.kind, str) else self.kind[1]
        return "%s#%s(%s)" % (k.split("::")[-1], self.var, ",".join(show(x) for x in self.f))


class Ref:
    """loc = (objid, path)"""
    __slots__ = ("obj", "path", "id", "aid")
    _tab = {}

    def __new__(cls, obj, path=()):
        k = (obj, path)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.obj = obj
            o.path = path
            o.id = next(_ids)
            cls._tab[k] = o
        return o

    def kids(self):
        r = []
        for e in self.path:
            if isinstance(e, tuple):
                r += [x for x in e[1:] if isinstance(x, Lin)]
        return r

    def __repr__(self):
        return "&%s%s" % (self.obj, list(self.path) if self.path else "")


class Sym:
    __slots__ = ("t", "ty", "id")
    _tab = {}

    def __new__(cls, t, ty):
        k = (t, ty)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.t = t
            o.ty = ty
            o.id = next(_ids)
            cls._tab[k] = o
        return o

    def kids(self):
        return (self.t,)

    def __repr__(self):
        return "~%s" % (self.t,)


class FnV:
    __slots__ = ("c", "id")

    def __init__(self, c):
        self.c = c
        self.id = next(_ids)

    def kids(self):
        return ()

    def __repr__(self):
        return "fn:%s" % self.c["n"]


UNIT = Agg("tuple", 0, ())


_shown = {}


def _short(x):
    s = _shown.get(x)
    if s is None:
        s = x._repr()
        if len(s) > 4000:
            s = s[:4000] + "..."
        _shown[x] = s
    return s


for _c in (T, Lin, Seq, Agg):
    _c.__repr__ = _short


def show(x):
    s = repr(x)
    return s if len(s) < 4000 else s[:4000] + "..."


def walk(v, seen=None):
    """all sub-terms of a value"""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not hasattr(x, "kids") or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.kids())
