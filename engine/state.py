"""Abstract machine state: store, numeric facts, boolean facts, enum-variant facts, events."""
from .terms import *
from .num import Facts, note_atom


class Ev:
    __slots__ = ("kind", "name", "args", "x", "span", "stack")

    def __init__(self, kind, name, args, x, span, stack):
        self.kind, self.name, self.args, self.x, self.span, self.stack = kind, name, args, x, span, stack

    def __repr__(self):
        return "<%s %s %s %s>" % (self.kind, self.name, [show(a)[:120] for a in self.args], self.x)


class State:
    __slots__ = ("store", "facts", "b", "vr", "ev", "univ", "wlog", "meta")

    def __init__(self):
        self.store = {}
        self.facts = Facts()
        self.b = {}
        self.vr = {}
        self.ev = None
        self.univ = ()
        self.wlog = ()
        self.meta = {}

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = self.facts.copy()
        s.b = dict(self.b)
        s.vr = dict(self.vr)
        s.ev = self.ev
        s.univ = self.univ
        s.wlog = self.wlog
        s.meta = dict(self.meta)
        return s

    def event(self, e):
        self.ev = (self.ev, e)

    def events(self):
        r = []
        x = self.ev
        while x is not None:
            r.append(x[1])
            x = x[0]
        return r[::-1]

    # ---- booleans -------------------------------------------------------
    def truth(self, b):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if isinstance(b, Lin):
            if b.const is not None:
                return b.c != 0
            return None
        if not isinstance(b, T):
            return None
        if b.op == "not":
            r = self.truth(b.args[0])
            return None if r is None else (not r)
        if b.op == "ge0":
            e = b.args[0]
            if self.facts.entails_ge(e):
                return True
            if self.facts.entails_ge(-e - 1):
                return False
            return None
        if b.op == "eq0":
            e = b.args[0]
            if self.facts.entails_eq(e):
                return True
            if self.facts.entails_ne(e):
                return False
            return None
        if b.op == "and":
            rs = [self.truth(x) for x in b.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if b.op == "or":
            rs = [self.truth(x) for x in b.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        return self.b.get(b)

    def assume(self, b, val):
        """returns False if contradictory"""
        t = self.truth(b)
        if t is not None:
            if t == val:
                # keep explicit record of the atom for gate analyses
                self._note(b, val)
                return True
            return False
        if isinstance(b, T) and b.op == "not":
            return self.assume(b.args[0], not val)
        if isinstance(b, T) and b.op == "ge0":
            e = b.args[0]
            self.facts.add_ge(e if val else -e - 1)
            self._strengthen()
            return not self.facts.infeasible()
        if isinstance(b, T) and b.op == "eq0":
            e = b.args[0]
            if val:
                self.facts.add_eq(e)
                self._note(b, val)
                return not self.facts.infeasible()
            if self.facts.entails_ge(e):
                self.facts.add_ge(e - 1)
            elif self.facts.entails_ge(-e):
                self.facts.add_ge(-e - 1)
            self.facts.add_ne(e)
            self._note(b, val)
            return True
        if isinstance(b, T) and b.op == "and" and val:
            return all(self.assume(x, True) for x in b.args)
        if isinstance(b, T) and b.op == "or" and not val:
            return all(self.assume(x, False) for x in b.args)
        self._note(b, val)
        return True

    def _note(self, b, val):
        if isinstance(b, T):
            if b.op == "not":
                self._note(b.args[0], not val)
            elif b.op not in ("true", "false", "ge0"):
                self.b[b] = val

    def _strengthen(self):
        for e in list(self.facts.ne):
            if e.id % 1 == 0 and self.facts.entails_ge(e):
                self.facts.add_ge(e - 1)

    def ge(self, a, b):
        return self.facts.entails_ge(a - b)

    def eq(self, a, b):
        return self.facts.entails_eq(a - b)


# ---- sequences --------------------------------------------------------------

def seq_slice(st, s, off, n):
    if off is ZERO and n is s.len:
        return s
    if n is ZERO:
        return EMPTY
    f = st.facts
    p = ZERO
    i = 0
    pcs = s.p
    while i < len(pcs):
        l = plen(pcs[i])
        if f.entails_ge(off - p - l):
            p = p + l
            i += 1
            continue
        break
    out = []
    end = off + n
    cur = off
    while i < len(pcs):
        q = pcs[i]
        l = plen(q)
        if f.entails_ge(p + l - end):
            r = _sub(q, cur - p, end - cur)
            if r is None:
                r = ("src", T("seq", Seq(pcs[i:])), cur - p, end - cur)
            out.append(r)
            cur = end
            break
        if f.entails_ge(end - p - l):
            if not f.entails_ge(p + l - cur):
                break
            r = _sub(q, cur - p, p + l - cur)
            if r is None:
                break
            out.append(r)
            cur = p + l
            p = p + l
            i += 1
            if cur is end:
                break
            continue
        break
    if cur is not end and not f.entails_eq(end - cur):
        out.append(("src", T("seq", Seq(pcs[i:])), cur - p, end - cur))
    return Seq(out)


def _sub(q, off, n):
    if q[0] == "src":
        return ("src", q[1], q[2] + off, n)
    if q[0] == "fill":
        return ("fill", q[1], n)
    if off.const is not None and n.const is not None:
        return ("lit", q[1][off.const:off.const + n.const])
    return None


def seq_get(st, s, idx):
    """element value, or a term naming it"""
    f = st.facts
    p = ZERO
    pcs = s.p
    i = 0
    while i < len(pcs):
        l = plen(pcs[i])
        if f.entails_ge(idx - p - l):
            p = p + l
            i += 1
            continue
        break
    if i < len(pcs):
        q = pcs[i]
        l = plen(q)
        if f.entails_ge(p + l - idx - 1):
            if q[0] == "src":
                return Sym(T("elem", q[1], q[2] + idx - p), None)
            if q[0] == "fill":
                return q[1]
            o = idx - p
            if o.const is not None and 0 <= o.const < len(q[1]):
                return q[1][o.const]
            if all(x is q[1][0] for x in q[1]):
                return q[1][0]
            return Sym(T("elem", T("seq", Seq((q,))), o), None)
        if len(pcs) == 1 and q[0] == "src":
            return Sym(T("elem", q[1], q[2] + idx), None)
        if len(pcs) == 1 and q[0] == "fill":
            return q[1]
    if len(pcs) == 1 and pcs[0][0] == "src":
        return Sym(T("elem", pcs[0][1], pcs[0][2] + idx), None)
    return Sym(T("elem", T("seq", s), idx), None)


def seq_put(st, s, off, mid):
    """replace [off, off+len(mid)) by mid"""
    n = mid.len
    f = st.facts
    a = seq_slice(st, s, ZERO, off)
    rest = s.len - off - n
    if rest is ZERO or f.entails_eq(rest):
        return a + mid
    b = seq_slice(st, s, off + n, rest)
    return a + mid + b
