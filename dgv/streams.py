"""What a routine writes to and reads from a stream, as a tree of events: tokens, separators, loops over them."""
from . import terms as t
from .interp import Ev, Loc, fld, write, read, Undecided
from .terms import mk


def last(n):
    return n.split("::")[-1]


def isstream(fr, node):
    ty = fr.tu.types[node[2]] if len(node) > 2 and isinstance(node[2], int) else ""
    return "stream" in ty and "streamsize" not in ty


def spath(I, v, st):
    return v.path if isinstance(v, Loc) else I.tm(v, st)


def isbuf(I, v, st):
    return isinstance(v, t.T) and v.op == "app"


def hook(more=None):
    """records ("out", stream, value | ("sep" text)), ("in", stream, path), ("skip", stream), ("line", stream, path)"""

    def h(I, e, fr, st, name, fn, obj, this, argn):
        if more is not None:
            r = more(I, e, fr, st, name, fn, obj, this, argn)
            if r is not NotImplemented:
                return r
        if name.endswith("#<<") and len(argn) == 2 and isstream(fr, argn[0]) or last(name) == "operator<<" and fn is None and this is not None:
            if name.endswith("#<<"):
                left, rn = I.ev(argn[0], fr, st), argn[1]
            else:
                left, rn = Loc(this), argn[0]
            rec(I, e, fr, st, left, rn)
            return left
        if name.endswith("#>>") and len(argn) == 2 and isstream(fr, argn[0]):
            left = I.ev(argn[0], fr, st)
            lv = I.ev(argn[1], fr, st)
            if not isinstance(lv, Loc):
                if man(argn[1]):
                    return left
                raise Undecided("input into %s" % str(lv)[:80])
            write(st, lv.path, mk("app", "tok", lv.path))
            st.events.append(Ev("ev", "in", (spath(I, left, st), lv.path, mk("app", "ty", strip(fr.tu.types[argn[1][2]]))), fr.fn.file, e[1]))
            return left
        if last(name) == "ignore" and "stream" in name:
            a = [I.tm(I.rv(I.ev(x, fr, st), st), st) for x in argn]
            st.events.append(Ev("ev", "skip", (this,) + tuple(a), fr.fn.file, e[1]))
            return obj
        if last(name) == "getline" and len(argn) >= 2:
            s, l = I.ev(argn[0], fr, st), I.ev(argn[1], fr, st)
            write(st, l.path, mk("app", "line", l.path, *( [I.tm(I.rv(I.ev(argn[2], fr, st), st), st)] if len(argn) > 2 else [])))
            st.events.append(Ev("ev", "line", (spath(I, s, st), l.path), fr.fn.file, e[1]))
            return s
        if last(name) == "close" and "stream" in name:
            st.events.append(Ev("ev", "close", (this,), fr.fn.file, e[1]))
            return None
        if last(name) == "file_exists":
            return t.TRUE if hasattr(t, "TRUE") else NotImplemented
        return NotImplemented

    return h


def strip(ty):
    return ty.replace("const ", "").replace("&", "").strip()


MANIP = ("endl", "flush", "scientific", "fixed", "setw", "setprecision", "boolalpha", "noboolalpha", "left", "right", "setfill", "defaultfloat")


def man(n):
    """(name, argument) if the node is a stream manipulator"""
    while n and n[0] == "cast":
        n = n[4]
    if n[0] in ("call", "ref"):
        nm = last(n[4])
        if nm in MANIP:
            return nm, (n[5][0] if n[0] == "call" and n[5] else None)
    if n[0] == "ctor" and len(n) > 5 and n[5]:
        return man(n[5][0])
    return None


def rec(I, e, fr, st, left, rn):
    m = man(rn)
    s = spath(I, left, st)
    if m is not None:
        if m[0] == "endl":
            st.events.append(Ev("ev", "out", (s, mk("str", "\n"), mk("app", "ty", "char")), fr.fn.file, e[1]))
        else:
            a = () if m[1] is None else (I.tm(I.rv(I.ev(m[1], fr, st), st), st),)
            st.events.append(Ev("ev", "manip", (s, mk("str", m[0])) + a, fr.fn.file, e[1]))
        return
    v = I.tm(I.rv(I.ev(rn, fr, st), st), st)
    ty = strip(fr.tu.types[rn[2]])
    if rn[0] == "cast":
        b = rn
        while b[0] == "cast" and len(b) > 4 and "Integral" not in str(b[3]):
            b = b[4]
    st.events.append(Ev("ev", "out", (s, v, mk("app", "ty", ty)), fr.fn.file, e[1]))


# ---------------------------------------------------------------- what a reader makes of what a writer wrote
class Mismatch(Exception):
    pass


def text(v):
    """literal text of an output value, None for data"""
    if v.op == "str":
        return v.args[0]
    return None


class W(object):
    """writer items: ("tok", value, type, where, precision) | ("sep", text) | ("loop", n, var, items, ev) | ("if", cond, a, b)"""

    def __init__(self, stream):
        self.stream = stream
        self.prec = 6

    def items(self, evs):
        out = []
        for e in evs:
            if e.kind == "ev" and e.name in ("out", "manip"):
                if self.stream is not None and e.args[0] is not self.stream:
                    continue
                if e.name == "manip":
                    continue
                v = e.args[1]
                ty = e.args[2].args[1]
                if isinstance(ty, t.T):
                    ty = str(ty)
                if "_Setprecision" in ty:
                    n = v.args[1] if v.op == "app" and len(v.args) > 1 else None
                    self.prec = int(t.numval(n)) if isinstance(n, t.T) and t.numval(n) is not None else None
                    continue
                if "_Setw" in ty or "_Set" in ty:
                    out.append(("width", int(t.numval(v.args[1])) if v.op == "app" and len(v.args) > 1 and isinstance(v.args[1], t.T) and t.numval(v.args[1]) is not None else 0))
                    continue
                s = text(v)
                if s is None and ty == "char" and t.numval(v) is not None:
                    s = chr(int(t.numval(v)))
                if s is not None:
                    out.append(("sep", s))
                else:
                    out.append(("tok", v, ty, e, self.prec))
            elif e.kind == "loop":
                kids = self.items(e.kids)
                if kids:
                    out.append(("loop", e, kids))
            elif e.kind == "if":
                a, b = self.items(e.kids[0]), self.items(e.kids[1])
                if a or b:
                    out.append(("if", e.args[0], a, b))
            elif e.kind != "ev":
                out += self.items(e.kids)
        return out


def r_items(evs, decide=None):
    """decide(cond) -> whether the branch is taken, None if it depends"""
    out = []
    for e in evs:
        if e.kind == "ev":
            if e.name in ("in", "skip", "line"):
                out.append((e.name,) + tuple(e.args) + (e,))
        elif e.kind == "loop":
            kids = r_items(e.kids, decide)
            if kids:
                out.append(("loop", e, kids))
        elif e.kind == "if":
            a, b = r_items(e.kids[0], decide), r_items(e.kids[1], decide)
            d = decide(e.args[0]) if decide is not None and (a or b) else None
            if d is not None:
                out += a if d else b
            elif a or b:
                out.append(("if", e.args[0], a, b))
        else:
            out += r_items(e.kids, decide)
    return out


def wsize(items):
    return sum(1 if i[0] == "tok" else wsize(i[2]) if i[0] == "loop" else wsize(i[2]) + wsize(i[3]) if i[0] == "if" else 0 for i in items)


def norm(v):
    """an entry of a map found by the key of an entry is that entry"""
    for _ in range(8):
        m = {}

        def see(x):
            if x.op == "elem":
                c, k = x.args
                if k.op == "fld" and k.args[1] == "first" and k.args[0].op == "elem" and k.args[0].args[0] is c:
                    m[x] = mk("fld", k.args[0], "second")
        t.walk(v, see)
        if not m:
            return v
        v = t.subst(v, m)
    return v


class Match(object):
    def __init__(self, alias=None):
        self.env = {}          # token read / loop index of the reader -> what was written
        self.alias = alias or {}
        self.pairs = []        # (value written, path read, writer event, reader event)
        self.gap = True
        self.note = False
        self.lines = None
        self.dropped = []

    def back(self, p):
        """a term of the reader in terms of what was written"""
        for _ in range(8):
            q = t.subst(p, self.env)
            q = t.subst(q, self.alias)
            if q is p:
                break
            p = q
        return norm(p)

    def blank(self, ws):
        while ws and ws[0][0] in ("sep", "width"):
            if ws[0][0] == "sep" and ws[0][1].strip():
                return
            if ws[0][0] == "sep":
                self.gap = self.gap or bool(ws[0][1])
            else:
                self.wide = ws[0][1]
            ws.pop(0)

    def tok(self, ws, ev):
        self.wide = 0
        self.blank(ws)
        if not ws:
            raise Mismatch(("the reader expects a value where the writer has written everything", ev))
        i = ws[0]
        if i[0] == "sep":
            raise Mismatch(("the reader takes the text %r for a value" % i[1], ev))
        if i[0] != "tok":
            raise Mismatch(("the reader expects one value where the writer writes a varying number", ev))
        if not self.gap and not self.wide >= (22 if "double" in i[2] else 11):
            raise Mismatch(("the value %s is written without a separator before it" % i[1], i[3]))
        ws.pop(0)
        self.gap = False
        self.note = False
        return i

    def skip(self, ws, ev):
        out = []
        while True:
            if not ws:
                raise Mismatch(("the reader discards the rest of a line that does not end", ev))
            i = ws.pop(0)
            if i[0] == "sep":
                if "\n" in i[1]:
                    a, b = i[1].split("\n", 1)
                    if a:
                        out.append(("sep", a))
                    if b:
                        ws.insert(0, ("sep", b))
                    self.gap = True
                    self.note = False
                    return out
                if i[1].strip():
                    self.note = True
                out.append(i)
            elif i[0] == "tok":
                if not self.note:
                    self.dropped.append(i)
                out.append(i)
            elif i[0] == "width":
                out.append(i)
            else:
                raise Mismatch(("the reader discards a line that holds a varying number of values", ev))

    def run(self, ws, rs, main=None):
        ws = list(ws)
        for r in rs:
            if r[0] == "in":
                src = ws if main is None or r[1] is main or self.lines is None else self.lines
                i = self.tok(src, r[-1])
                self.env[mk("app", "tok", r[2])] = i[1]
                self.pairs.append((i[1], r[2], i[3], r[-1], i[2], str(r[3].args[1]), i[4]))
            elif r[0] == "skip":
                src = ws if main is None or r[1] is main or self.lines is None else self.lines
                if src is self.lines:
                    src.append(("sep", "\n"))
                n0 = len(self.dropped)
                self.skip(src, r[-1])
                if len(self.dropped) > n0:
                    raise Mismatch(("the value %s written is discarded by the reader" % self.dropped[-1][1], r[-1]))
            elif r[0] == "line":
                self.lines = self.skip(ws, r[-1])
                self.dropped = []
            elif r[0] == "loop":
                self.blank(ws)
                ev = r[1]
                if not ws or ws[0][0] != "loop":
                    raise Mismatch(("the reader repeats reading where the writer writes %s" % ("nothing more" if not ws else "something once"), ev))
                w = ws.pop(0)
                if ev.name != "while":
                    lo, hi = self.back(ev.args[0]), self.back(ev.args[1])
                    wlo, whi = w[1].args
                    if lo is not norm(wlo) or hi is not norm(whi):
                        raise Mismatch(("the reader reads %s times what the writer writes %s times" % (hi if lo is t.num(0) else "%s to %s" % (lo, hi), whi), ev))
                    if ev.extra is not None and w[1].extra is not None:
                        self.env[ev.extra] = w[1].extra
                body = w[2]
                if len(body) == 1 and body[0][0] == "if" and not wsize(body[0][3]):
                    body = body[0][2]
                g0 = self.gap
                for k in range(2):
                    n = len(self.pairs)
                    rest = self.run(body, r[2], main)
                    if wsize(rest):
                        raise Mismatch(("the writer writes %s, the reader does not read it" % first(rest)[1], first(rest)[3]))
                    self.blank(rest)
                    if rest:
                        raise Mismatch(("the text %r written is left for the next value" % rest[0][1], ev))
                    if k == 0:
                        keep = self.pairs[:]
                self.pairs = keep
                self.gap = self.gap and g0
            elif r[0] == "if":
                raise Undecided("branch of the reader on %s" % str(r[1])[:200])
        return ws

    def whole(self, ws, rs, main=None):
        rest = self.run(ws, rs, main)
        if wsize(rest):
            raise Mismatch(("the writer writes %s, the reader does not read it" % first(rest)[1], first(rest)[3]))


def first(ws):
    for i in ws:
        if i[0] == "tok":
            return i
        if i[0] in ("loop", "if"):
            r = first(i[2]) or (first(i[3]) if i[0] == "if" else None)
            if r:
                return r
