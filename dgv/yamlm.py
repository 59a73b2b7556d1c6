"""A model of the YAML library: documents are trees, nodes are references into them, an emitter is the list of what it was
given.  Known strings and calendar times are computed."""
import calendar
import time as clock

from . import terms as t
from .terms import mk, num
from .interp import TRUE, FALSE, Ev, Loc, Struct, Undecided, fld, read, write


KIND = {"str": "std::string", "double": "double", "uint": "unsigned int", "bool": "bool"}


class Leaf(object):
    def __init__(self, kind, term):
        self.kind, self.term = kind, term

    def __repr__(self):
        return "%s:%s" % (self.kind, self.term)


def S(s):
    return Leaf("str", mk("str", s))


NULL = Leaf("null", None)


def whole(v):
    """a known whole number"""
    n = t.numval(v) if isinstance(v, t.T) else None
    return int(n) if n is not None and n.denominator == 1 else None


def find(doc, keys):
    for k in keys:
        if not isinstance(doc, dict) or k not in doc:
            return None
        doc = doc[k]
    return doc


def plain(v):
    """a known string"""
    out = []

    def go(x):
        if isinstance(x, str):
            out.append(x)
        elif x.op == "str":
            out.append(x.args[0])
        elif x.op == "app" and x.args[0] == "strcat":
            for a in x.args[1:]:
                if isinstance(a, t.T) and whole(a) is not None:
                    out.append(chr(whole(a)))
                else:
                    go(a)
        elif x.op == "app" and str(x.args[0]).split("::")[-1] == "to_string" and whole(x.args[1]) is not None:
            out.append(str(whole(x.args[1])))
        else:
            raise Undecided("a string that is not known: %s" % x)
    go(v)
    return "".join(out)


def known(v):
    try:
        return plain(v)
    except (Undecided, AttributeError, TypeError):
        return None


class Yaml(object):
    """hook of the interpreter for documents `docs`: name of file -> tree"""

    def __init__(self, docs, more=None):
        self.docs, self.more = docs, more
        self.keys = set()
        self.trees = {}
        self.cout = []

    # ------------------------------------------------ nodes
    def node(self, I, x, st):
        """canonical path of a node value"""
        st2 = st
        if isinstance(x, Struct):
            st2, p = x.state, x.path
            if x.state is not st:
                tr = self.tree(x.state, self.follow(x.state, p))
                if tr is None and self.follow(x.state, p).op == "yread":
                    return self.follow(x.state, p)
                k = mk("ytree", len(self.trees))
                self.trees[k] = tr
                return k
        elif isinstance(x, Loc):
            p = x.path
        else:
            p = x
        return self.follow(st2, p)

    def follow(self, st, p):
        for _ in range(20):
            a = read(st, fld(p, "#alias"))
            if isinstance(a, t.T) and a.op in ("ynref",):
                p = a.args[0]
                continue
            v = read(st, p)
            if isinstance(v, t.T) and v.op == "ynref":
                p = v.args[0]
                continue
            if isinstance(v, t.T) and v.op in ("yread", "ytree"):
                return v
            return p
        raise Undecided("nodes that refer to themselves")

    def sub(self, st, p, key):
        if p.op == "yread":
            return mk("yread", *(p.args + (key,)))
        if p.op == "ytree":
            raise Undecided("a node of a copied document")
        self.keys.add(key)
        return self.follow(st, fld(p, "#key " + key))

    def tree(self, st, p):
        """what a node holds"""
        p = self.follow(st, p)
        if p.op == "ytree":
            return self.trees[p]
        if p.op == "yread":
            return find(self.docs.get(p.args[0]), p.args[1:])
        v = read(st, fld(p, "#value"))
        if isinstance(v, t.T) and v.op == "yval":
            return Leaf(v.args[0], v.args[1])
        out = {}
        for k in sorted(self.keys):
            q = fld(p, "#key " + k)
            if read(st, fld(q, "#made")) == TRUE:
                out[k] = self.tree(st, q)
        return out if out else None

    def mark(self, st, p):
        """a node that is written to exists, with those above it"""
        while p.op == "fld" and str(p.args[1]).startswith("#key "):
            write(st, fld(p, "#made"), TRUE)
            p = p.args[0]

    def defined(self, st, p):
        return self.tree(st, p) is not None

    def text(self, I, fr, st, x):
        v = I.rv(I.ev(x, fr, st), st)
        if isinstance(v, Struct):
            v = read(v.state, v.path)
        s = known(I.tm(v, st))
        if s is None:
            raise Undecided("a key that is not known: %s" % (I.tm(v, st),))
        return s

    def asval(self, st, p, ty, default=None):
        d = self.tree(st, p)
        if d is None and default is not None:
            return default
        if d is None or isinstance(d, dict) or d.kind == "null":
            return None
        if d.kind in ("any", ) or d.kind == ty:
            return d.term
        if ty == "str" and d.kind != "str":
            return mk("app", "text", d.term)
        if ty == "double" and d.kind == "uint":
            return d.term
        return mk("app", "as:" + str(ty), d.term)

    def __call__(self, I, e, fr, st, name, fn, obj, this, argn):
        n = name.split("::")[-1]
        ty = fr.tu.types[e[2]] if isinstance(e[2], int) and e[2] < len(fr.tu.types) else ""
        if self.more is not None:
            r = self.more(I, e, fr, st, name, fn, obj, this, argn)
            if r is not NotImplemented:
                return r
        if "YAML::" in name:
            return self.yaml(I, e, fr, st, name, n, ty, obj, this, argn)
        if name.endswith("#<<") and len(argn) == 2 and "Emitter" in fr.tu.types[I_ty(fr, argn[0])]:
            return self.emit(I, e, fr, st, argn)
        if name.startswith("std::") and "basic_string" in name:
            return self.string(I, e, fr, st, name, n, obj, this, argn)
        if n in ("strptime", "strftime", "timegm", "difftime", "mktime"):
            return self.time(I, e, fr, st, n, argn)
        return NotImplemented

    def yaml(self, I, e, fr, st, name, n, ty, obj, this, argn):
        if n == "LoadFile":
            return Loc(mk("yread", self.text(I, fr, st, argn[0])), "YAML::Node")
        if name.endswith("#<<"):
            return self.emit(I, e, fr, st, argn)
        if name.endswith("#[]"):
            b = self.node(I, I.ev(argn[0], fr, st), st)
            return Loc(self.sub(st, b, self.text(I, fr, st, argn[1])), "YAML::Node")
        if name.endswith("#="):
            l = I.ev(argn[0], fr, st)
            self.assign(I, fr, st, l.path, argn[1])
            return l
        if name.endswith("#!"):
            return FALSE if self.defined(st, self.node(I, I.ev(argn[0], fr, st), st)) else TRUE
        if n == "Node" and obj is None and e[0] == "ctor":
            if not argn:
                return NotImplemented
            if len(argn) == 1:
                v = I.ev(argn[0], fr, st)
                if "YAML::" in tyof(fr, argn[0]):
                    return mk("ynref", self.node(I, v, st))
            return NotImplemented
        if this is None:
            return NotImplemented
        p = self.follow(st, this)
        if isinstance(obj, Struct) and obj.state is not st:
            p = self.node(I, obj, st)
        if n == "operator bool" or n == "IsDefined":
            return TRUE if self.defined(st, p) else FALSE
        if n == "operator!":
            return FALSE if self.defined(st, p) else TRUE
        d = self.tree(st, p)
        if n == "IsNull":
            return TRUE if isinstance(d, Leaf) and d.kind == "null" else FALSE
        if n == "IsMap":
            return TRUE if isinstance(d, dict) else FALSE
        if n == "IsScalar":
            return TRUE if isinstance(d, Leaf) and d.kind != "null" else FALSE
        if n == "size":
            return num(len(d)) if isinstance(d, dict) else num(0)
        if n == "as":
            k = "str" if "string" in ty else "double" if ty == "double" else "uint" if ty == "unsigned int" else "bool" if ty == "bool" else ty
            dv = None
            if argn:
                dv = I.rv(I.ev(argn[0], fr, st), st)
                dv = I.tm(dv, st)
            v = self.asval(st, p, k, dv)
            if v is None:
                I.dead = True          # the library throws
                return mk("str", "?") if k == "str" else t.ZERO
            return v
        if n == "c_str":
            return mk("app", "emitted", p)
        if n == "good":
            return TRUE
        return NotImplemented

    def assign(self, I, fr, st, p, x):
        v = I.ev(x, fr, st)
        if "YAML::" in tyof(fr, x):
            q = self.node(I, v, st)
            self.mark(st, p)
            write(st, p if not (p.op == "fld" and str(p.args[1]).startswith("#key ")) else fld(p, "#alias"), mk("ynref", q))
            return
        if isinstance(v, Struct):
            v = read(v.state, v.path)
        v = I.tm(I.rv(v, st), st)
        if v.op == "addr":
            q = v.args[0].args[0] if v.args[0].op == "elem" else v.args[0]
            b = read(st, fld(q, "#text"))
            v = b if isinstance(b, t.T) and b.op == "str" else v
        self.mark(st, p)
        write(st, fld(p, "#value"), mk("yval", kindof(tyof(fr, x)), v))

    def emit(self, I, e, fr, st, argn):
        l = I.ev(argn[0], fr, st)
        ty = tyof(fr, argn[1])
        if "YAML::Node" in ty:
            v = I.ev(argn[1], fr, st)
            q = self.node(I, v, st)
            k = mk("ytree", len(self.trees))
            self.trees[k] = self.tree(st, q)
            a = k
        else:
            v = I.rv(I.ev(argn[1], fr, st), st)
            if isinstance(v, Struct):
                v = read(v.state, v.path)
            a = I.tm(v, st)
            if "YAML::" in ty:
                a = mk("app", "manip", mk("str", marker(argn[1])))
            else:
                a = mk("yval", kindof(ty), a)
        st.events.append(Ev("ev", "#emit", (l.path, a), fr.fn.file if fr.fn else "", e[1]))
        return l

    # ------------------------------------------------ strings
    def string(self, I, e, fr, st, name, n, obj, this, argn):
        if this is None or isinstance(obj, Struct) and obj.state is not st:
            if not isinstance(obj, Struct):
                return NotImplemented
            s = known(read(obj.state, obj.path))
        else:
            v = read(st, this)
            s = known(v) if isinstance(v, t.T) else None
        if s is None:
            return NotImplemented

        def arg(k):
            v = I.rv(I.ev(argn[k], fr, st), st)
            if isinstance(v, Struct):
                v = read(v.state, v.path)
            return I.tm(v, st)

        def pos(k):
            v = arg(k)
            if whole(v) is not None:
                return whole(v)
            if isinstance(v, t.T) and "npos" in str(v):
                return 2 ** 64 - 1
            raise Undecided("a position in a string: %s" % v)

        def txt(k):
            v = arg(k)
            if whole(v) is not None:
                return chr(whole(v))
            return plain(v)
        big = num(2 ** 64 - 1)
        if n in ("find_last_of", "rfind", "find", "find_first_of", "find_last_not_of"):
            x = txt(0)
            if len(argn) > 1 and pos(1) not in (2 ** 64 - 1, -1, 0 if n in ("find", "find_first_of") else -1):
                raise Undecided("search from a position")
            k = (s.rfind(x) if n == "rfind" else s.find(x) if n == "find" else
                 max([i for i, c in enumerate(s) if c in x] or [-1]) if n == "find_last_of" else
                 max([i for i, c in enumerate(s) if c not in x] or [-1]) if n == "find_last_not_of" else
                 min([i for i, c in enumerate(s) if c in x] or [-1]))
            return big if k < 0 else num(k)
        if n == "substr":
            a = pos(0) if argn else 0
            m = pos(1) if len(argn) > 1 and argn[1][0] != "defarg" else 2 ** 64 - 1
            if a > len(s):
                I.dead = True
                return None
            return mk("str", s[a:] if m < 0 or m > len(s) else s[a:a + m])
        if n in ("insert", "append", "push_back", "erase", "pop_back", "replace"):
            if n == "insert":
                a = pos(0)
                if a > len(s):
                    I.dead = True
                    return None
                s = s[:a] + txt(1) + s[a:]
            elif n in ("append", "push_back"):
                s += txt(0)
            elif n == "pop_back":
                s = s[:-1]
            elif n == "erase":
                a = pos(0)
                m = pos(1) if len(argn) > 1 else len(s)
                s = s[:a] + (s[a + m:] if 0 <= m < len(s) else "")
            else:
                a, m = pos(0), pos(1)
                s = s[:a] + txt(2) + s[a + m:]
            write(st, this, mk("str", s))
            return obj
        if n == "back":
            return num(ord(s[-1]))
        if n == "front":
            return num(ord(s[0]))
        if n in ("size", "length"):
            return num(len(s))
        if n == "empty":
            return TRUE if not s else FALSE
        if n == "compare":
            x = txt(0)
            return num(0 if x == s else 1 if s > x else -1)
        if n == "c_str" or n == "data":
            return mk("str", s)
        return NotImplemented

    # ------------------------------------------------ times
    FIELDS = ("tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec")

    def tm(self, I, v, st):
        v = I.rv(v, st) if not isinstance(v, t.T) else v
        if isinstance(v, t.T) and v.op == "addr":
            return v.args[0]
        raise Undecided("a time that is not an object")

    def time(self, I, e, fr, st, n, argn):
        a = [I.ev(x, fr, st) for x in argn]

        def fields(p):
            out = []
            for f in self.FIELDS:
                v = read(st, fld(p, f))
                if whole(v) is None:
                    raise Undecided("a time that is not known")
                out.append(whole(v))
            return out

        def s(k):
            return plain(I.tm(I.rv(a[k], st), st))
        if n == "strptime":
            p = self.tm(I, a[2], st)
            try:
                x = clock.strptime(s(0), s(1))
            except ValueError:
                raise Undecided("the time %s does not have the form %s" % (s(0), s(1)))
            fm = s(1)
            for f, c, v in zip(self.FIELDS, ("%Y", "%m", "%d", "%H", "%M", "%S"), (x.tm_year - 1900, x.tm_mon - 1, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec)):
                if c in fm:
                    write(st, fld(p, f), num(v))
            return mk("str", "")
        if n == "strftime":
            p = self.tm(I, a[3], st)
            y, mo, d, h, mi, sec = fields(p)
            x = clock.strftime(s(2), (y + 1900, mo + 1, d, h, mi, sec, 0, 1, 0))
            lim = I.tm(I.rv(a[1], st), st)
            b = I.rv(a[0], st)
            if not isinstance(b, t.T) or whole(lim) is None:
                raise Undecided("a buffer")
            q = b.args[0] if b.op == "addr" else b
            if q.op == "elem":
                q = q.args[0]
            write(st, fld(q, "#text"), mk("str", x if len(x) < whole(lim) else "?"))
            return num(len(x))
        if n in ("timegm", "mktime"):
            y, mo, d, h, mi, sec = fields(self.tm(I, a[0], st))
            v = calendar.timegm((y + 1900, mo + 1, d, h, mi, sec))
            return num(v) if n == "timegm" else mk("app", "local time", num(v))
        x, y = [I.tm(I.rv(v, st), st) for v in a]
        return t.sub(x, y)


def kindof(ty):
    ty = ty.replace("const ", "").replace("&", "").strip()
    if "string" in ty or "char" in ty:
        return "str"
    return {"double": "double", "unsigned int": "uint", "bool": "bool"}.get(ty, ty)


def tyof(fr, x):
    return fr.tu.types[I_ty(fr, x)]


def I_ty(fr, x):
    return x[2]


def marker(x):
    """the name of an enumerator of the library"""
    out = []

    def go(y):
        if isinstance(y, (list, tuple)):
            if y and y[0] == "ref":
                out.append(str(y[4]).split("::")[-1])
            if y and y[0] == "enum":
                out.append(str(y[3]).split("::")[-1])
            for z in y:
                go(z)
    go(x)
    return out[0] if out else "?"
