"""std::map and std::set with known keys: every entry is a place of its own, elem(container, serial); the keys and their
serial numbers are part of the state, iterators name the serial number of the entry they stand at"""
from . import terms as t
from .spec import *
from .interp import TRUE, FALSE, Loc, Struct

END = num(-1)


class Missing(Exception):
    """an entry that must be there is not (where, what)"""


class Maps(object):
    def __init__(self, mine, exact):
        self.mine, self.exact = mine, exact
        self.n = 100

    # ---------------------------------------------------------------- the keys of a map
    def keys(self, st, c):
        v = read(st, fld(c, "#map"))
        if not isinstance(v, t.T) or v.op != "list":
            return []
        out = []
        for x in v.args[0]:
            k = tuple(int(t.numval(y)) for y in x.args[0][:-1])
            out.append((k if len(k) > 1 else k[0], int(t.numval(x.args[0][-1]))))
        return sorted(out)

    def put(self, st, c, ks):
        ent = [mk("list", tuple(num(y) for y in ((k if isinstance(k, tuple) else (k,)) + (s,)))) for k, s in ks]
        write(st, fld(c, "#map"), mk("list", tuple(ent)))

    def at(self, c, s):
        return at1(c, num(s))

    def add(self, st, c, key, isset=False):
        ks = self.keys(st, c)
        for k, s in ks:
            if k == key:
                return self.at(c, s), False
        self.n += 1
        p = self.at(c, self.n)
        f = p if isset else fld(p, "first")
        if isinstance(key, tuple):
            write(st, fld(f, "first"), num(key[0]))
            write(st, fld(f, "second"), num(key[1]))
        else:
            write(st, f, num(key))
        self.put(st, c, ks + [(key, self.n)])
        return p, True

    def get(self, st, c, key):
        for k, s in self.keys(st, c):
            if k == key:
                return self.at(c, s)
        return None

    # ---------------------------------------------------------------- keys in the program
    def key(self, I, st, v):
        num_ = lambda x: self.exact(x) if self.exact(x) is not None else self.exact(read(st, x))
        p = I.tm(v, st)
        while p.op == "app" and str(p.args[0]).startswith("ctor:std::pair") and len(p.args) == 2 and isinstance(p.args[1], t.T):
            p = p.args[1]
        if p.op == "app" and str(p.args[0]) == "std::minmax" and len(p.args) == 3:
            k = tuple(num_(x) for x in p.args[1:])
            if None not in k:
                return tuple(sorted(k))
        if p.op == "app" and str(p.args[0]).endswith("pair") and len(p.args) == 3:
            k = tuple(num_(x) for x in p.args[1:])
            if None not in k:
                return k
        k = self.exact(p)
        if k is None and p.op in ("fld", "elem", "local", "param"):
            k = self.exact(read(st, p))
            if k is None:
                a = tuple(self.exact(read(st, fld(p, f))) for f in ("first", "second"))
                k = a if None not in a else None
        if k is None:
            raise Undecided("key %s" % str(p)[:120])
        return k

    def after(self, st, it):
        c, s = it.args[0], t.numval(it.args[1])
        ks = self.keys(st, c)
        for j, (k, x) in enumerate(ks):
            if x == s:
                return mk("iter", c, num(ks[j + 1][1]) if j + 1 < len(ks) else END)
        raise Missing("an iterator is moved whose entry is gone")

    def hook(self, I, e, fr, st, name, fn, obj, this, argn):
        n = name.split("::")[-1]
        try:
            return self.hook_(I, e, fr, st, name, n, fn, obj, this, argn)
        except Missing as x:
            if len(x.args) == 1:
                raise Missing("%s:%d" % (fr.fn.file, e[1]), x.args[0])
            raise

    def hook_(self, I, e, fr, st, name, n, fn, obj, this, argn):
        if name == "#range":
            return [self.at(this, s) for _, s in self.keys(st, this)] if self.mine(this) and isinstance(read(st, fld(this, "#map")), t.T) and read(st, fld(this, "#map")).op == "list" else NotImplemented
        if "#" in n and ("_iterator" in name):
            op = n.split("#")[1]
            if op in ("++", "--") and argn:
                b = I.ev(argn[0], fr, st)
                v = I.rv(b, st)
                v = read(st, v) if isinstance(v, t.T) and v.op in ("local", "fld") else v
                if isinstance(v, t.T) and v.op == "iter" and self.mine(v.args[0]):
                    if op == "--":
                        raise Undecided("iterator moved back")
                    new = self.after(st, v)
                    if isinstance(b, Loc):
                        write(st, b.path, new)
                    return v if len(argn) > 1 else (b if isinstance(b, Loc) else new)
                return NotImplemented
        c = this
        if c is None and n.endswith("#[]") and "map" in name and argn:
            b = I.ev(argn[0], fr, st)
            if not isinstance(b, Loc):
                return NotImplemented
            c, argn, n = b.path, argn[1:], "[]"
        if c is None or fn is not None or not ("map::" in name or "set::" in name or "_Rb_tree" in name) or not self.mine(c):
            return NotImplemented
        isset = "set::" in name

        def vt():
            return fr.tu.types[e[2]]

        def k0():
            return self.key(I, st, I.rv(I.ev(argn[0], fr, st), st))
        ks = self.keys(st, c)
        if n in ("size",):
            return num(len(ks))
        if n == "empty":
            return FALSE if ks else TRUE
        if n in ("begin", "cbegin"):
            return mk("iter", c, num(ks[0][1]) if ks else END)
        if n in ("end", "cend"):
            return mk("iter", c, END)
        if n == "clear":
            self.put(st, c, [])
            return None
        if n in ("count", "at", "[]", "find") and len(argn) == 1:
            k = k0()
            p = self.get(st, c, k)
            if n == "count":
                return t.ZERO if p is None else t.ONE
            if n == "find":
                return mk("iter", c, END if p is None else p.args[1])
            if p is None and n == "at":
                raise Missing("the entry %s of %s is looked up and missing" % (k, str(c).lstrip("$")))
            if p is None:
                p, _ = self.add(st, c, k)
                if "vector" in vt() or "deque" in vt():
                    write(st, fld(fld(p, "second"), "#size"), t.ZERO)
            return Loc(fld(p, "second"), vt())
        if n == "erase" and len(argn) == 1:
            v = I.rv(I.ev(argn[0], fr, st), st)
            v = read(st, v) if isinstance(v, t.T) and v.op in ("local", "fld") else v
            if isinstance(v, t.T) and v.op == "iter":
                s = t.numval(v.args[1])
                if s not in [x for _, x in ks]:
                    raise Missing("an entry is erased that is not there")
                nx = self.after(st, v)
                self.put(st, c, [x for x in ks if x[1] != s])
                return nx
            k = self.key(I, st, v)
            self.put(st, c, [x for x in ks if x[0] != k])
            return num(len([x for x in ks if x[0] == k]))
        if n in ("insert", "emplace", "try_emplace", "insert_or_assign") and argn:
            if isset:
                p, new = self.add(st, c, k0(), True)
                return mk("app", "std::pair", mk("iter", c, p.args[1]), TRUE if new else FALSE)
            if len(argn) == 1:
                v = I.rv(I.ev(argn[0], fr, st), st)
                if isinstance(v, t.T) and v.op == "app" and str(v.args[0]).endswith("pair"):
                    a, b = v.args[1:]
                else:
                    q = I.tm(v, st)
                    a, b = read(st, fld(q, "first")), read(st, fld(q, "second"))
            else:
                a, b = (I.rv(I.ev(x, fr, st), st) for x in argn[:2])
            p, new = self.add(st, c, self.key(I, st, a))
            if new or n == "insert_or_assign":
                self.place(I, st, fld(p, "second"), b)
            return mk("app", "std::pair", mk("iter", c, p.args[1]), TRUE if new else FALSE)
        return NotImplemented

    def place(self, I, st, dst, v):
        if isinstance(v, t.T) and v.op == "app" and str(v.args[0]).endswith("pair") and len(v.args) == 3:
            self.place(I, st, fld(dst, "first"), v.args[1])
            self.place(I, st, fld(dst, "second"), v.args[2])
        elif isinstance(v, t.T) and v.op in ("local", "param", "fld", "elem"):
            write(st, dst, Struct(st.copy(), v))
        else:
            write(st, dst, v)
