"""P19: the mesh that is simulated is the mesh in the file: formats read back what they write, cells that share an edge are
linked along it, sides are classified as the file says, and a cut mesh is put together again."""
from .. import terms as t, streams as io
from ..spec import *
from ..interp import TRUE, FALSE, Loc, Struct, fld, intval
from ..evalt import Ev

R = range
THIS = mk("this")
WHITE = (9, 10, 11, 12, 13, 32)


def last(n):
    return n.split("::")[-1]


def one(P, name, pred=lambda f: True):
    fs = [f for f in P.find(name) if pred(f)]
    if len(fs) != 1:
        raise Undecided("%d functions %s" % (len(fs), name))
    return fs[0]


def wh(ev, fn):
    return ev.where() if ev is not None and ev.line else fn.where()


def resub(items, m):
    """writer items with terms replaced"""
    out = []
    for i in items:
        if i[0] == "tok":
            out.append(("tok", m(i[1])) + i[2:])
        elif i[0] == "loop":
            e = i[1]
            e2 = type(e)(e.kind, e.name, tuple(m(a) for a in e.args), e.file, e.line, kids=e.kids, extra=e.extra)
            out.append(("loop", e2, resub(i[2], m)))
        elif i[0] == "if":
            out.append(("if", i[1], resub(i[2], m), resub(i[3], m)))
        else:
            out.append(i)
    return out


def same_extent(v):
    """the vectors of an element have one length (rule extent)"""
    m = {}

    def see(x):
        if x.op == "fld" and x.args[1] == "#size" and x.args[0].op == "fld" and x.args[0].args[1] in ("neighbor_ID", "boundary_type"):
            m[x] = fld(fld(x.args[0].args[0], "node_ID"), "#size")
    t.walk(v, see)
    return t.subst(v, m) if m else v


def functions(P):
    for tu in P.tus.values():
        for f in tu.fns.values():
            yield f


def members(P, cls):
    """data members of a class that some code uses"""
    out = set()
    for f in functions(P):
        for n in P.nodes(f):
            if n[0] == "mem" and len(n) > 7 and n[7] == cls:
                out.add(n[4])
    return out


def numeric(ty):
    for k in ("double", "float"):
        if k in ty:
            return "real"
    if "char" in ty and "basic_string" not in ty:
        return "char"
    if "basic_string" in ty:
        return "text"
    return "integer"


def compare(ctx, rule, tag, m, fnw, fnr, root=None, local=()):
    """each value lands where it came from"""
    bad = {}
    for val, path, we, re_, wt, rt, prec in m.pairs:
        p = m.back(path)
        rootp = p
        while rootp.op in ("fld", "elem"):
            rootp = rootp.args[0]
        name = str(io.norm(val))
        name = __import__("re").sub(r"<\d+>", "", name).replace("this.", "")
        inst = "%s %s" % (tag, name)
        msg = ""
        if rootp.op == "local" or str(rootp).startswith("$"):
            # a count or a name: it must have been used for something
            if not m.used(path):
                msg = "the value %s is read and not used" % name
        elif p is not io.norm(val):
            msg = "the value of %s is read back as %s" % (io.norm(val), p)
        if not msg and numeric(wt) != numeric(rt):
            msg = "%s is written as %s and read as %s" % (name, wt, rt)
        if not msg and numeric(wt) == "real" and (prec or 0) < 15:
            msg = "%s is written with %s digits" % (name, prec)
        ctx.ob(rule, inst, not msg, wh(we if msg and "digits" in msg else re_, fnr), msg)


class M(io.Match):
    def __init__(self, alias=None, events=()):
        io.Match.__init__(self, alias)
        self.seen = set()

        def look(evs):
            for e in evs:
                for a in e.args:
                    if isinstance(a, t.T) and e.name != "in":
                        t.walk(a, self.seen.add)
                for k in e.kids:
                    look(k if isinstance(k, (list, tuple)) else [k])
                if e.name == "in":
                    for a in e.args[1:2]:
                        t.walk(a, self.seen.add)
        look(events)

    def used(self, path):
        return mk("app", "tok", path) in self.seen or path in self.seen


def formats(ctx, P, tag, writer, reader, wmap=lambda v: v, alias=None, decide=None, wpick=None, rmain=None, need=(), classes=()):
    h = io.hook()
    a = Run(P, writer, None, ctx=ctx, hook=h, decide=decide)
    b = Run(P, reader, None, ctx=ctx, hook=h, decide=decide)
    if a.st is None or b.st is None:
        raise Undecided("no normal end")
    wevs = wpick(a.st.events) if wpick else a.st.events
    revs = b.st.events
    rs = io.r_items(revs, decide)
    ws = resub(io.W(None).items(wevs), wmap)
    al = dict(alias(revs) if alias else {})
    m = M(al, revs)
    main = rs[0][1] if rs and rs[0][0] in ("in", "skip", "line") else None
    try:
        m.whole(ws, rs, main)
    except io.Mismatch as x:
        msg, ev = x.args[0]
        ctx.ob("format", tag + " layout", False, wh(ev, reader), msg)
        return m
    ctx.ob("format", tag + " layout", True, reader.where(), "")
    compare(ctx, "format", tag, m, writer, reader)
    got = " ".join(str(m.back(p)) for _, p, _, _, _, _, _ in m.pairs)
    for cls in classes:
        for f in sorted(members(P, cls)):
            ctx.ob("format", "%s keeps %s.%s" % (tag, cls, f), "." + f in got or ".#" in got and False, writer.where(), "%s of %s is not kept" % (f, cls))
    return m


def enum(P):
    """the boundary kinds"""
    out = {}
    for f in functions(P):
        for n in P.nodes(f):
            if n[0] == "enum" and "BoundaryTypes" in f.tu.types[n[2]]:
                out[last(n[3])] = int(n[4])
    return out


def truth(v):
    """of a condition without unknowns"""
    if v is TRUE or v is FALSE:
        return v is TRUE
    unknown = []
    t.walk(v, lambda x: unknown.append(x) if x.op in ("param", "fld", "elem", "this", "tok", "q", "glob", "local") or x.op == "app" and x.args[0] not in ("mod",) else None)
    return None if unknown else bool(Ev(1).tr(v, {}))


def inserted(evs):
    """local -> entry of the map it is inserted in"""
    out = {}
    for o in flat(evs):
        if o.kind == "ev" and last(o.name) in ("insert", "emplace") and len(o.args) >= 2:
            a = o.args[1]
            if a.op == "app" and "pair" in str(a.args[0]):
                k, v = a.args[1], a.args[2]
            elif len(o.args) == 3:
                k, v = o.args[1], o.args[2]
            else:
                continue
            if isinstance(v, t.T) and str(v).startswith("$"):
                out[v] = at1(o.args[0], k)
    return out


def flat(evs):
    for e in evs:
        yield e
        for k in e.kids:
            for x in flat(k if isinstance(k, (list, tuple)) else [k]):
                yield x


def run(ctx):
    ctx.rule("format", "every value that is written is read back into the same place of the same record, with a separator before it and enough digits, and nothing is left over", 150)
    P = ctx.prog("meta", "adcirc")
    W, Rd = one(P, "MeshMetaData::write_to"), one(P, "MeshMetaData::MeshMetaData", lambda f: "string" in f.psig)
    ctx.guard("format", "mesh file", Rd.where(), lambda: formats(ctx, P, "mesh file", W, Rd, wmap=same_extent, classes=("MeshMetaData", "ElementMetaData", "NodeMetaData")))
    adcirc(ctx, P)
    Q = ctx.prog("part", "meta")
    ctx.rule("cut", "the rank boundary files list every edge between two sub-domains once, in the same order on both sides, with the cells and sides it has, and are read back from the side of the reader", 40)
    Wc, Rc = one(Q, "write_distributed_edge_metadata"), one(Q, "DistributedBoundaryMetaData::DistributedBoundaryMetaData", lambda f: "string" in f.psig)
    E = enum(ctx.prog("meta", "adcirc", "swein"))
    for parts in PARTS:
        for big in (False, True):
            tag = parts + (", large names" if big else "")
            ctx.guard("cut", tag, Wc.where(), lambda: cut(ctx, Q, Wc, Rc, tag, parts, E, big), 200)
    A = ctx.prog("adcirc", "meta")
    ctx.guard("format", "no generic boundaries", "", lambda: empty(ctx, A))
    ctx.rule("kinds", "an edge on a boundary gets the kind of that boundary, whichever way it is given, the end of a levee is land, any other edge is rejected; the edge behind a levee edge joins the nodes behind", 70)
    kinds(ctx, A, E)
    ctx.rule("sides", "each cell keeps its nodes, counterclockwise; the side opposite to a node is linked to the cell that has the same two nodes, or to the cell behind the levee, or has the kind of its boundary and no neighbour", 60)
    f = one(P, "MeshMetaData::MeshMetaData", lambda f: "Adcirc" in f.psig)
    for big in (False, True):
        ctx.guard("sides", "mesh with %s names" % ("large" if big else "small"), f.where(), lambda: sides(ctx, P, f, big), 200)


def adcirc(ctx, P):
    W, Rd = one(P, "AdcircFormat::write_to"), one(P, "AdcircFormat::AdcircFormat", lambda f: "string" in f.psig)
    for kind in (0, 1, 2, 4, 10, 11, 12, 20, 21, 22, 24, 77, 88):
        def decide(c, kind=kind):
            m = {}

            def see(x):
                if x.op == "app" and x.args[0] == "tok" and ".IBTYPE[" in str(x.args[1]) or x.op == "elem" and str(x.args[0]).endswith(".IBTYPE"):
                    m[x] = num(kind)
            t.walk(c, see)
            if c.op == "ex" or c.op == "not" and c.args[0].op == "ex":
                x = c if c.op == "ex" else c.args[0]
                d = t.subst(x.args[2], {k: v for k, v in m.items() if k.op == "app"})
                if truth(d) is False:
                    return c.op != "ex"
                return None
            if "find_first_not_of" in str(c):
                return "npos" not in str(c) or str(c).startswith("!")
            if not m:
                return None
            top = [k for k in m if k.op == "app"] or list(m)
            v = t.subst(c, {k: m[k] for k in top})
            return truth(v)
        tag = "ADCIRC file with boundary kind %d" % kind
        ctx.guard("format", tag, Rd.where(), lambda: formats(ctx, P, tag, W, Rd, alias=inserted, decide=decide))


# ---------------------------------------------------------------- which side is whose
class Broken(Exception):
    pass


class Maps(object):
    """maps with known keys: each entry is a place of its own"""

    def __init__(self, mine):
        self.d = {}
        self.n = 0
        self.mine = mine        # container path -> is it ours
        self.sets = set()

    def add(self, st, c, key):
        ent = self.d.setdefault(c, [])
        for k, p in ent:
            if k == key:
                return p, False
        self.n += 1
        p = mk("param", 1000 + self.n, "entry%d" % self.n)
        ent.append((key, p))
        if self.isset(c):
            write(st, fld(p, "first"), num(key[0]))
            write(st, fld(p, "second"), num(key[1]))
        elif isinstance(key, tuple):
            write(st, fld(fld(p, "first"), "first"), num(key[0]))
            write(st, fld(fld(p, "first"), "second"), num(key[1]))
        else:
            write(st, fld(p, "first"), num(key))
        write(st, c, mk("list", tuple(x for _, x in ent)))
        return p, True

    def isset(self, c):
        return c in self.sets

    def key(self, I, st, v):
        try:
            a, b = pair(I, st, v)
            a, b = [exact(read(st, x) if exact(x) is None else x) for x in (a, b)]
            if a is not None and b is not None:
                return (a, b)
        except (AttributeError, TypeError):
            pass
        k = exact(I.tm(v, st))
        if k is None:
            k = exact(read(st, I.tm(v, st)))
        if k is None:
            raise Undecided("key %s" % str(I.tm(v, st))[:120])
        return k

    def hook(self, I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)
        ret = None
        if this is None and name.endswith("map::operator[]#[]") and argn:
            b = I.ev(argn[0], fr, st)
            this, argn, n = b.path, argn[1:], "[]"
            obj = b
        if this is None or fn is not None or not ("map::" in name or "set::" in name) or not (this in self.d or self.mine(this)):
            return NotImplemented

        def vt():
            return fr.tu.types[e[2]]
        if n in ("count", "at", "[]") and len(argn) == 1:
            k = self.key(I, st, I.rv(I.ev(argn[0], fr, st), st))
            ks = [x for x, _ in self.d.get(this, [])]
            if n == "count":
                return t.ONE if k in ks else t.ZERO
            if k not in ks:
                if n == "[]":
                    p = fld(self.add(st, this, k)[0], "second")
                    if "deque" in vt() or "vector" in vt():
                        write(st, fld(p, "#size"), num(0))
                    return Loc(p, vt())
                raise Broken("the entry %s of %s is looked up and missing" % (k, str(this).lstrip("$")), "%s:%d" % (fr.fn.file, e[1]))
            return Loc(fld(self.d[this][ks.index(k)][1], "second"), vt())
        if n == "find" and len(argn) == 1 and "map::" in name:
            k = self.key(I, st, I.rv(I.ev(argn[0], fr, st), st))
            ks = [x for x, _ in self.d.get(this, [])]
            i = ks.index(k) if k in ks else len(ks)
            for j, (_, p) in enumerate(self.d.get(this, [])):
                for f in ("first", "second"):
                    I.alias[fld(at1(this, num(j)), f)] = fld(p, f)
            return mk("iter", this, num(i))
        if n in ("end", "cend") and not argn:
            return mk("iter", this, num(len(self.d.get(this, []))))
        if n == "erase" and len(argn) == 1:
            k = self.key(I, st, I.rv(I.ev(argn[0], fr, st), st))
            self.d[this] = [x for x in self.d.get(this, []) if x[0] != k]
            write(st, this, mk("list", tuple(x for _, x in self.d[this])))
            return None
        if n in ("insert", "emplace") and argn and "set::" in name:
            self.sets.add(this)
            return mk("app", "inserted", self.add(st, this, self.key(I, st, I.rv(I.ev(argn[0], fr, st), st)))[0])
        if n in ("insert", "emplace") and argn:
            if len(argn) == 1:
                v = I.rv(I.ev(argn[0], fr, st), st)
                v = pair(I, st, v)
            else:
                v = (I.rv(I.ev(argn[0], fr, st), st), I.rv(I.ev(argn[1], fr, st), st))
            k = self.key(I, st, v[0])
            p, new = self.add(st, this, k)
            if new:
                place(I, st, fld(p, "second"), v[1])
            return mk("app", "inserted", p)
        if n == "size":
            return num(len(self.d.get(this, [])))
        return NotImplemented


def exact(v):
    """whole number of a term without unknowns"""
    n = t.numval(v)
    if n is not None:
        return int(n) if n.denominator == 1 else None
    if v.op == "poly":
        try:
            return int(whole(v))
        except (Undecided, ValueError):
            return None
    try:
        return whole(v)
    except Undecided:
        return None


def whole(v):
    n = t.numval(v)
    if n is not None and n.denominator == 1:
        return int(n)
    if v.op == "app":
        a = [whole(x) for x in v.args[1:]]
        f = {"bitor": lambda x, y: x | y, "bitand": lambda x, y: x & y, "bitxor": lambda x, y: x ^ y, "min": min, "max": max, "mod": lambda x, y: x % y,
             "shl": lambda x, y: x << y, "shr": lambda x, y: x >> y, "floor": lambda x: x, "idiv": lambda x, y: x // y}.get(v.args[0])
        if f:
            return f(*a)
    if v.op == "poly":
        s = 0
        for mon, c in v.args[0]:
            p = int(c)
            for x, k in mon:
                p *= whole(x) ** k
            s += p
        return s
    raise Undecided("number %s" % str(v)[:100])


def pair(I, st, v):
    if isinstance(v, t.T) and v.op == "app" and str(v.args[0]).endswith("pair") and len(v.args) == 3:
        return v.args[1], v.args[2]
    p = I.tm(v, st)
    if p.op == "app" and str(p.args[0]).endswith("pair") and len(p.args) == 3:
        return p.args[1], p.args[2]
    return read(st, fld(p, "first")), read(st, fld(p, "second"))


def place(I, st, dst, v):
    if isinstance(v, t.T) and v.op == "app" and str(v.args[0]).endswith("pair") and len(v.args) == 3:
        place(I, st, fld(dst, "first"), v.args[1])
        place(I, st, fld(dst, "second"), v.args[2])
    elif isinstance(v, t.T) and v.op in ("local", "param", "fld", "elem"):
        write(st, dst, Struct(st.copy(), v))
    else:
        write(st, dst, v)


# nodes: name -> position; elements: name -> nodes as the file lists them (some clockwise); levee: 60-61-62 in front of 70-71-72
def mesh(big):
    node = {}
    pos = {1: (0, 0), 2: (1, 0), 3: (0, 1), 4: (1, 1), 5: (2, 0), 6: (2, 1), 7: (0, 2), 8: (1, 2), 9: (2, 2), 60: (5, 0), 61: (5, 1), 62: (4, 0), 70: (6, 0), 71: (6, 1), 72: (7, 0)}
    ids = dict(zip(sorted(pos), range(1, 99))) if not big else {1: 1, 2: 65537, 3: 65538, 4: 131075, 5: 4294967290, 6: 7, 7: 4294901763, 8: 70001, 9: 3, 60: 65536, 61: 131072, 62: 2, 70: 4, 71: 262144, 72: 8}
    tri = [(1, 2, 3), (4, 3, 2), (2, 4, 5), (4, 6, 5), (3, 7, 4), (8, 7, 4), (4, 8, 9), (6, 4, 9), (62, 60, 61), (70, 72, 71)]
    name = R(10, 10 + len(tri)) if not big else [5, 4294967200, 1, 9, 0, 7, 100000, 3, 2, 11]
    for k, p in pos.items():
        node[ids[k]] = p
    return node, {n: tuple(ids[k] for k in x) for n, x in zip(name, tri)}, (ids[60], ids[61]), (ids[70], ids[71])


def ccw(node, x):
    a, b, c = (node[k] for k in x)
    return (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]) > 0


def sides(ctx, P, f, big):
    tag = "mesh with %s names" % ("large" if big else "small")
    node, elts, front, back = mesh(big)
    mf, st = X(mk("param", 0, "mesh_file")), State()
    mine = lambda p: p.op == "local" or p in (fld(THIS, "elements"), fld(THIS, "nodes"))
    m = Maps(mine)
    for k, p in node.items():
        e, _ = m.add(st, mf.nodes.p, k)
        write(st, fld(e, "second"), mk("list", (num(p[0]), num(p[1]), num(0))))
    for k, x in elts.items():
        e, _ = m.add(st, mf.elements.p, k)
        write(st, fld(e, "second"), mk("list", (num(3),) + tuple(num(i) for i in x)))
    edges = {}
    for k, x in elts.items():
        for i in R(3):
            edges.setdefault(frozenset((x[(i + 1) % 3], x[(i + 2) % 3])), []).append(k)
    outer = [s for s, ks in edges.items() if len(ks) == 1]
    kinds = {}
    E = enum(P)
    for j, s in enumerate(sorted(outer, key=sorted)):
        kinds[s] = E["levee"] if s in (frozenset(front), frozenset(back)) else [E["land"], E["tide"], E["flow"]][j % 3]
    asked = []

    def nodes_of(I, fr, st, a):
        v = I.ev(a, fr, st)
        out = []
        for i in R(2):
            x = I.tm(I.rv(v, st), st)
            x = x.args[0][i] if x.op == "list" else read(st, at1(I.tm(v, st) if not isinstance(v, Loc) else v.path, num(i)))
            out.append(exact(x))
        return tuple(out)

    def hook(I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)
        if n == "get_ibtype":
            s = nodes_of(I, fr, st, argn[0])
            if frozenset(s) not in kinds:
                raise Broken("the boundary kind of (%s, %s) is asked for, which is no boundary edge" % s, "%s:%d" % (fr.fn.file, e[1]))
            return num(kinds[frozenset(s)])
        if n == "get_internal_node_pair":
            s = nodes_of(I, fr, st, argn[0])
            o = back if set(s) == set(front) else front
            p = mk("local", "np", len(asked) + 5000)
            asked.append(s)
            write(st, p, mk("list", (num(o[1]), num(o[0]))))
            return Loc(p, fr.tu.types[e[2]])
        return m.hook(I, e, fr, st, name, fn, obj, this, argn)
    try:
        r = Run(P, f, None, ctx=ctx, state=st, hook=hook, decide=truth, unroll=200)
    except Broken as x:
        ctx.ob("sides", tag, False, x.args[1], x.args[0])
        return
    if r.st is None:
        raise Undecided("no normal end")
    got = dict(m.d.get(fld(THIS, "elements"), []))
    ctx.ob("sides", tag + " cells", set(got) == set(elts), f.where(), "the cells are %s, must be %s" % (sorted(got), sorted(elts)))
    nn = dict(m.d.get(fld(THIS, "nodes"), []))
    for k, p in node.items():
        v = [exact(read(r.st, at1(fld(fld(nn[k], "second"), "coordinates"), num(i)))) for i in R(2)] if k in nn else None
        ctx.ob("sides", "%s node %d" % (tag, k), v == list(p), f.where(), "node %d is at %s, must be at %s" % (k, v, p))
    for k, x in elts.items():
        if k not in got:
            continue
        e = X(fld(got[k], "second"))
        mine_ = [exact(read(r.st, at1(e.node_ID.p, num(i)))) for i in R(3)]
        how = "clockwise" if not ccw(node, x) else "counterclockwise"
        ctx.ob("sides", "%s nodes of cell %d (%s)" % (tag, k, how), sorted(mine_) == sorted(x) and ccw(node, mine_), f.where(), "the cell has the nodes %s, listed %s in the file; its sides belong to %s listed counterclockwise" % (mine_, how, list(x)))
        tri = mine_ if ccw(node, mine_) else [mine_[2], mine_[1], mine_[0]]     # as the shape orders its corners
        for i in R(3):
            s = frozenset((tri[(i + 1) % 3], tri[(i + 2) % 3]))
            others = [o for o in edges[s] if o != k]
            nb, ty = exact(read(r.st, at1(e.neighbor_ID.p, num(i)))), exact(read(r.st, at1(e.boundary_type.p, num(i))))
            if others:
                wn, wt = others[0], E["internal"]
            else:
                wt = kinds[s]
                wn = edges[frozenset(back if s == frozenset(front) else front)][0] if wt == E["levee"] else 4294967295
            ctx.ob("sides", "%s cell %d (%s) side %d" % (tag, k, how, i), nb == wn and ty == wt, f.where(), "side %d of the cell with nodes %s has neighbour %s and kind %s, must have %s and %s" % (i, mine_, nb, ty, wn, wt))


# ---------------------------------------------------------------- a mesh that is cut
def linked(node, elts, front, back, E):
    """cell -> (counterclockwise nodes, neighbours, kinds)"""
    tri = {k: (x if ccw(node, x) else (x[2], x[1], x[0])) for k, x in elts.items()}
    own = {}
    for k, x in tri.items():
        for i in R(3):
            own.setdefault(frozenset((x[(i + 1) % 3], x[(i + 2) % 3])), []).append((k, i))
    out = {}
    for k, x in tri.items():
        nb, ty = [], []
        for i in R(3):
            s = frozenset((x[(i + 1) % 3], x[(i + 2) % 3]))
            o = [c for c, _ in own[s] if c != k]
            if s in (frozenset(front), frozenset(back)):
                nb.append(own[frozenset(back if s == frozenset(front) else front)][0][0])
                ty.append(E["levee"])
            elif o:
                nb.append(o[0])
                ty.append(E["internal"])
            else:
                nb.append(4294967295)
                ty.append(E["land"])
        out[k] = (x, nb, ty)
    return out


def put(st, p, k, x, nb, ty):
    e = X(fld(p, "second"))
    for f, v in ((e.node_ID, x), (e.neighbor_ID, nb), (e.boundary_type, ty)):
        write(st, f.p, mk("list", tuple(num(i) for i in v)))


PARTS = {"two ranks": lambda cells: [[cells[::2]], [cells[1::2]]],
         "three sub-domains on two ranks": lambda cells: [[cells[:4], cells[7:]], [cells[4:7], []]],
         "one rank with two sub-domains": lambda cells: [[cells[:5], cells[5:]]],
         "three ranks with two sub-domains": lambda cells: [[cells[0:2], cells[2:3]], [cells[3:5], cells[5:6]], [cells[6:8], cells[8:]]]}


def cut(ctx, P, Wf, Rf, tag, parts, E, big):
    node, elts, front, back = mesh(big)
    full = linked(node, elts, front, back, E)
    cells = list(elts)
    sub = PARTS[parts](cells)
    home = {c: (l, s) for l, x in enumerate(sub) for s, y in enumerate(x) for c in y}
    st = State()
    mm, sm = X(mk("param", 2, "mesh_meta")), mk("param", 3, "submeshes")
    maps = Maps(lambda p: p.op == "local")
    for k, (x, nb, ty) in full.items():
        put(st, maps.add(st, mm.elements.p, k)[0], k, x, nb, ty)
    write(st, fld(sm, "#size"), num(len(sub)))
    for l, x in enumerate(sub):
        write(st, fld(at1(sm, num(l)), "#size"), num(len(x)))
        for s_, y in enumerate(x):
            c = fld(at1(at1(sm, num(l)), num(s_)), "elements")
            maps.d.setdefault(c, [])
            write(st, c, mk("list", ()))
            for k in y:
                a, nb, ty = full[k]
                ty = [v + 64 if v >= 128 and home[n] != (l, s_) else v for v, n in zip(ty, nb)]
                put(st, maps.add(st, c, k)[0], k, a, nb, ty)
    h = io.hook(maps.hook)
    args = [mk("param", 0, "file_name"), None, Loc(mm.p, Wf.tu.types[Wf.params[2][2]]), Loc(sm, Wf.tu.types[Wf.params[3][2]])]
    try:
        r = Run(P, Wf, ["file_name", "input", "mesh_meta", "submeshes"], args=args, ctx=ctx, state=st, hook=h, decide=truth, unroll=300,
                event=lambda n: n.endswith("ofstream::basic_ofstream"))
    except Broken as x:
        ctx.ob("cut", tag, False, x.args[1], x.args[0])
        return
    if r.st is None:
        raise Undecided("no normal end")
    # what each file holds
    files, cur = {}, None
    for ev in r.st.events:
        if ev.kind == "ev" and ev.name.endswith("basic_ofstream"):
            nums = [exact(x.args[1]) for x in order(ev.args[1]) if x.op == "app" and x.args[0] == "to_string"]
            if len(nums) != 2:
                raise Undecided("file name %s" % str(ev.args[1])[:120])
            cur = files.setdefault(tuple(nums), [])
        elif ev.kind == "ev" and ev.name == "out":
            if cur is None:
                raise Undecided("output before a file")
            v = ev.args[1]
            c = exact(v)
            if ev.args[2].args[1] in ("char", "unsigned char") and c is not None:
                c = chr(c)
            cur.append(v.args[0] if v.op == "str" else c)
        elif ev.kind in ("loop", "if") and list(io.W(None).items([ev])):
            raise Undecided("output that depends on %s" % str(ev.args[:1])[:100])
    p = read(r.st, fld(mk("param", 1, "input"), "polynomial_order"))
    for l, x in enumerate(sub):
        for s_, y in enumerate(x):
            inst = "%s: boundaries of sub-domain %d of rank %d" % (tag, s_, l)
            if (l, s_) not in files:
                ctx.ob("cut", inst, False, Wf.where(), "no file is written")
                continue
            text = "".join("p" if v is None else str(v) for v in files[(l, s_)])
            want = {}
            for k in y:
                _, nb, ty = full[k]
                for i in R(3):
                    if ty[i] >= 128 and home[nb[i]] != (l, s_):
                        j = full[nb[i]][1].index(k)
                        want.setdefault(home[nb[i]], []).append((k, i, nb[i], j))
            got, msg = lines(text, (l, s_))
            if not msg and {k: sorted(v) for k, v in got.items()} != {k: sorted(v) for k, v in want.items()}:
                d = next((k for k in sorted(set(got) | set(want)) if sorted(got.get(k, [])) != sorted(want.get(k, []))))
                msg = "towards sub-domain %d of rank %d the file lists the edges (cell, side, cell beyond, its side) %s, must list %s" % (d[1], d[0], sorted(got.get(d, [])), sorted(want.get(d, [])))
            ctx.ob("cut", inst, not msg, Wf.where(), msg)
            for k in got:
                o = (k, (l, s_))
                if (k in files if k != (l, s_) else False):
                    back_ = lines("".join("p" if v is None else str(v) for v in files[k]), k)[0].get((l, s_), [])
                    ctx.ob("cut", inst + " in the order of sub-domain %d of rank %d" % (k[1], k[0]), [(c, d, a, b) for a, b, c, d in back_] == got[k], Wf.where(),
                           "the edges shared with sub-domain %d of rank %d are listed as %s, there as %s" % (k[1], k[0], got[k], back_))
            joined(ctx, P, Rf, inst, text, (l, s_), got)


def order(v):
    """subterms in the order they are written"""
    out = []

    def f(x):
        if isinstance(x, t.T):
            out.append(x)
            for a in x.args:
                f(a)
        elif isinstance(x, (tuple, list)):
            for a in x:
                f(a)
    f(v)
    return out


def lines(text, me):
    """(edges per neighbouring sub-domain, complaint)"""
    out = {}
    ls = text.split("\n")
    i = 0
    while i < len(ls):
        if not ls[i].strip():
            i += 1
            continue
        w = ls[i].split()
        if len(w) != 5 or not all(x.isdigit() for x in w):
            return out, "the line %r is not the head of a rank boundary" % ls[i]
        a, b, n = (int(w[0]), int(w[1])), (int(w[2]), int(w[3])), int(w[4])
        if me not in (a, b):
            return out, "the boundary between %s and %s does not touch it" % (a, b)
        o = b if me == a else a
        if o in out:
            return out, "two lists for one neighbour"
        out[o] = []
        for j in R(n):
            i += 1
            w = ls[i].split() if i < len(ls) else []
            if len(w) != 5 or w[4] != "p":
                return out, "the line %r is not an edge" % (ls[i] if i < len(ls) else "")
            e = [int(x) for x in w[:4]]
            out[o].append((e[0], e[2], e[1], e[3]) if me == a else (e[1], e[3], e[0], e[2]))
        i += 1
    return out, ""


class Text(object):
    """a file whose text is known, and strings read as streams; the position is part of the state"""

    def __init__(self, text):
        self.main = text

    def at(self, st, path):
        v = read(st, path)
        strs = [x.args[0] for x in order(v) if x.op == "str"] if isinstance(v, t.T) else []
        s = strs[0] if strs and "fstream" not in str(v) else self.main
        i = exact(read(st, fld(path, "#pos")))
        return s, i or 0

    def token(self, st, path):
        s, i = self.at(st, path)
        while i < len(s) and s[i].isspace():
            i += 1
        j = i
        while j < len(s) and not s[j].isspace():
            j += 1
        write(st, fld(path, "#pos"), num(j))
        return s[i:j]

    def line(self, st, path):
        s, i = self.at(st, path)
        if i >= len(s):
            return None
        j = s.find("\n", i)
        j = len(s) if j < 0 else j
        write(st, fld(path, "#pos"), num(j + 1))
        return s[i:j]


def joined(ctx, P, Rf, inst, text, me, want):
    """the reader on the text"""
    T = Text(text)
    deg = mk("param", 30, "degree")

    def more(I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)
        if name.endswith("#>>") and len(argn) == 2 and io.isstream(fr, argn[0]):
            left = I.ev(argn[0], fr, st)
            lv = I.ev(argn[1], fr, st)
            w = T.token(st, io.spath(I, left, st))
            at = io.spath(I, left, st)
            if not w:
                write(st, fld(at, "#fail"), num(1))
                return left
            write(st, lv.path, deg if w == "p" else num(int(w)))
            return left
        if n == "ignore" and "stream" in name:
            T.line(st, this)
            return obj
        if n == "getline" and len(argn) >= 2:
            s, l = I.ev(argn[0], fr, st), I.ev(argn[1], fr, st)
            w = T.line(st, s.path)
            if w is None:
                return FALSE
            write(st, l.path, mk("str", w))
            return TRUE
        if n == "operator bool" and obj in (TRUE, FALSE):
            return obj
        if n == "operator bool" and this is not None and "ios" in name:
            return FALSE if read(st, fld(this, "#fail")) == num(1) else TRUE
        if n == "file_exists":
            return TRUE
        return NotImplemented

    st0 = State()
    write(st0, fld(fld(THIS, "rank_boundary_data"), "#size"), num(0))
    try:
        r = Run(P, Rf, None, args=[None, num(me[0]), num(me[1])], ctx=ctx, state=st0, hook=more, decide=truth, unroll=300)
    except Broken as x:
        ctx.ob("cut", inst + " read back", False, x.args[1], x.args[0])
        return
    if r.st is None:
        raise Undecided("no normal end")
    d = X(fld(THIS, "rank_boundary_data"))
    n = exact(read(r.st, fld(d.p, "#size")))
    if n is None:
        raise Undecided("number of rank boundaries read")
    got, msg = {}, ""
    for i in R(n):
        b = X(at1(d.p, num(i)))
        g = lambda x: exact(read(r.st, x.p))
        k = (g(b.locality_ex), g(b.submesh_ex))
        if (g(b.locality_in), g(b.submesh_in)) != me:
            msg = "the boundary towards %s is kept as one of sub-domain %s" % (k, (g(b.locality_in), g(b.submesh_in)))
        m = [exact(read(r.st, fld(x.p, "#size"))) for x in (b.elements_in, b.bound_ids_in, b.elements_ex, b.bound_ids_ex, b.p_ if False else X(fld(b.p, "p")))]
        if len(set(m)) != 1:
            msg = "lists of different length %s" % m
            break
        got[k] = [tuple(exact(read(r.st, at1(x.p, num(j)))) for x in (b.elements_in, b.bound_ids_in, b.elements_ex, b.bound_ids_ex)) for j in R(m[0])]
        if any(read(r.st, at1(fld(b.p, "p"), num(j))) is not deg for j in R(m[0])):
            msg = "the polynomial order is not kept"
    if not msg and got != want:
        msg = "the edges (cell, side, cell beyond, its side) read are %s, the file lists %s" % (got, want)
    ctx.ob("cut", inst + " read back", not msg, Rf.where(), msg)


# ---------------------------------------------------------------- boundary kinds
OPEN, LAND, ISLE, FLOW, FRONT, BACK, FUN, OUT, GEN = (1, 2, 3), (3, 4, 5), (20, 21, 22, 23), (5, 6, 7), (30, 31, 32, 33), (40, 41, 42, 43), (50, 51, 52), (60, 61), (70, 71, 72, 70, 73)
F2, B2 = (91, 92, 93), (81, 82, 83)


def boundary_file(st, tens):
    a = X(THIS)

    def lists(p, ls):
        write(st, fld(p, "#size"), num(len(ls)))
        for i, l in enumerate(ls):
            write(st, at1(p, num(i)), mk("list", tuple(num(x) for x in l)))
    lists(a.NBDV.p, [OPEN])
    kinds = [(10 * tens, LAND), (10 * tens + 4, FRONT), (10 * tens + 1, ISLE), (10 * tens + 2, FLOW), (77, FUN), (10 * tens + 4, F2), (88, OUT)]
    lists(a.NBVV.p, [l for _, l in kinds])
    write(st, a.IBTYPE.p, mk("list", tuple(num(k) for k, _ in kinds)))
    write(st, a.NOPE.p, num(1))
    write(st, a.NBOU.p, num(len(kinds)))
    write(st, a.NGEN.p, num(1))
    lists(a.NBGN.p, [GEN])
    m = Maps(lambda p: False)
    for seg, l in ((1, BACK), (5, B2)):
        e, _ = m.add(st, a.IBCONN.p, seg)
        write(st, fld(e, "second"), mk("list", tuple(num(x) for x in l)))
    return m


def steps(l):
    return [(x, y) for x, y in zip(l, l[1:])]


def kinds(ctx, P, E):
    fk, fp = one(P, "AdcircFormat::get_ibtype"), one(P, "AdcircFormat::get_internal_node_pair")
    want = {}
    for l, k in ((OPEN, "tide"), (LAND, "land"), (ISLE, "land"), (FLOW, "flow"), (FRONT, "levee"), (BACK, "levee"), (F2, "levee"), (B2, "levee"), (FUN, "function"), (OUT, "outflow"), (GEN, "land")):
        for e in steps(l):
            want[e] = k
    want[(ISLE[-1], ISLE[0])] = "land"
    for a, b in ((FRONT, BACK), (F2, B2)):
        want[(a[0], b[0])] = want[(a[-1], b[-1])] = "land"
    none = [(1, 3), (20, 22), (31, 41), (32, 42), (7, 50), (61, 70), (82, 92), (98, 99)]
    tens = [0, 1, 2] if ctx.tier == "thorough" else [0, 2]
    for tn in tens:
        for (x, y) in list(want) + none:
            for a, b in ((x, y), (y, x)):
                inst = "kinds %d..: edge (%d, %d)" % (10 * tn, a, b)

                def go():
                    st = State()
                    m = boundary_file(st, tn)
                    write(st, mk("param", 0, "node_pair"), mk("list", (num(a), num(b))))
                    try:
                        r = Run(P, fk, ["node_pair"], ctx=ctx, state=st, hook=m.hook, decide=truth, unroll=60)
                    except Broken as q:
                        ctx.ob("kinds", inst, False, q.args[1], q.args[0])
                        return
                    k = want.get((x, y))
                    if r.st is None or r.ret is None:
                        ctx.ob("kinds", inst, k is None, fk.where(), "the edge is rejected, it belongs to a boundary of kind %s" % k)
                        return
                    v = exact(r.I.tm(r.ret, r.st))
                    if v is None:
                        raise Undecided("kind %s" % str(r.ret)[:100])
                    ctx.ob("kinds", inst, k is not None and v == E[k], fk.where(), "the edge gets the kind %s, must %s" % (next((n for n in E if E[n] == v), v), "get %s" % k if k else "be rejected"))
                ctx.guard("kinds", inst, fk.where(), go)
    for f, b in ((FRONT, BACK), (F2, B2)):
        for l, o in ((f, b), (b, f)):
            for i in R(len(l) - 1):
                for u, v in ((i, i + 1), (i + 1, i)):
                    inst = "the edge behind (%d, %d)" % (l[u], l[v])

                    def go():
                        st = State()
                        m = boundary_file(st, 2)
                        write(st, mk("param", 0, "node_pair"), mk("list", (num(l[u]), num(l[v]))))
                        try:
                            r = Run(P, fp, ["node_pair"], ctx=ctx, state=st, hook=m.hook, decide=truth, unroll=60)
                        except Broken as q:
                            ctx.ob("kinds", inst, False, q.args[1], q.args[0])
                            return
                        if r.st is None:
                            ctx.ob("kinds", inst, False, fp.where(), "is not found")
                            return
                        got = [exact(r.ret_at(k)) for k in R(2)]
                        if None in got:
                            raise Undecided("pair %s" % str(r.ret)[:100])
                        ctx.ob("kinds", inst, sorted(got) == sorted((o[u], o[v])), fp.where(), "is %s, must be (%d, %d)" % (got, o[u], o[v]))
                    ctx.guard("kinds", inst, fp.where(), go)


def empty(ctx, P):
    """what a mesh without generic boundaries holds"""
    Rd = one(P, "AdcircFormat::AdcircFormat", lambda f: "string" in f.psig)

    def decide(c):
        if "find_first_not_of" in str(c):
            return str(c).startswith("!") == False
        return None
    r = Run(P, Rd, None, ctx=ctx, hook=io.hook(), decide=decide)
    for f in ("NGEN", "NNGN"):
        v = read(r.st, fld(THIS, f))
        ctx.ob("format", "%s of a file without generic boundaries" % f, exact(v) == 0, Rd.where(), "is %s, must be 0" % str(v)[:100])
