"""P18: every side of every cell gets its edge: once, of the kind it has, with the cells, nodes, data and message places that belong to it."""
from .. import terms as t
from ..spec import *
from ..interp import TRUE, FALSE, Ev, Lam, Loc, Struct
from ..maps import Maps, Missing
from .p19 import truth, exact, enum, functions, last, one

R = range
THIS = mk("this")

# name of a cell: its nodes, neighbours and kinds of its sides (side k joins the nodes k+1 and k+2)
INT, LEV, DIST, DLEV = "internal", "levee", "distributed internal", "distributed levee"
CELLS = {
    10: ((1, 2, 3), (7, None, None), (INT, "land", "tide")),
    7: ((4, 3, 2), (10, None, 900), (INT, "flow", DIST)),
    3: ((5, 6, 7), (12, None, 901), (LEV, "function", DIST)),
    12: ((8, 9, 11), (None, 3, None), ("land", LEV, "tide")),
    14: ((30, 31, 32), (902, None, 903), (DIST, "flow", DLEV)),
    5: ((33, 34, 35), (904, 6, 6000), (DLEV, INT, "land")),
    6: ((36, 33, 35), (5, None, None), (INT, "function", "function")),
    2: ((50, 51, 52), (905, 906, None), (DIST, DLEV, "tide")),
}
# nodes in front of and behind a levee: side 0 of cell 3 is (6, 7), side 1 of cell 12 is (11, 8)
PAIRS = [(6, 8), (11, 7), (30, 40), (41, 31), (34, 44), (45, 35), (62, 52), (50, 60)]
TIDES = [[1, 2], [9, 8, 77], [51, 50]]
FLOWS = [[2, 4, 78], [32, 30, 79]]
# (own rank, own sub-domain, other rank, other sub-domain), the sides shared
BOUNDS = [((1, 2, 2, 0), [(7, 2), (14, 2), (5, 0)]), ((1, 2, 1, 3), [(14, 0), (3, 2)]), ((1, 2, 0, 4), [(2, 1)]), ((1, 2, 1, 0), [(2, 0)])]
ONE = {k: (n, nb, tuple("land" if x in (DIST, DLEV) else x for x in ks)) for k, (n, nb, ks) in CELLS.items()}


def sides_of(nodes):
    return [(nodes[(k + 1) % 3], nodes[(k + 2) % 3]) for k in R(3)]


def kind_no(E, k):
    return E[k.split()[1]] + 64 if k.startswith("distributed ") else E[k]


def kindof(fn):
    """what the created edge is: the last component of the first template argument"""
    a, d = fn.d["targs"], 0
    for i, ch in enumerate(a):
        d += {"<": 1, ">": -1}.get(ch, 0)
        if ch == "," and d == 0:
            a = a[:i]
            break
    return a.rstrip("> ").split(",")[-1].split("::")[-1]


def ops_of(fr, lam):
    c = fr.tu.fns.get(lam.opid)
    return [c] if c else list(fr.tu.lambdas.get(lam.lid) or [])


class Made(object):
    """a created edge"""


class World(object):
    """one run of the set-up of the mesh of a sub-domain, cells and input data known"""

    def __init__(self, ctx, P, E, cells=CELLS, pairs=PAIRS, tides=TIDES, flows=FLOWS, bounds=BOUNDS):
        self.ctx, self.P, self.E, self.cells, self.bounds = ctx, P, E, cells, bounds
        self.pairs, self.tides, self.flows = pairs, tides, flows
        self.st = State()
        self.m = Maps(self.mine, exact)
        self.made, self.visits, self.edges, self.cell = [], [], [], {}

    def mine(self, p):
        while p.op in ("fld", "elem"):
            if p.op == "fld" and p.args[1] in ("levee_is_data", "tide_nodes", "flow_nodes", "elements"):
                return True
            p = p.args[0]
        return p.op == "local" and "raw" in str(p) or p.op == "local"

    def setup(self):
        st = self.st
        inp, com = mk("param", 1, "input"), mk("param", 2, "communicator")
        E = fld(fld(fld(inp, "mesh_input"), "mesh_data"), "elements")
        for c, (nodes, neigh, kinds) in sorted(self.cells.items()):
            p, _ = self.m.add(st, E, c)
            p = fld(p, "second")
            for f, v in (("node_ID", nodes), ("neighbor_ID", [4294967295 if x is None else x for x in neigh]), ("boundary_type", [kind_no(self.E, k) for k in kinds])):
                write(st, fld(p, f), mk("list", tuple(num(x) for x in v)))
        inp = fld(inp, "problem_input")
        for pr in self.pairs:
            p, _ = self.m.add(st, fld(inp, "levee_is_data"), pr)
            write(st, fld(p, "second"), mk("param", 70, "LEVEE_%d_%d" % pr))
        for what, sets in (("tide", self.tides), ("flow", self.flows)):
            d = fld(inp, what + "_bc_data")
            write(st, fld(d, "#size"), num(len(sets)))
            for i, ns in enumerate(sets):
                for n in ns:
                    p, _ = self.m.add(st, fld(at1(d, num(i)), what + "_nodes"), n)
                    write(st, fld(p, "second"), mk("param", 71, "%s_%d" % (what.upper(), n)))
        rb = fld(com, "rank_boundaries")
        write(st, fld(rb, "#size"), num(len(self.bounds)))
        for i, (names, sides) in enumerate(self.bounds):
            d = fld(at1(rb, num(i)), "db_data")
            for nm, v in zip(("locality_in", "submesh_in", "locality_ex", "submesh_ex"), names):
                write(st, fld(d, nm), num(v))
            for nm, v in (("elements_in", [c for c, s in sides]), ("bound_ids_in", [s for c, s in sides]), ("elements_ex", [900] * len(sides)), ("bound_ids_ex", [1] * len(sides))):
                write(st, fld(d, nm), mk("list", tuple(num(x) for x in v)))
            write(st, fld(d, "p"), mk("list", tuple(self.degree(i, j) for j in R(len(sides)))))

    def degree(self, i, j):
        return mk("param", 80 + 10 * i + j, "degree_%d_%d" % (i, j))

    def hook(self, I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)

        def ev(k):
            return I.rv(I.ev(argn[k], fr, st), st)
        if n == "CreateElement":
            k = exact(I.tm(ev(0), st))
            p = mk("param", 100 + len(self.cell), "CELL%d" % k)
            self.cell.setdefault(k, []).append(p)
            el, = [f for f in self.P.tus[fr.tu.name].byname.get("Geometry::Element::Element", ()) if len(f.params) == 6 and f.d.get("cls") == None or len(f.params) == 6][:1]
            names = [q[1] for q in el.params]
            write(st, fld(p, "ID"), num(k))
            for j, nm in ((1, names[2]), (2, names[3]), (3, names[4]), (4, names[5])):
                self.m.place(I, st, fld(p, nm), ev(j))
            return None
        if n == "get_nodal_coordinates":
            return mk("app", "coordinates", I.tm(ev(0), st))
        if n == "CallForEachElement":
            lam = ev(0)
            for c in ops_of(fr, lam):
                for k in sorted(self.cell):
                    for p in self.cell[k]:
                        I.inline(c, lam.frame, st, None, [Loc(p, "Element")], e[1], parent=lam.frame)
            return None
        if n in ("CallForEachInterface", "CallForEachBoundary", "CallForEachDistributedBoundary"):
            self.visits.append((n[len("CallForEach"):], len(self.made), ops_of(fr, ev(0)), "%s:%d" % (fr.fn.file, e[1])))
            return None
        if n in ("CreateInterface", "CreateBoundary", "CreateDistributedBoundary"):
            m = Made()
            m.n, m.what, m.kind = len(self.made), n[len("Create"):], kindof(fn)
            m.args = [I.ev(a, fr, st) for a in argn]
            m.st, m.where = st.copy(), "%s:%d" % (fr.fn.file, e[1])
            m.p = mk("param", 200 + m.n, "EDGE%d" % m.n)
            if m.what == "DistributedBoundary":
                write(st, fld(fld(m.p, "boundary_condition"), "exchanger"), Struct(m.st, m.args[1].path))
            self.made.append(m)
            return None
        if n.startswith("CallForEach") and n.endswith("OfType"):
            lam = ev(0)
            c, = ops_of(fr, lam)
            for m in self.made:
                if m.what == n[len("CallForEach"):-len("OfType")] and m.kind == kindof(fn):
                    I.inline(c, lam.frame, st, None, [Loc(m.p, "Edge")], e[1], parent=lam.frame)
            return None
        if n in ("CreateEdgeInterface", "CreateEdgeBoundary", "CreateEdgeDistributed"):
            a = [I.ev(x, fr, st) for x in argn]
            self.edges.append((n[len("CreateEdge"):], a[0].path, I.tm(I.rv(a[1], st), st) if len(a) > 1 else None, "%s:%d" % (fr.fn.file, e[1])))
            return None
        if n == "WritingLog":
            return FALSE
        if n.startswith("GetNumber"):
            return t.ZERO
        if n == "GetNumGP":
            return mk("app", "ngp", I.tm(ev(0), st))
        return self.m.hook(I, e, fr, st, name, fn, obj, this, argn)

    def run(self, f):
        self.setup()
        return Run(self.P, f, ["mesh", "input", "communicator", "writer"], ctx=self.ctx, state=self.st, hook=self.hook, decide=truth, unroll=300)


def ref(st, p):
    v = read(st, p)
    return v.path if isinstance(v, Loc) else v


def extent(st, p):
    n = exact(read(st, fld(p, "#size")))
    if n is None:
        x = read(st, p)
        n = len(x.args[0]) if isinstance(x, t.T) and x.op == "list" else None
    return n


def items(st, p, f=lambda x: x):
    n = extent(st, p)
    if n is None:
        raise Undecided("length of %s" % str(p)[-60:])
    return [f(read(st, at1(p, num(k)))) for k in R(n)]


def raw(w, m, v):
    """what a side given to an edge is: (cell, side), nodes, degree; the objects it refers to"""
    p, st = v.path, m.st
    own = {f: str(ref(st, fld(p, f))) for f in ("data", "basis", "master", "shape")}
    cell = [k for k, ps in w.cell.items() for q in ps if own["data"] == str(fld(q, "data"))]
    msg = ""
    if len(cell) != 1:
        return None, None, None, "belongs to no cell (%s)" % own["data"]
    q = str(w.cell[cell[0]][0])
    side = exact(read(st, fld(p, "bound_id")))
    nodes = items(st, fld(p, "node_ID"), exact)
    want = {"basis": "*%s.master.basis" % q, "master": "*%s.master" % q, "shape": "%s.shape" % q}
    for f, x in want.items():
        if own[f] != x:
            msg = "the %s of cell %d's side is %s" % (f, cell[0], own[f])
    if side is None or not 0 <= side < 3:
        return None, None, None, "side %s of cell %d" % (side, cell[0])
    if tuple(nodes) != sides_of(w.cells[cell[0]][0])[side]:
        msg = "side %d of cell %d has the nodes %s, not %s" % (side, cell[0], nodes, sides_of(w.cells[cell[0]][0])[side])
    deg = read(st, fld(p, "p"))
    return (cell[0], side), nodes, deg, msg


CLASS = {"land": "Land", "tide": "Tide", "flow": "Flow", "function": "Function", INT: "Internal", LEV: "Levee", DIST: "Distributed", DLEV: "DistributedLevee"}


def wanted(w):
    """the edges there must be: kind and sides"""
    out = {}
    for c, (nodes, neigh, kinds) in w.cells.items():
        for k in R(3):
            s = [(c, k)]
            if kinds[k] in (INT, LEV):
                o = neigh[k]
                j, = [j for j in R(3) if w.cells[o][1][j] == c]
                s.append((o, j))
            out[frozenset(s)] = CLASS[kinds[k]]
    return out


def pairname(w, a, b):
    return "LEVEE_%d_%d" % ((a, b) if (a, b) in w.pairs else (b, a))


def behind(w, a):
    """the pairs a node belongs to"""
    return [p for p in w.pairs if a in p]


def built(ctx, w, r, f, tag, P):
    want = wanted(w)
    got = {}
    offs = {}
    for m in w.made:
        sides = [raw(w, m, a) for a in m.args[:2 if m.what == "Interface" else 1]]
        bad = [s[3] for s in sides if s[3]]
        key = frozenset(s[0] for s in sides)
        m.key, m.sides = key, sides
        lab = "%s %s" % (tag, ", ".join("cell %d side %d" % x if x else "?" for x in sorted(key, key=str)))
        if bad:
            ctx.ob("edges", lab, False, m.where, bad[0])
            continue
        got.setdefault(key, []).append(m)
        deg = [s[2] for s in sides]
        ctx.ob("edges", lab + " degree", all(str(d) == ("*%s.master.p" % w.cell[s[0][0]][0]) or m.what.startswith("Dist") for d, s in zip(deg, sides)), m.where, "degree %s" % deg)
        extra = m.args[len(sides):]
        # data of the nodes
        if m.kind in ("Levee", "Tide", "Flow", "DistributedLevee"):
            have = [str(x) for x in items(m.st, extra[-1].path)]
            ns = sides[0][1]
            if m.kind == "Levee":
                back = sides[1][1]
                exp = [pairname(w, n, back[len(ns) - 1 - i]) for i, n in enumerate(ns)]
            elif m.kind == "DistributedLevee":
                exp = ["LEVEE_%d_%d" % behind(w, n)[0] for n in ns]
            else:
                exp = ["%s_%d" % (m.kind.upper(), n) for n in ns]
            ctx.ob("data", lab, have == exp, m.where, "" if have == exp else "gets the data %s, its nodes have %s" % (have, exp))
        if m.what == "DistributedBoundary":
            x = extra[0].path
            (i, j), = [(i, j) for i, (nm, ss) in enumerate(w.bounds) for j, s_ in enumerate(ss) if frozenset([s_]) == key] or [(None, None)]
            if i is None:
                ctx.ob("places", lab, False, m.where, "no rank boundary lists this side")
                continue
            names = tuple(exact(read(m.st, fld(x, nm))) for nm in ("locality_in", "submesh_in", "locality_ex", "submesh_ex"))
            ctx.ob("places", lab + " beyond", names == w.bounds[i][0], m.where, "" if names == w.bounds[i][0] else "lies between %s, not %s" % (names, w.bounds[i][0]))
            rb = "communicator.rank_boundaries[%d]." % i
            bufs = [str(ref(m.st, fld(x, b))) for b in ("send_buffer", "receive_buffer")]
            ok = bufs == [rb + "send_buffer", rb + "receive_buffer"]
            ctx.ob("places", lab + " buffers", ok, m.where, "" if ok else "uses the buffers %s" % bufs)
            ok = sides[0][2] is w.degree(i, j)
            ctx.ob("edges", lab + " common degree", ok, m.where, "" if ok else "has degree %s, the rank boundary says %s" % (sides[0][2], w.degree(i, j)))
            offs[(i, j)] = (m, [read(m.st, at1(fld(x, "offset"), num(k))) for k in R(extent(m.st, fld(x, "offset")) or 0)])
    for key, cls in want.items():
        ms = got.get(key, [])
        lab = "%s %s" % (tag, ", ".join("cell %d side %d" % x for x in sorted(key)))
        msg = ""
        if len(ms) != 1:
            msg = "%d edges are made for this side" % len(ms)
        elif ms[0].kind != cls:
            msg = "becomes an edge of kind %s, it is %s" % (ms[0].kind, cls)
        ctx.ob("edges", lab, not msg, ms[0].where if ms else f.where(), msg)
    for key in got:
        if key not in want:
            ctx.ob("edges", "%s %s" % (tag, sorted(key)), False, got[key][0].where, "an edge is made of sides that do not belong together")
    return got, offs


def places(ctx, w, r, P, f, tag, offs):
    """the places in the messages follow one another in the order of the rank boundary file; the buffers are as long"""
    prob = f.d["targs"].split(",")[0].strip()
    g = one(P, prob + "::comm_buffer_offsets")
    for i, (nm, sides) in enumerate(w.bounds):
        n = None
        begin = {}
        for j in R(len(sides)):
            m, have = offs[(i, j)]
            n = len(have)
            st = State()
            b = mk("param", 0, "begin")
            for k in R(n):
                write(st, at1(b, num(k)), begin.get(k, t.ZERO))
            q = Run(P, g, None, args=[Loc(b, "std::vector<unsigned int>"), mk("app", "ngp", t.add(num(1), t.mul(num(2), w.degree(i, j))))], ctx=ctx, state=st, unroll=20)
            v = q.ret.path if isinstance(q.ret, Loc) else q.ret
            v = v if isinstance(v, Struct) else Struct(q.st, v)
            exp = [read(v.state, at1(v.path, num(k))) for k in R(n)]
            ok = n > 0 and all(a is b_ or t.sub(a, b_) is t.ZERO for a, b_ in zip(have, exp))
            ctx.ob("places", "%s edge %d of rank boundary %d offsets" % (tag, j, i), ok, m.where, "" if ok else "starts at %s, the messages before it end at %s" % ([str(x) for x in have], [str(x) for x in exp]))
            begin = {k: read(q.st, at1(b, num(k))) for k in R(n)}
        for buf in ("send_buffer", "receive_buffer"):
            p = fld(at1(fld(mk("param", 2, "communicator"), "rank_boundaries"), num(i)), buf)
            c = exact(read(r.st, fld(p, "#size")))
            lens = [read(r.st, fld(at1(p, num(k)), "#size")) for k in R(c or 0)]
            ok = c == n and all(t.sub(a, begin[k]) is t.ZERO for k, a in enumerate(lens))
            ctx.ob("places", "%s %s of rank boundary %d" % (tag, buf, i), ok, f.where(), "" if ok else "has the lengths %s for %s" % ([str(x) for x in lens], [str(x) for x in begin.values()]))


def initialised(ctx, w, P, f, tag):
    kinds = {}
    for m in w.made:
        kinds[m.what] = m.n
    for what in ("Interface", "Boundary", "DistributedBoundary"):
        vs = [v for v in w.visits if v[0] == what]
        if what not in kinds and not vs:
            continue
        good = []
        for v in vs:
            runs = [c for c in v[2] if any(last(g.name) == "Initialize" for g in P.closure(c))]
            if len(runs) == len(v[2]) and runs and v[1] > kinds.get(what, -1):
                good.append(v)
        ctx.ob("edges", "%s set-up of each %s" % (tag, what), len(good) == 1, vs[0][3] if vs else f.where(), "" if len(good) == 1 else "their conditions are set up %d times after all are made" % len(good))


def skeleton(ctx, w, r, P, f, tag):
    g = [g for g in P.find("initialize_mesh_skeleton") if g.d["targs"].strip() == f.d["targs"].split(",")[0].strip()]
    if not g:
        return
    Run(P, g[0], ["mesh", "mesh_skeleton", "writer"], ctx=ctx, state=r.st, hook=w.hook, decide=truth, unroll=300)
    for m in w.made:
        es = [e for e in w.edges if e[1] is m.p]
        lab = "%s %s" % (tag, ", ".join("cell %d side %d" % x for x in sorted(m.key)))
        msg = "" if len(es) == 1 else "%d trace unknowns are made for this edge" % len(es)
        if not msg and (es[0][0] != m.what.replace("DistributedBoundary", "Distributed")):
            msg = "an edge of another kind is made: %s" % es[0][0]
        if not msg and m.what == "DistributedBoundary":
            nm, = [nm for nm, ss in w.bounds if any(frozenset([s_]) == m.key for s_ in ss)]
            if es[0][2] not in (TRUE, FALSE):
                msg = "the direction of the trace is not set (%s)" % es[0][2]
            m.ccw = (nm[:2], nm[2:], es[0][2] is TRUE)
        ctx.ob("traces", lab, not msg, es[0][3] if es else g[0].where(), msg)
    return [m.ccw for m in w.made if m.what == "DistributedBoundary" and hasattr(m, "ccw")]


def whole(ctx, P, E, f, tag, dist):
    w = World(ctx, P, E) if dist else World(ctx, P, E, cells=ONE, bounds=[])
    try:
        r = w.run(f)
    except Missing as x:
        ctx.ob("edges", tag, False, x.args[0], x.args[1])
        return
    if r.st is None:
        ctx.ob("edges", tag, False, f.where(), "a mesh whose data are complete is refused")
        return
    made = {k: len(v) for k, v in w.cell.items()}
    ctx.ob("edges", tag + " cells", made == {k: 1 for k in w.cells}, f.where(), "cells made: %s" % made)
    got, offs = built(ctx, w, r, f, tag, P)
    if dist:
        if len(offs) == sum(len(s) for _, s in w.bounds):
            places(ctx, w, r, P, f, tag, offs)
    initialised(ctx, w, P, f, tag)
    turns = skeleton(ctx, w, r, P, f, tag)
    if dist and turns:
        # the same edge seen from the other side
        v = World(ctx, P, E, bounds=[(b[0][2:] + b[0][:2], b[1]) for b in BOUNDS])
        q = v.run(f)
        built(ctx, v, q, f, tag + " mirrored", P)
        back = skeleton(ctx, v, q, P, f, tag + " mirrored")
        for (a, b, x), (c, d, y) in zip(turns, back):
            ctx.ob("traces", "%s direction between %s and %s" % (tag, a, b), (a, b) == (d, c) and x != y, f.where(), "both sides take the trace in the same direction")


def refusals(ctx, P, E, f, tag):
    def attempt(name, **kw):
        w = World(ctx, P, E, **kw)
        try:
            r = w.run(f)
            ok = r.st is None
        except Missing:
            ok = True
        ctx.ob("refused", "%s %s" % (tag, name), ok, f.where(), "" if ok else "the mesh is accepted")
    attempt("a tide node without data", tides=[[1], [9, 8, 77], [51, 50]])
    attempt("a flow node without data", flows=[[2, 4, 78], [32, 79]])
    attempt("no tide data at all", tides=[])
    attempt("no flow data at all", flows=[])
    attempt("the ends of a tide edge in different lists", tides=[[1, 9], [2, 8, 77], [51, 50]])
    attempt("a levee node without partner", pairs=[p for p in PAIRS if p != (6, 8)])
    attempt("a levee node beyond a rank boundary without data", pairs=[p for p in PAIRS if p != (34, 44)])
    attempt("a rank boundary side that is none", bounds=[(BOUNDS[0][0], [(7, 2), (14, 2), (5, 0), (12, 0)])] + BOUNDS[1:])
    attempt("a side shared with a sub-domain not listed", bounds=[(BOUNDS[0][0], BOUNDS[0][1][:2])] + BOUNDS[1:])
    for k in ("land", "tide"):
        bad = dict(CELLS)
        n, nb, ks = bad[10]
        bad[10] = (n, nb, (ks[0], "strange", ks[2]))
        E2 = dict(E, strange=E.get("outflow", 4) + (0 if k == "land" else 100))
        w = World(ctx, P, E2, cells=bad)
        r = w.run(f)
        ctx.ob("refused", "%s a side of unknown kind %d" % (tag, E2["strange"]), r.st is None, f.where(), "a side without an edge is accepted")


def visits(P, f):
    """the places a traversal hands to its functor: (place with $k for the running entry, times)"""
    def note(fr, st, e, x):
        st.events.append(Ev("ev", "visit", (mk("str", str(x)),), fr.fn.file, e[1]))
    F, K = mk("param", 0, "f"), mk("local", "k")

    def call(I, e, fr, st, g, place):
        if isinstance(g, Lam):
            for c in ops_of(fr, g)[:1]:
                I.inline(c, g.frame, st, None, [Loc(place, "entry")], e[1], parent=g.frame)
        elif g is F or isinstance(g, Loc) and g.path is F:
            note(fr, st, e, place)
        else:
            raise Undecided("functor %s" % g)

    def hook(I, e, fr, st, name, fn, obj, this, argn):
        if name.endswith("operator()") and (this is F):
            v = I.ev(argn[0], fr, st)
            note(fr, st, e, v.path if isinstance(v, Loc) else v)
            return None
        if name == "std::for_each":
            b, en = (I.rv(I.ev(a, fr, st), st) for a in argn[:2])
            if not (isinstance(b, t.T) and b.op == "iter" and isinstance(en, t.T) and en.op == "iter" and b.args[0] is en.args[0]):
                raise Undecided("range of a for_each")
            if t.numval(b.args[1]) != 0 or en.args[1] is not I.size_of(b.args[0], st):
                note(fr, st, e, "part of %s" % b.args[0])
                return None
            call(I, e, fr, st, I.rv(I.ev(argn[2], fr, st), st), at1(b.args[0], K))
            return None
        if name == "#range":
            return [at1(this, K)]
        return NotImplemented
    r = Run(P, f, ["f"], hook=hook)
    if r.st is None:
        raise Undecided("does not return")

    def flat(evs):
        out = []
        for x in evs:
            if x.kind == "ev":
                out += [x.args[0].args[0]] if x.name == "visit" else []
            elif x.kind == "if":
                a, b = flat(x.kids[0]), flat(x.kids[1])
                out += a if a == b else ["%s only in some cases" % y for y in a + b]
            elif x.kind == "loop":
                out += ["repeated: " + y for y in flat(x.kids)]
            else:
                out += flat(x.kids)
        return out
    return flat(r.st.events)


def stored(P, f):
    log = []

    def hook(I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)
        if fn is None and n in ("emplace_back", "push_back", "emplace", "insert", "emplace_hint", "try_emplace") and this is not None:
            log.append(str(this))
            return mk("app", "stored", this)
        return NotImplemented
    Run(P, f, None, hook=hook)
    return log


def walks(ctx, P, tu):
    """every traversal visits every entry of every kind once; of one kind: those that are made as that kind"""
    groups = {}
    for cls in ("Geometry::Mesh", "Geometry::MeshSkeleton"):
        for f in functions(P):
            if f.name.startswith(cls + "::") and f.name[len(cls) + 2:].startswith(("CallForEach", "Create")) and "::" not in f.name[len(cls) + 2:]:
                groups.setdefault((cls, f.d["cls"]), []).append(f)
    for (cls, full), fs in groups.items():
        tag = "%s %s" % (tu, full.replace("Geometry::", "")[:24])
        place = {}
        for f in fs:
            n = last(f.name)
            if not n.startswith("Create"):
                continue
            what = n[len("Create"):]
            k = first_arg(f.d["targs"])
            got = stored(P, f)
            lab = "%s %s %s" % (tag, n, k[-60:])
            if len(got) != 1:
                ctx.ob("visits", lab, False if got else None, f.where(), "stored in %s" % got)
                continue
            old = place.get((what, k))
            clash = [q for q in place if q[0] == what and q[1] != k and place[q] == got[0]]
            ctx.ob("visits", lab, not clash and old in (None, got[0]), f.where(), "kept with the edges of another kind")
            place[(what, k)] = got[0]
        for f in fs:
            n = last(f.name)
            if not n.startswith("CallForEach"):
                continue
            what = n[len("CallForEach"):]
            got = visits(P, f)
            lab = "%s %s %s" % (tag, n, f.d["targs"][-60:])
            if what.endswith("OfType"):
                what, k = what[:-len("OfType")], first_arg(f.d["targs"])
                want = [place[(what, k)]] if (what, k) in place else None
            else:
                want = sorted(v for q, v in place.items() if q[0] == what)
            if not want:
                continue
            want = [v + "[$k]" + (".second" if what == "Element" and not n.endswith("OfType") else "") for v in want]
            ok = sorted(got) == sorted(want)
            ctx.ob("visits", lab, ok, f.where(), "" if ok else "visits %s, there are %s" % (sorted(got), want))


def first_arg(a):
    d = 0
    for i, ch in enumerate(a):
        d += {"<": 1, ">": -1}.get(ch, 0)
        if ch == "," and d == 0:
            return a[:i]
    return a


def cells(ctx):
    """the corners a cell is made with; what the cell keeps"""
    P = ctx.prog("meta")
    f = one(P, "MeshMetaData::get_nodal_coordinates")
    m = Maps(lambda p: p in (fld(THIS, "elements"), fld(THIS, "nodes")), exact)
    st = State()
    for n in (3, 4, 9, 70000):
        p, _ = m.add(st, fld(THIS, "nodes"), n)
        write(st, fld(fld(p, "second"), "coordinates"), mk("list", (num(n), num(-n), num(0))))
    for c, ns in ((5, (9, 3, 70000)), (3, (3, 4, 9))):
        p, _ = m.add(st, fld(THIS, "elements"), c)
        write(st, fld(fld(p, "second"), "node_ID"), mk("list", tuple(num(x) for x in ns)))
    for c, ns in ((5, (9, 3, 70000)), (3, (3, 4, 9))):
        r = Run(P, f, None, args=[num(c)], ctx=ctx, state=st.copy(), hook=m.hook, decide=truth, unroll=20)
        v = r.ret.path if isinstance(r.ret, Loc) else r.ret
        v = v if isinstance(v, Struct) else Struct(r.st, v)
        got = [tuple(exact(read(v.state, at1(at1(v.path, num(k)), num(d)))) for d in R(3)) for k in R(3)]
        ok = got == [(x, -x, 0) for x in ns]
        ctx.ob("edges", "corners of cell %d" % c, ok, f.where(), "" if ok else "its corners are %s" % got)
    P = ctx.prog("ompi", "shape")
    for f in P.find("Geometry::Element::Element"):
        if len(f.params) != 6 or f.d.get("tu") or f.tu.name != "ompi":
            continue

        def hook(I, e, fr, st, name, fn, obj, this, argn):
            if last(name) == "Initialize":
                return None
            if last(name) == "StraightTriangle":
                return mk("app", "shape", I.tm(I.rv(I.ev(argn[0], fr, st), st), st))
            return NotImplemented
        r = Run(P, f, None, ctx=ctx, hook=hook)
        for q, a in zip(f.params, r.args):
            if q[1] in ("nodal_coordinates", "master"):
                continue
            v = ref(r.st, fld(THIS, q[1]))
            v = v.path if isinstance(v, Struct) else v
            ctx.ob("edges", "%s keeps its %s" % (f.d["cls"][-40:], q[1]), v is a.p, f.where(), "keeps %s" % v)


def run(ctx):
    ctx.rule("edges", "every side of every cell belongs to exactly one edge, of the kind it has, joining the two cells it lies between", 250)
    ctx.rule("data", "a levee, tide or flow edge has the data of its own nodes, in their order", 40)
    ctx.rule("places", "an edge between sub-domains uses the buffers of its rank boundary, at the places that follow from the common order of the edges", 75)
    ctx.rule("traces", "every edge gets exactly one trace; the two sides of a rank boundary take it in opposite directions", 100)
    ctx.rule("refused", "a mesh is refused where data are missing or a side has no edge", 16)
    ctx.rule("visits", "a traversal visits every cell and edge of every kind exactly once", 350)
    ctx.guard("edges", "cells", "", lambda: cells(ctx), 60)
    E = enum(ctx.prog("ompi", "shape"))
    for tu in ("ompi", "serial"):
        P = ctx.prog(tu, "shape")
        ctx.guard("visits", tu, "", lambda: walks(ctx, P, tu), 200)
        for f in P.find("initialize_mesh"):
            dist = "OMPI" in f.d["targs"]
            tag = f.d["targs"].split(",")[0].replace("::Problem", "") + (" distributed" if dist else "")
            ctx.guard("edges", tag, f.where(), lambda: whole(ctx, P, E, f, tag, dist), 200)
            if dist:
                ctx.guard("refused", tag, f.where(), lambda: refusals(ctx, P, E, f, tag), 200)
