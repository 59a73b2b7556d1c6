"""P23: the global system of the hybridised schemes is the exact elimination of the element unknowns, numbered without
overlap over all sub-domains, and its solution is put back where it belongs."""
import re

from .. import terms as t
from ..load import rel
from ..spec import *
from ..interp import TRUE, FALSE, Lam, intval, deref
from ..evalt import Ev

R = range
WET = [None]


def last(n):
    return n.split("::")[-1]


class Mesh(object):
    """a small mesh: per sub-domain its elements and its edges
    ("int", (element, side), (element, side)) | ("bnd", (element, side)) | ("dist", (element, side), name)"""

    def __init__(self, subs, ranks, nb, ne):
        self.subs, self.ranks, self.nb, self.ne = subs, ranks, nb, ne
        self.alias, self.edges, self.nside = {}, [], {}
        for k, (els, eds) in enumerate(subs):
            for ed in eds:
                E = X(mk("param", 60 + len(self.edges), "EDGE%d" % len(self.edges)))
                self.edges.append((k, ed, E))
                for e, s in self.sides(ed):
                    self.nside[e] = max(self.nside.get(e, 0), s + 1)
                if ed[0] == "int":
                    self.alias[E.interface.data_in.p], self.alias[E.interface.data_ex.p] = self.data(ed[1][0]).p, self.data(ed[2][0]).p
                else:
                    self.alias[E.boundary.data.p] = self.data(ed[1][0]).p
        # edges of the whole mesh: the two halves of an edge between sub-domains are one
        self.whole = {}
        for n, (k, ed, E) in enumerate(self.edges):
            self.whole.setdefault(ed[2] if ed[0] == "dist" else n, []).append(n)
        self.names = list(self.whole)
        self.rank = {k: r for r, ks in enumerate(ranks) for k in ks}

    def sides(self, ed):
        return [ed[1], ed[2]] if ed[0] == "int" else [ed[1]]

    def data(self, e):
        return X(mk("param", 40 + e, "ELT%d" % e)).data

    def bound(self, e, s):
        return self.data(e).boundary[s]

    def name_of(self, e, s):
        for nm, ns in self.whole.items():
            for n in ns:
                if (e, s) in self.sides(self.edges[n][1]):
                    return nm

    def peer(self, n):
        nm, = [nm for nm, ns in self.whole.items() if n in ns]
        return [m for m in self.whole[nm] if m != n][0]

    def setup(self, st, r):
        for e, ns in self.nside.items():
            d = self.data(e)
            write(st, d.nbound.p, num(ns))
            write(st, d.ndof.p, num(self.nb))
            for s in R(ns):
                write(st, d.ngp_boundary[s].p, num(2))
        for n, (k, ed, E) in enumerate(self.edges):
            write(st, E.edge_data.ndof.p, num(self.ne))
            write(st, E.edge_data.ngp.p, num(2))
            if ed[0] == "int":
                write(st, E.interface.bound_id_in.p, num(ed[1][1]))
                write(st, E.interface.bound_id_ex.p, num(ed[2][1]))
            else:
                write(st, E.boundary.bound_id.p, num(ed[1][1]))
            if ed[0] == "dist":
                x = E.boundary.boundary_condition.exchanger
                j = self.edges[self.peer(n)][0]
                for f, v in (("locality_in", self.rank[k]), ("submesh_in", self.ranks[self.rank[k]].index(k)),
                             ("locality_ex", self.rank[j]), ("submesh_ex", self.ranks[self.rank[j]].index(j))):
                    write(st, fld(x.p, f), num(v))

    def visit(self, kind, k):
        if kind == "Element":
            return [X(mk("param", 40 + e, "ELT%d" % e)) for e in self.subs[k][0]]
        want = {"EdgeInterface": "int", "EdgeBoundary": "bnd", "EdgeDistributed": "dist"}.get(kind)
        if want is None:
            raise Undecided("traversal of " + kind)
        return [E for j, ed, E in self.edges if j == k and ed[0] == want]


def fill(st, p, n, m, tag):
    """a matrix (vector) of entries of its own"""
    b = mk("param", 30, tag)
    if m is None:
        write(st, p, Mat(num(n), ONE, lambda i, j: at1(b, i)))
        return [at1(b, num(i)) for i in R(n)]
    write(st, p, Mat(num(n), num(m), lambda i, j: at2(b, i, j)))
    return [[at2(b, num(i), num(j)) for j in R(m)] for i in R(n)]


def sub_of(p):
    """position, in the list of this rank's sub-domains, of the one a path goes through"""
    f = []

    def g(y):
        if y.op == "elem" and "sim_units" in str(y.args[0])[:40]:
            f.append(y.args[1])
    t.walk(p, g)
    if not f:
        return 0
    if not t.is_num(f[0]):
        raise Undecided("sub-domain %s" % f[0])
    return int(t.numval(f[0]))


def conc(v, what):
    n = intval(v) if isinstance(v, t.T) else None
    if n is None:
        raise Undecided("%s is %s" % (what, str(v)[:200]))
    return n


def length(I, p, s):
    n = intval(I.dim(p, 0, s))
    return intval(I.size_of(p, s)) if n is None else n


def entries(I, v, s):
    """entries of a matrix of known extent"""
    if isinstance(v, Loc):
        n, m = conc(I.dim(v.path, 0, s), "extent"), intval(I.dim(v.path, 1, s)) or 1
        v = I.rv(v, s)
        if not isinstance(v, Mat):
            return [[read(s, at2(v, num(i), num(j))) if m > 1 else read(s, at1(v, num(i))) for j in R(m)] for i in R(n)]
        return [[v.f(num(i), num(j)) for j in R(m)] for i in R(n)]
    return [[v.f(num(i), num(j)) for j in R(intval(v.cols))] for i in R(intval(v.rows))]


def inv(A):
    fl = mk("list", tuple(x for r in A for x in r))
    n = len(A)
    return lambda i, j: mk("app", "matinv", num(n), i if not isinstance(i, int) else num(i), j if not isinstance(j, int) else num(j), fl)


def ptr(I, v, s):
    """the location a pointer value points to"""
    v = I.rv(v, s) if isinstance(v, Loc) else v
    if isinstance(v, t.T):
        return v.args[0] if v.op == "addr" else v
    raise Undecided("pointer")


def arr(I, v, s, n):
    """n values from a pointer on"""
    p = ptr(I, v, s)
    if p.op == "elem":
        return [read(s, at1(p.args[0], t.add(p.args[1], num(i)))) for i in R(n)]
    if n == 1:
        return [read(s, p)]
    return [read(s, at1(p, num(i))) for i in R(n)]


class Alg(object):
    """the traversals of the mesh, matrix algebra, the exchange of messages and the solver library, on terms"""

    def __init__(self, ctx, P, mesh, rank=0, shared=None, skip=()):
        self.ctx, self.P, self.mesh, self.rank, self.skip = ctx, P, mesh, rank, set(skip)
        self.sh = shared if shared is not None else {}
        self.trip, self.vec = [], []
        self.zero = {"mat": True, "vec": True}
        self.solves = []
        self.isets, self.scat, self.sizes, self.bs = {}, {}, {}, {}
        self.segs = []
        self.norm = None
        self.Z = mk("param", 31, "Z")

    def where(self, fr, e):
        return "%s:%s" % (rel(fr.fn.file), e[1])

    def edge(self, p):
        while p.op == "fld":
            p = p.args[0]
        for n, (k, ed, E) in enumerate(self.mesh.edges):
            if E.p is p:
                return n
        raise Undecided("message of %s" % p)

    def __call__(self, I, e, fr, s, name, f, obj, this, argn):
        l = last(name)
        if l.startswith("CallForEach"):
            k = self.mesh.ranks[self.rank][sub_of(this)]
            lam = I.ev(argn[0], fr, s)
            lam = I.rv(lam, s) if isinstance(lam, Loc) else lam
            if not isinstance(lam, Lam):
                raise Undecided("traversal with something else than a lambda")
            c = fr.tu.fns.get(lam.opid) if lam.opid else None
            c = c or (fr.tu.lambdas.get(lam.lid) or [None])[0]
            if c is None:
                raise Undecided("lambda never instantiated")
            for E in self.mesh.visit(l[len("CallForEach"):], k):
                I.inline(c, lam.frame, s, None, [Loc(E.p, c.tu.types[c.params[0][2]].rstrip("& "))], e[1], parent=lam.frame)
            return ZERO
        if l in self.skip or name.endswith("Data::resize"):
            return ZERO
        m = getattr(self, "f_" + l, None)
        if m is None:
            return NotImplemented
        return m(I, e, fr, s, obj, this, argn)

    # ------------------------------------------------------------ algebra
    def f_inverse(self, I, e, fr, s, obj, this, argn):
        A = entries(I, I.ev(argn[0], fr, s), s)
        return Mat(num(len(A)), num(len(A)), inv(A))

    def f_add_triplet(self, I, e, fr, s, obj, this, argn):
        i, j, v = [I.tm(I.rv(I.ev(a, fr, s), s), s) for a in argn]
        self.trip.append((conc(i, "row"), conc(j, "column"), v, self.where(fr, e)))
        return ZERO

    def f_get_sparse_matrix(self, I, e, fr, s, obj, this, argn):
        return ZERO

    def f_subvector(self, I, e, fr, s, obj, this, argn):
        v, a, n = [I.ev(x, fr, s) for x in argn]
        a, n = [I.tm(I.rv(x, s), s) if isinstance(x, Loc) else x for x in (a, n)]
        if isinstance(v, Loc):
            if intval(a) is None:
                self.segs.append((None, "from %s on" % str(a)[:80], self.where(fr, e)))
            else:
                h = length(I, v.path, s)
                if h is not None:
                    self.segs.append((intval(a) + intval(n) <= h, "entries %d..%d of %d" % (intval(a), intval(a) + intval(n) - 1, h), self.where(fr, e)))
        return NotImplemented

    def f_solve_sle(self, I, e, fr, s, obj, this, argn):
        a, b = I.ev(argn[0], fr, s), I.ev(argn[1], fr, s)
        if "Sparse" in a.ty:
            n = length(I, b.path, s)
            if n is None:
                raise Undecided("extent of the right hand side")
            self.solves.append((a.path, [read(s, at1(b.path, num(i))) for i in R(n)], self.where(fr, e)))
            z = self.Z
            write(s, b.path, Mat(num(n), ONE, lambda i, j: at1(z, i)))
            write(s, fld(b.path, "#rows"), num(n))
            return ZERO
        A, B = entries(I, a, s), entries(I, b, s)
        iv = inv(A)
        n = len(A)
        I.store(s, b.path, Mat(num(n), num(len(B[0])), lambda i, j: t.add(*[t.mul(iv(i, k), B[k][int(t.numval(j))]) for k in R(n)])))
        return ZERO

    # ------------------------------------------------------------ containers
    def vecp(self, I, v, s):
        v0 = v
        v = I.rv(v, s) if isinstance(v, Loc) else v
        while isinstance(v, t.T) and v.op == "app" and "iterator" in str(v.args[0]):
            v = v.args[1]
        if isinstance(v, t.T) and v.op == "iter":
            return v.args[0], v.args[1]
        raise Undecided("iterator %s" % (v,))

    def f_accumulate(self, I, e, fr, s, obj, this, argn):
        (p, a), (q_, b) = self.vecp(I, I.ev(argn[0], fr, s), s), self.vecp(I, I.ev(argn[1], fr, s), s)
        x = I.tm(I.rv(I.ev(argn[2], fr, s), s), s)
        return t.add(x, *[read(s, at1(p, num(i))) for i in R(conc(a, "begin"), conc(b, "end"))])

    def f_rotate(self, I, e, fr, s, obj, this, argn):
        (p, a), (_, m), (_, b) = [self.vecp(I, I.ev(x, fr, s), s) for x in argn]
        a, m, b = [conc(x, "bound") for x in (a, m, b)]
        v = [read(s, at1(p, num(i))) for i in R(a, b)]
        v = v[m - a:] + v[:m - a]
        for i, x in enumerate(v):
            write(s, at1(p, num(a + i)), x)
        return ZERO

    def f_insert(self, I, e, fr, s, obj, this, argn):
        if len(argn) != 3:
            return NotImplemented
        _, (p, a), (_, b) = [self.vecp(I, I.ev(x, fr, s), s) for x in argn]
        n = conc(I.size_of(this, s), "size")
        vs = [read(s, at1(p, num(i))) for i in R(conc(a, "bound"), conc(b, "bound"))]
        for i, v in enumerate(vs):
            write(s, at1(this, num(n + i)), v)
        write(s, fld(this, "#size"), num(n + len(vs)))
        return ZERO

    # ------------------------------------------------------------ messages
    def f_SetToSendBuffer(self, I, e, fr, s, obj, this, argn):
        k, v = I.tm(I.rv(I.ev(argn[0], fr, s), s), s), I.ev(argn[1], fr, s)
        n = conc(I.size_of(v.path, s), "message size")
        self.sh[("msg", self.edge(this), str(k))] = [read(s, at1(v.path, num(i))) for i in R(n)]
        return ZERO

    def f_GetFromReceiveBuffer(self, I, e, fr, s, obj, this, argn):
        k, v = I.tm(I.rv(I.ev(argn[0], fr, s), s), s), I.ev(argn[1], fr, s)
        n = self.edge(this)
        m = self.sh.get(("msg", self.mesh.peer(n), str(k)))
        if m is None:
            if self.sh.get("final"):
                self.sh.setdefault("missing", []).append((n, self.where(fr, e)))
            return ZERO
        for i in R(conc(I.size_of(v.path, s), "message size")):
            if i < len(m):
                write(s, at1(v.path, num(i)), m[i])
        return ZERO

    def put(self, I, s, a, v):
        write(s, ptr(I, a, s), v)

    def f_MPI_Comm_size(self, I, e, fr, s, obj, this, argn):
        self.put(I, s, I.ev(argn[1], fr, s), num(len(self.mesh.ranks)))
        return ZERO

    def f_MPI_Comm_rank(self, I, e, fr, s, obj, this, argn):
        self.put(I, s, I.ev(argn[1], fr, s), num(self.rank))
        return ZERO

    def f_MPI_Gather(self, I, e, fr, s, obj, this, argn):
        self.sh[("gather", self.rank)] = arr(I, I.ev(argn[0], fr, s), s, 1)[0]
        if self.rank == 0:
            p = ptr(I, I.ev(argn[3], fr, s), s)
            p = p.args[0] if p.op == "elem" else p
            for r in R(len(self.mesh.ranks)):
                write(s, at1(p, num(r)), self.sh.get(("gather", r), ZERO))
        return ZERO

    def f_MPI_Bcast(self, I, e, fr, s, obj, this, argn):
        p = ptr(I, I.ev(argn[0], fr, s), s)
        if self.rank == 0:
            self.sh["bcast"] = read(s, p)
        else:
            write(s, p, self.sh.get("bcast", ZERO))
        return ZERO

    def f_MPI_Scatter(self, I, e, fr, s, obj, this, argn):
        if self.rank == 0:
            self.sh["scatter"] = arr(I, I.ev(argn[0], fr, s), s, len(self.mesh.ranks))
        self.put(I, s, I.ev(argn[3], fr, s), self.sh.get("scatter", [ZERO] * 9)[self.rank])
        return ZERO

    def f_MPI_Allreduce(self, I, e, fr, s, obj, this, argn):
        return ZERO

    # ------------------------------------------------------------ solver library
    def obj(self, I, fr, s, a):
        """the handle passed (by value or by address)"""
        v = I.ev(a, fr, s)
        if isinstance(v, Loc):
            return v.path
        if isinstance(v, t.T) and v.op == "addr":
            return v.args[0]
        return v

    def f_MatSetSizes(self, I, e, fr, s, obj, this, argn):
        self.sizes[self.obj(I, fr, s, argn[0])] = [I.tm(I.rv(I.ev(a, fr, s), s), s) for a in argn[3:5]]
        return ZERO

    def f_MatCreateBAIJ(self, I, e, fr, s, obj, this, argn):
        a = [I.tm(I.rv(I.ev(x, fr, s), s), s) for x in argn[1:6]]
        p = self.obj(I, fr, s, argn[-1])
        self.bs[p], self.sizes[p], self.sizes[("own", p)] = a[0], a[3:5], a[1:3]
        return ZERO

    def f_VecCreateMPI(self, I, e, fr, s, obj, this, argn):
        a = [I.tm(I.rv(I.ev(x, fr, s), s), s) for x in argn[1:3]]
        p = self.obj(I, fr, s, argn[-1])
        self.sizes[p], self.sizes[("own", p)] = [a[1]], [a[0]]
        return ZERO

    def f_VecCreateSeq(self, I, e, fr, s, obj, this, argn):
        self.sizes[self.obj(I, fr, s, argn[-1])] = [I.tm(I.rv(I.ev(argn[1], fr, s), s), s)]
        return ZERO

    def f_VecSetBlockSize(self, I, e, fr, s, obj, this, argn):
        self.bs[self.obj(I, fr, s, argn[0])] = I.tm(I.rv(I.ev(argn[1], fr, s), s), s)
        return ZERO

    def num(self, I, fr, s, a, what):
        return conc(I.tm(I.rv(I.ev(a, fr, s), s), s), what)

    def f_ISCreateGeneral(self, I, e, fr, s, obj, this, argn):
        n = self.num(I, fr, s, argn[1], "length")
        self.isets[self.obj(I, fr, s, argn[-1])] = [conc(x, "index") for x in arr(I, I.ev(argn[2], fr, s), s, n)]
        return ZERO

    def f_ISCreateBlock(self, I, e, fr, s, obj, this, argn):
        b, n = self.num(I, fr, s, argn[1], "block"), self.num(I, fr, s, argn[2], "length")
        self.isets[self.obj(I, fr, s, argn[-1])] = [conc(x, "index") * b + i for x in arr(I, I.ev(argn[3], fr, s), s, n) for i in R(b)]
        return ZERO

    def f_ISCreateStride(self, I, e, fr, s, obj, this, argn):
        n, a, d = [self.num(I, fr, s, x, "stride") for x in argn[1:4]]
        self.isets[self.obj(I, fr, s, argn[-1])] = [a + d * i for i in R(n)]
        return ZERO

    def f_VecScatterCreate(self, I, e, fr, s, obj, this, argn):
        x, a, y, b, sc = [self.obj(I, fr, s, k) for k in argn]
        self.scat[sc] = (x, list(self.isets[a]), y, list(self.isets[b]))
        return ZERO

    def f_VecScatterBegin(self, I, e, fr, s, obj, this, argn):
        sc, x, y = [self.obj(I, fr, s, k) for k in argn[:3]]
        x0, a, y0, b = self.scat[sc]
        if x is not x0 or y is not y0 or len(a) != len(b):
            raise Undecided("scatter of other vectors")
        for i, j in zip(a, b):
            write(s, at1(mk("param", 32, "LOCAL"), num(j)), at1(self.Z, num(i)))
        return ZERO

    def f_VecGetArray(self, I, e, fr, s, obj, this, argn):
        self.put(I, s, I.ev(argn[1], fr, s), mk("addr", at1(mk("param", 32, "LOCAL"), ZERO)))
        return ZERO

    def f_VecGetLocalSize(self, I, e, fr, s, obj, this, argn):
        self.put(I, s, I.ev(argn[1], fr, s), self.sizes[self.obj(I, fr, s, argn[0])][0])
        return ZERO

    def f_VecGetSize(self, I, e, fr, s, obj, this, argn):
        self.put(I, s, I.ev(argn[1], fr, s), self.sizes[self.obj(I, fr, s, argn[0])][0])
        return ZERO

    def f_VecNorm(self, I, e, fr, s, obj, this, argn):
        self.put(I, s, I.ev(argn[2], fr, s), sqrt(t.add(*[sq(at1(self.Z, num(i))) for i in R(conc(self.sizes[self.obj(I, fr, s, argn[0])][0], "size"))])))
        return ZERO

    def f_vector_from_array(self, I, e, fr, s, obj, this, argn):
        n = self.num(I, fr, s, argn[1], "length")
        v = arr(I, I.ev(argn[0], fr, s), s, n)
        return Mat(num(n), ONE, lambda i, j: v[int(t.numval(i))])

    def f_KSPSolve(self, I, e, fr, s, obj, this, argn):
        k, b, x = [self.obj(I, fr, s, a) for a in argn]
        if b is not x:
            raise Undecided("solution kept apart from the right hand side")
        self.solves.append((self.ops.get(k) if hasattr(self, "ops") else None, None, self.where(fr, e)))
        self.vecname = b
        return ZERO

    def f_KSPSetOperators(self, I, e, fr, s, obj, this, argn):
        if not hasattr(self, "ops"):
            self.ops = {}
        k, a, b = [self.obj(I, fr, s, x) for x in argn]
        self.ops[k] = a if a is b else None
        return ZERO

    def f_MatZeroEntries(self, I, e, fr, s, obj, this, argn):
        self.sh.setdefault("zeroed", []).append(("mat", self.rank, len(self.trip), self.obj(I, fr, s, argn[0]), len(self.solves)))
        return ZERO

    def f_VecZeroEntries(self, I, e, fr, s, obj, this, argn):
        self.sh.setdefault("zeroed", []).append(("vec", self.rank, len(self.vec), self.obj(I, fr, s, argn[0]), len(self.solves)))
        return ZERO

    def rowcol(self, I, fr, s, n, p, b):
        n = self.num(I, fr, s, n, "count")
        return [conc(x, "index") * b + i for x in arr(I, I.ev(p, fr, s), s, n) for i in R(b)]

    def matset(self, I, e, fr, s, argn, b):
        m = self.obj(I, fr, s, argn[0])
        rs, cs = self.rowcol(I, fr, s, argn[1], argn[2], b), self.rowcol(I, fr, s, argn[3], argn[4], b)
        v = arr(I, I.ev(argn[5], fr, s), s, len(rs) * len(cs))
        for i, r in enumerate(rs):
            for j, c in enumerate(cs):
                self.trip.append((r, c, v[i * len(cs) + j], self.where(fr, e)))
        self.matname = m
        return ZERO

    def vecset(self, I, e, fr, s, argn, b):
        self.vecto = self.obj(I, fr, s, argn[0])
        rs = self.rowcol(I, fr, s, argn[1], argn[2], b)
        v = arr(I, I.ev(argn[3], fr, s), s, len(rs))
        self.vec += [(r, x, self.where(fr, e)) for r, x in zip(rs, v)]
        return ZERO

    def f_MatSetValues(self, I, e, fr, s, obj, this, argn):
        return self.matset(I, e, fr, s, argn, 1)

    def f_VecSetValues(self, I, e, fr, s, obj, this, argn):
        return self.vecset(I, e, fr, s, argn, 1)

    def f_MatSetValuesBlocked(self, I, e, fr, s, obj, this, argn):
        return self.matset(I, e, fr, s, argn, conc(self.bs[self.obj(I, fr, s, argn[0])], "block size"))

    def f_VecSetValuesBlocked(self, I, e, fr, s, obj, this, argn):
        return self.vecset(I, e, fr, s, argn, conc(self.bs[self.obj(I, fr, s, argn[0])], "block size"))


# ---------------------------------------------------------------- numbers
def solve(A, B):
    """A x = B for sampled entries"""
    n = len(A)
    M = [list(A[i]) + list(B[i]) for i in R(n)]
    for i in R(n):
        p = max(R(i, n), key=lambda r: abs(M[r][i]))
        if abs(M[p][i]) < 1e-12:
            raise Undecided("singular sample")
        M[i], M[p] = M[p], M[i]
        for r in R(n):
            if r != i:
                f = M[r][i] / M[i][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    return [[x / M[i][i] for x in M[i][n:]] for i in R(n)]


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in R(len(B))) for j in R(len(B[0]))] for i in R(len(A))]


class Num(Ev):
    """sampled entries; inverses are taken of the sampled matrix"""

    def app(self, x, env):
        if x.args[0] == "matinv":
            if not hasattr(self, "_inv"):
                self._inv = {}
            n = int(t.numval(x.args[1]))
            i, j, fl = x.args[2], x.args[3], x.args[4]
            if fl not in self._inv:
                v = [self.num(y, env) for y in fl.args[0]]
                A = [v[r * n:(r + 1) * n] for r in R(n)]
                self._inv[fl] = solve(A, [[1.0 if a == b else 0.0 for b in R(n)] for a in R(n)])
            return self._inv[fl][int(t.numval(i))][int(t.numval(j))]
        return Ev.app(self, x, env)


# ---------------------------------------------------------------- the schemes
class IHDG(object):
    name, fields = "IHDG", "global_dof_indx"
    nv = 3
    pre = {"serial": (r"SWE::IHDG::Problem::preprocessor_serial$", ["disc", "global", "stepper", "input"]),
           "ompi": (r"SWE::IHDG::Problem::preprocessor_ompi$", ["sim_units", "global", "stepper", "begin", "end"])}
    sol = {"serial": (r"SWE::IHDG::Problem::serial_solve_global_problem$", ["disc", "global", "stepper"]),
           "ompi": (r"SWE::IHDG::Problem::ompi_solve_global_problem$", ["sim_units", "global", "stepper", "begin", "end"])}
    skip = ("ComputeInitTrace", "initialize_data_serial", "initialize_data_parallel_pre_send", "initialize_data_parallel_post_receive", "ComputeUgp")
    mat, vec = "delta_hat_global", "rhs_global"

    def dofs(self, st, E, mesh):
        p = E.edge_data.edge_internal.global_dof_indx.p
        return self.lst(st, p)

    def lst(self, st, p):
        n = intval(read(st, fld(p, "#size")))
        if n is None:
            return None
        return [intval(read(st, at1(p, num(i)))) for i in R(n)]

    def slot(self, st, b, mesh):
        return self.lst(st, b.global_dof_indx.p)

    def extent(self, mesh):
        return self.nv * mesh.ne

    def element(self, st, mesh, e):
        """(A, r, C per side, B per side) of the element's equations"""
        i, N, M = mesh.data(e).internal, 3 * mesh.nb, 3 * mesh.ne
        A = fill(st, i.delta_local.p, N, N, "A%d" % e)
        r = fill(st, i.rhs_local.p, N, None, "r%d" % e)
        C = [fill(st, mesh.bound(e, s).delta_hat_local.p, N, M, "C%d.%d" % (e, s)) for s in R(mesh.nside[e])]
        B = [fill(st, mesh.bound(e, s).delta_global.p, M, N, "B%d.%d" % (e, s)) for s in R(mesh.nside[e])]
        return A, [[x] for x in r], C, B

    def trace(self, st, mesh, n, E):
        i, M = E.edge_data.edge_internal, 3 * mesh.ne
        return fill(st, i.delta_hat_global.p, M, M, "D%d" % n), [[x] for x in fill(st, i.rhs_global.p, M, None, "g%d" % n)]

    def before(self, st, mesh):
        for e in mesh.nside:
            fill(st, self.state(mesh, e), 3, mesh.nb, "q%d" % e)
        for n, (k, ed, E) in enumerate(mesh.edges):
            fill(st, E.edge_data.edge_state.q_hat.p, 3, mesh.ne, "u%d" % n)

    def state(self, mesh, e):
        return fld(at1(mesh.data(e).state.p, t.add(fld(mk("param", 2, "stepper"), "stage"), ONE)), "q")

    def results(self, st, mesh, e, x):
        """(location, what it must be) from the element's part of the solution"""
        p = self.state(mesh, e)
        for i in R(len(x)):
            yield at2(p, num(i % 3), num(i // 3)), lambda ev, i=i: ev.num(at2(mk("param", 30, "q%d" % e), num(i % 3), num(i // 3)), {}) + x[i][0], "variable %d function %d" % (i % 3, i // 3)

    def trace_results(self, mesh, n, E, u):
        p = E.edge_data.edge_state.q_hat.p
        for i in R(len(u)):
            yield at2(p, num(i % 3), num(i // 3)), lambda ev, i=i: ev.num(at2(mk("param", 30, "u%d" % n), num(i % 3), num(i // 3)), {}) + u[i][0], "variable %d function %d" % (i % 3, i // 3)


class GN(object):
    name = "GN"
    pre = {"serial": (r"GN::EHDG::Problem::preprocessor_serial$", ["disc", "global", "stepper", "input"]),
           "ompi": (r"GN::EHDG::Problem::preprocessor_ompi$", ["sim_units", "global", "stepper", "begin", "end"])}
    sol = {"serial": (r"GN::EHDG::Problem::serial_solve_global_dc_problem$", ["disc", "global", "stepper"]),
           "ompi": (r"GN::EHDG::Problem::ompi_solve_global_dc_problem$", ["sim_units", "global", "stepper", "begin", "end"])}
    skip = ("preprocessor_serial", "preprocessor_ompi", "initialize_data_serial", "initialize_data_parallel_pre_send", "initialize_data_parallel_post_receive",
            "compute_bathymetry_derivatives_serial", "compute_bathymetry_derivatives_ompi")
    mat, vec = "w1_hat_w1_hat", "w1_hat_rhs"

    def dofs(self, st, E, mesh):
        return self.block(st, E.edge_data.edge_internal.dc_global_dof_indx.p, mesh)

    def slot(self, st, b, mesh):
        return self.block(st, b.dc_global_dof_indx.p, mesh)

    def block(self, st, p, mesh):
        k = intval(read(st, p))
        n = 2 * mesh.ne
        return None if k is None else [k * n + i for i in R(n)]

    def extent(self, mesh):
        return 2 * mesh.ne

    def element(self, st, mesh, e):
        i, N, M, W = mesh.data(e).internal, 2 * mesh.nb, 2 * mesh.ne, mesh.nb
        f = lambda p, n, m, tag: fill(st, p.p, n, m, "%s.%d" % (tag, e))
        a, b, c, d = f(i.w1_w1, N, N, "w11"), f(i.w1_w2, N, W, "w12"), f(i.w2_w1, W, N, "w21"), f(i.w2_w2, W, W, "w22")
        r = f(i.w1_rhs, N, None, "wr")
        A = [x + y for x, y in zip(a, b)] + [x + y for x, y in zip(c, d)]
        C, B = [], []
        for s in R(mesh.nside[e]):
            o = mesh.bound(e, s)
            C.append(f(o.w1_w1_hat, N, M, "w1h.%d" % s) + f(o.w2_w1_hat, W, M, "w2h.%d" % s))
            B.append([x + y for x, y in zip(f(o.w1_hat_w1, M, N, "hw1.%d" % s), f(o.w1_hat_w2, M, W, "hw2.%d" % s))])
        return A, [[x] for x in r] + [[ZERO]] * W, C, B

    def trace(self, st, mesh, n, E):
        i, M = E.edge_data.edge_internal, 2 * mesh.ne
        return fill(st, i.w1_hat_w1_hat.p, M, M, "D%d" % n), [[ZERO]] * M

    def before(self, st, mesh):
        for e in mesh.nside:
            fill(st, self.state(mesh, e), 2, mesh.nb, "w%d" % e)

    def state(self, mesh, e):
        return fld(at1(mesh.data(e).state.p, fld(mk("param", 2, "stepper"), "stage")), "w1")

    def results(self, st, mesh, e, x):
        p = self.state(mesh, e)
        for i in R(2 * mesh.nb):
            yield at2(p, num(i % 2), num(i // 2)), lambda ev, i=i: x[i][0], "component %d function %d" % (i % 2, i // 2)

    def trace_results(self, mesh, n, E, u):
        return ()


def same(a, b, scale):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b), scale)


def scenario(ctx, P, sch, mode, mesh, tag, wet=None):
    """number, assemble, solve and put back on one mesh; the numbers of the equations are compared at sample entries"""
    dist = mode == "ompi"
    f0, f1 = [[f for f in P.find_re(x[mode][0])] for x in (sch.pre, sch.sol)]
    if not f0 or not f1:
        raise Undecided("driver of %s not found" % sch.name)
    f0, f1 = f0[0], f1[0]
    n_r = len(mesh.ranks)
    sh, states, algs = {}, {}, {}
    iswet = lambda e: wet is None or wet[e]
    passes = 3 if dist else 1
    active = {nm: any(iswet(e) for n in ns for e, s_ in mesh.sides(mesh.edges[n][1])) for nm, ns in mesh.whole.items()}

    def common(st, r):
        if dist:
            write(st, fld(mk("param", 0, "sim_units"), "#size"), num(len(mesh.ranks[r])))
            write(st, mk("param", 3, "begin"), ZERO)
            write(st, mk("param", 4, "end"), num(len(mesh.ranks[r])))
            for k in R(len(mesh.ranks[r])):
                write(st, fld(P_(at1(mk("param", 0, "sim_units"), num(k))).discretization.mesh.p, "p"), num(mesh.ne - 1))
        else:
            write(st, fld(X(mk("param", 0, "disc")).mesh.p, "p"), num(mesh.ne - 1))
        for e in mesh.nside:
            write(st, mesh.data(e).wet_dry_state.wet.p, TRUE if iswet(e) else FALSE)
        for n, (k, ed, E) in enumerate(mesh.edges):
            if ed[0] == "dist":
                o, = [e for e, s_ in mesh.sides(mesh.edges[mesh.peer(n)][1])]
                write(st, E.boundary.boundary_condition.wet_neighbor.p, TRUE if iswet(o) else FALSE)
        write(st, mk("glob", "SWE::PostProcessing::wetting_drying"), FALSE if wet is None else TRUE)

    for ps in R(passes):
        sh["final"] = ps == passes - 1
        for r in R(n_r):
            st = interp.State()
            mesh.setup(st, r)
            common(st, r)
            if wet is not None:
                # numbered for an all-wet mesh first
                write(st, mk("glob", "SWE::PostProcessing::wetting_drying"), FALSE)
            alg = Alg(ctx, P, mesh, r, sh, sch.skip)
            rr = Run(P, f0, sch.pre[mode][1], state=st, ctx=ctx, hook=alg, alias=mesh.alias)
            states[r], algs[r] = rr.st, alg
    whole = {}
    runs = {}
    if wet is not None:
        numbering(ctx, sch, mode, mesh, tag + " before", states, {nm: True for nm in mesh.names}, f0)
    for ps in R(passes if wet is not None else 1):
        sh["final"] = ps == (passes if wet is not None else 1) - 1
        sh.pop("missing", None)
        sh.pop("zeroed", None)
        for r in R(n_r):
            st = states[r].copy()
            common(st, r)
            parts = {e: sch.element(st, mesh, e) for e in mesh.nside}
            traces = {n: sch.trace(st, mesh, n, E) for n, (k, ed, E) in enumerate(mesh.edges)}
            sch.before(st, mesh)
            a0 = algs[r]
            alg = Alg(ctx, P, mesh, r, sh, ())
            alg.isets, alg.scat, alg.sizes, alg.bs = dict(a0.isets), dict(a0.scat), dict(a0.sizes), dict(a0.bs)
            alg.ops = dict(getattr(a0, "ops", {}))
            if dist:
                for i in R(99):
                    write(st, at1(mk("param", 32, "LOCAL"), num(i)), mk("app", "unset"))
            runs[r] = (Run(P, f1, sch.sol[mode][1], state=st, ctx=ctx, hook=alg, alias=mesh.alias), alg)
    for n, w in sh.get("missing", ()):
        ctx.ob("number", "%s %s edge %s" % (sch.name, tag, n), False, w, "a number is awaited that the other side never sends")
    size, idx = numbering(ctx, sch, mode, mesh, tag, {r: runs[r][0].st for r in runs}, active, f1)
    if idx is None:
        return
    # extents
    for r, (rr, alg) in runs.items():
        for ok, what, w in sorted({(o, a, b) for o, a, b in alg.segs}, key=str):
            ctx.ob("extent", "%s %s %s: %s" % (sch.name, tag, w.split("/")[-1].split(":")[0], what), ok, w, "" if ok else "a part of the solution is taken outside its extent: %s" % what)
        g = mk("param", 1, "global")
        if dist:
            m, v = [alg.sizes.get(fld(g, k)) for k in (sch.mat, sch.vec)]
            ok = None if m is None or v is None else [intval(x) for x in m + v] == [size] * 3
            ctx.ob("extent", "%s %s rank %d system" % (sch.name, tag, r), ok, f0.where(), "sizes %s %s for %d unknowns" % (m, v, size))
        else:
            st = rr.st
            d = [intval(read(st, fld(fld(g, sch.mat), k))) for k in ("#rows", "#cols")] + [len(alg.solves[0][1])]
            ctx.ob("extent", "%s %s system" % (sch.name, tag), d == [size] * 3, f0.where(), "extents %s for %d unknowns" % (d, size))
        if len(alg.solves) != 1:
            raise Undecided("%d solves" % len(alg.solves))
        if dist:
            ok = alg.solves[0][0] is fld(g, sch.mat) and alg.vecname is fld(g, sch.vec) and (not alg.trip or alg.matname is fld(g, sch.mat)) and (not alg.vec or alg.vecto is fld(g, sch.vec))
            ctx.ob("matrix", "%s %s rank %d solved system" % (sch.name, tag, r), ok, alg.solves[0][2], "the system solved is not the one assembled")
            z = [x for x in sh.get("zeroed", ()) if x[1] == r]
            for kind, nm in (("mat", sch.mat), ("vec", sch.vec)):
                ok = any(x[0] == kind and x[3] is fld(g, nm) and (x[4] == 1 or x[2] == 0) for x in z) or (wet is not None)
                ctx.ob("matrix", "%s %s rank %d cleared %s" % (sch.name, tag, r, nm), ok, alg.solves[0][2], "the next system is added onto this one")
    # numbers
    bad = {}
    for seed in (1, 2):
        ev = Num(seed)
        V = lambda m: [[ev.num(x, {}) for x in row] for row in m]
        M = [[0.0] * size for _ in R(size)]
        wh = [[f1.where()] * size for _ in R(size)]
        for r, (rr, alg) in runs.items():
            for i, j, v, w in alg.trip:
                if not (0 <= i < size and 0 <= j < size):
                    bad[("matrix", "entry outside the system", w)] = "row %d column %d of %d" % (i, j, size)
                    continue
                M[i][j] += ev.num(v, {})
                wh[i][j] = w
        b = [0.0] * size
        for r, (rr, alg) in runs.items():
            vs = [(i, v) for i, v, w in alg.vec] if dist else list(enumerate(alg.solves[0][1]))
            for i, v in vs:
                if 0 <= i < size:
                    b[i] += ev.num(v, {})
        WM = [[0.0] * size for _ in R(size)]
        Wb = [0.0] * size

        def addb(T, rs, cs, B, f):
            for i, x in enumerate(rs):
                for j, y in enumerate(cs):
                    T[x][y] += f * B[i][j]
        el = {}
        for e in mesh.nside:
            if not iswet(e):
                continue
            A, rv, C, B = parts[e]
            A, rv = V(A), V(rv)
            C, B = [V(c) for c in C], [V(x) for x in B]
            el[e] = (A, rv, C)
            ids = [idx[mesh.name_of(e, s_)] for s_ in R(mesh.nside[e])]
            AC = [solve(A, c) for c in C]
            Ar = solve(A, rv)
            for s_ in R(mesh.nside[e]):
                for u in R(mesh.nside[e]):
                    addb(WM, ids[s_], ids[u], mm(B[s_], AC[u]), -1.0)
                for i, x in enumerate(mm(B[s_], Ar)):
                    Wb[ids[s_][i]] -= x[0]
        for n, (k, ed, E) in enumerate(mesh.edges):
            if not any(iswet(e) for e, s_ in mesh.sides(ed)):
                continue
            nm, = [nm for nm, ns in mesh.whole.items() if n in ns]
            D, g = traces[n]
            addb(WM, idx[nm], idx[nm], V(D), 1.0)
            for i, x in enumerate(V(g)):
                Wb[idx[nm][i]] += x[0]
        sc = max(1.0, max(abs(x) for row in WM for x in row) if size else 1.0)
        owner = {i: nm for nm, ii in idx.items() for i in ii}
        for i in R(size):
            for j in R(size):
                key = ("matrix", "%s %s edge %s against edge %s" % (sch.name, tag, owner[i], owner[j]), wh[i][j])
                if not same(M[i][j], WM[i][j], sc):
                    bad.setdefault(key, "row %d column %d is %.6g at a sample, eliminating the element unknowns gives %.6g" % (i, j, M[i][j], WM[i][j]))
                else:
                    bad.setdefault(key, "")
            key = ("rhs", "%s %s edge %s" % (sch.name, tag, owner[i]), f1.where())
            if not same(b[i], Wb[i], sc):
                bad[key] = bad.get(key) or "entry %d is %.6g at a sample, eliminating the element unknowns gives %.6g" % (i, b[i], Wb[i])
            else:
                bad.setdefault(key, "")
        Z = [[ev.num(at1(mk("param", 31, "Z"), num(i)), {})] for i in R(size)]
        for r, (rr, alg) in runs.items():
            mine = [k for k in mesh.ranks[r]]
            for e in mesh.nside:
                if not any(e in mesh.subs[k][0] for k in mine):
                    continue
                key = ("increment", "%s %s element %d" % (sch.name, tag, e), f1.where())
                bad.setdefault(key, "")
                if not iswet(e):
                    p = sch.state(mesh, e)
                    v = read(rr.st, at2(p, ZERO, ZERO))
                    if not (isinstance(v, t.T) and v is at2(mk("param", 30, "%s%d" % ("w" if sch.name == "GN" else "q", e)), ZERO, ZERO)):
                        bad[key] = "a dry element is changed"
                    continue
                A, rv, C = el[e]
                rhs = [list(x) for x in rv]
                for s_ in R(mesh.nside[e]):
                    for i, x in enumerate(mm(C[s_], [Z[k] for k in idx[mesh.name_of(e, s_)]])):
                        rhs[i][0] -= x[0]
                x = solve(A, rhs)
                for p, want, what in sch.results(rr.st, mesh, e, x):
                    g, w = ev.num(read(rr.st, p), {}), want(ev)
                    if not same(g, w, 1.0):
                        bad[key] = bad[key] or "%s becomes %.6g at a sample, the element's equations give %.6g" % (what, g, w)
            for n, (k, ed, E) in enumerate(mesh.edges):
                if k not in mine:
                    continue
                nm, = [nm for nm, ns in mesh.whole.items() if n in ns]
                if nm not in idx:
                    continue
                for p, want, what in sch.trace_results(mesh, n, E, [Z[i] for i in idx[nm]]):
                    key = ("increment", "%s %s trace of edge %s (%s side)" % (sch.name, tag, nm, n), f1.where())
                    bad.setdefault(key, "")
                    g, w = ev.num(read(rr.st, p), {}), want(ev)
                    if not same(g, w, 1.0):
                        bad[key] = bad[key] or "%s becomes %.6g at a sample, the solution gives %.6g" % (what, g, w)
    for (rule, inst, w), msg in bad.items():
        ctx.ob(rule, inst, not msg, w, msg)
    if sch.name == "IHDG":
        for r, (rr, alg) in runs.items():
            ret = rr.retval()
            ok = True
            why = ""
            zs = [at1(mk("param", 31, "Z"), num(i)) for i in R(size)]
            for i in [None] + list(R(size)):
                small = Num(1, fixed={z: (0.0 if i is None else 1e-9) if j != i else 1e-5 * size for j, z in enumerate(zs)})
                v = small.tr(ret, {})
                if bool(v) != (i is None):
                    ok, why = False, "with %s the iteration %s" % ("no increment" if i is None else "an increment of unknown %d" % i, "ends" if v else "goes on")
                    break
            small = Num(1, fixed={z: 1e-10 for z in zs})
            if ok and not small.tr(ret, {}):
                ok, why = False, "with increments of 1e-10 the iteration goes on"
            ctx.ob("stop", "%s %s rank %d" % (sch.name, tag, r), ok, f1.where(), why)


def numbering(ctx, sch, mode, mesh, tag, states, active, f):
    """(number of unknowns, edge -> its unknowns)"""
    idx, ok, why = {}, True, ""
    for nm, ns in mesh.whole.items():
        if not active[nm]:
            continue
        got = []
        for n in ns:
            k, ed, E = mesh.edges[n]
            st = states[mesh.rank[k]]
            mine = [x for x in mesh.sides(ed)]
            wetm = True
            if sch.name == "GN" and ed[0] == "dist":
                w = read(st, mesh.data(mine[0][0]).wet_dry_state.wet.p)
                wetm = w is not FALSE or " before" in tag
            if not wetm:
                continue
            got.append(("edge", sch.dofs(st, E, mesh)))
            for e, s_ in mine:
                if sch.name == "GN" and " before" not in tag and read(st, mesh.data(e).wet_dry_state.wet.p) is FALSE:
                    continue
                got.append(("element %d" % e, sch.slot(st, mesh.bound(e, s_), mesh)))
        v = got[0][1]
        bad = [w for w, x in got if x != v or x is None or any(i is None for i in x)]
        inst = "%s %s edge %s" % (sch.name, tag, nm)
        if bad:
            und = v is None or any(x is None or any(i is None for i in x) for w, x in got)
            ctx.ob("number", inst, None if und else False, f.where(), "numbers differ: %s" % got)
            return None, None
        good = len(v) == sch.extent(mesh) and v == list(R(v[0], v[0] + len(v)))
        ctx.ob("number", inst, good, f.where(), "" if good else "unknowns %s" % v)
        idx[nm] = v
    allv = sorted(i for v in idx.values() for i in v)
    good = allv == list(R(len(allv)))
    ctx.ob("number", "%s %s all" % (sch.name, tag), good, f.where(), "" if good else "numbers of all edges: %s" % allv)
    if not good:
        return None, None
    return len(allv), idx


TWO = [([0, 1], [("int", (0, 1), (1, 2)), ("bnd", (0, 0)), ("bnd", (0, 2)), ("bnd", (1, 0)), ("bnd", (1, 1))])]
THREE = [([0, 1, 2], [("int", (1, 0), (0, 1)), ("int", (1, 2), (2, 1)), ("bnd", (0, 0)), ("bnd", (0, 2)), ("bnd", (1, 1)), ("bnd", (2, 0)), ("bnd", (2, 2))])]
CUT = [([0, 1], [("int", (0, 1), (1, 2)), ("bnd", (0, 0)), ("bnd", (1, 1)), ("dist", (0, 2), "x"), ("dist", (1, 0), "y")]),
       ([2], [("bnd", (2, 1)), ("dist", (2, 0), "y"), ("dist", (2, 2), "z")]),
       ([3], [("dist", (3, 1), "x"), ("dist", (3, 0), "z"), ("bnd", (3, 2))])]


def run(ctx):
    ctx.rule("number", "every edge has its own consecutive unknowns, the same on all its sides and sub-domains, without gaps over the whole mesh", 60)
    ctx.rule("matrix", "every block of the assembled matrix is what eliminating the element unknowns leaves", 90)
    ctx.rule("rhs", "the assembled right hand side is what eliminating the element unknowns leaves", 30)
    ctx.rule("increment", "the solution put back satisfies the element's equations and updates exactly the unknowns it belongs to", 30)
    ctx.rule("extent", "the system has room for exactly the unknowns there are and no part of a vector is taken outside of it", 30)
    ctx.rule("stop", "the iteration ends exactly when the increment is negligible", 3)
    Ps = ctx.prog("serial")
    Po = ctx.prog("ompi", "stepper")
    go = lambda *a, **k: ctx.guard("matrix", "%s %s" % (a[1].name, a[4]), "", lambda: scenario(ctx, *a, **k), 240)
    ih, gn = IHDG(), GN()
    go(Ps, ih, "serial", Mesh(TWO, [[0]], 2, 1), "two cells")
    go(Ps, ih, "serial", Mesh(THREE, [[0]], 1, 2), "three cells")
    for ranks, nm in (([[0, 1, 2]], "one rank"), ([[0], [1], [2]], "three ranks"), ([[2, 0], [1]], "two ranks"), ([[], [0, 1], [2]], "an empty rank")):
        go(Po, ih, "ompi", Mesh(CUT, ranks, 1, 1 if ctx.tier == "quick" else 2), nm)
        go(Po, gn, "ompi", Mesh(CUT, ranks, 2, 1), nm)
    go(Ps, gn, "serial", Mesh(TWO, [[0]], 2, 1), "two cells")
    go(Ps, gn, "serial", Mesh(THREE, [[0]], 1, 2), "three cells")
    for w in ((1, 0, 1), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
        go(Ps, gn, "serial", Mesh(THREE, [[0]], 1, 1), "wet %d%d%d" % w, wet=[bool(x) for x in w])
    for ranks, nm in (([[0, 1, 2]], "one rank"), ([[2, 0], [1]], "two ranks")):
        for w in ((1, 0, 1, 1), (0, 0, 1, 0), (0, 1, 0, 1), (1, 1, 0, 0)):
            go(Po, gn, "ompi", Mesh(CUT, ranks, 1, 1), "%s wet %d%d%d%d" % ((nm,) + w), wet=[bool(x) for x in w])
