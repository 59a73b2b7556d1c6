"""P21: reference and physical element describe one and the same triangle."""
import math

from .. import terms as t
from ..spec import *
from ..interp import Undecided, Mat, Struct, read, fld, at1, at2, TRUE, FALSE
from ..evalt import Ev, NoEval, same
from .p14 import one, plist, decide_nan, F

XY = t.mk("this")


def run(ctx):
    ctx.rule("area", "area, side lengths, perimeter, circumradius, centre and edge midpoints are those of the triangle", 14)
    ctx.rule("map", "the map from the reference triangle takes its corners to the element's nodes and is affine; the inverse map undoes it", 20)
    ctx.rule("jacobian", "the Jacobian determinant and inverse are those of that map, and the gradients of the nodal functions follow from them", 12)
    ctx.rule("edge", "the points of an edge run from the first to the second of its nodes, and the edge's nodal functions interpolate between them", 18)
    ctx.rule("length", "the edge Jacobian is half the length of the edge", 3)
    ctx.rule("normal", "the normal of an edge has unit length, is perpendicular to the edge and points out of the element", 6)
    ctx.rule("facing", "two elements sharing an edge place the points of one edge rule at the same positions, in opposite order", 18)
    ctx.rule("contains", "a point is attributed to exactly the elements that contain it", 50)
    ctx.rule("orientation", "a triangle given clockwise is turned, so that the Jacobian determinant is positive", 2)
    P = ctx.prog("ompi", "stepper", "shape", "adcirc", "meta")
    G_ = Geo(ctx, P)
    for name, f in (("area", area), ("map", maps), ("jacobian", jacobian), ("edge", edges), ("contains", contains), ("orientation", orientation)):
        ctx.guard(name, name, G_.where("GetArea"), lambda: f(ctx, G_), 200)


class Geo(object):
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.fns = {f.name.split("::")[-1]: f for f in P.find_re(r"Shape::StraightTriangle::\w+$")}
        self.b2m = P.find_re(r"Master::Triangle::BoundaryToMasterCoordinates$")

    def where(self, m):
        return self.fns[m].where()

    def run(self, m, *args, **kw):
        return Run(self.P, self.fns[m], None, args=list(args), ctx=self.ctx, **kw)

    @staticmethod
    def x(k, d):
        return at1(at1(fld(XY, "nodal_coordinates"), t.num(k)), t.num(d))

    def to_global(self, z):
        r = self.run("LocalToGlobalCoordinates", points(J, z))
        return [got(r, 1, d) for d in range(2)]

    def on_edge(self, fn, b, s):
        """reference coordinates of the edge point with edge coordinate s"""
        r = Run(self.P, fn, None, args=[t.num(b), points((F(1, 7),), (s,))], ctx=self.ctx)
        return [got(r, 1, d) for d in range(2)]


SAMPLES = [((0.1, 0.2), (2.3, -0.4), (0.9, 1.7)), ((-3.2, 1.1), (-4.5, -0.7), (-1.3, -2.9)), ((5.0, 4.1), (5.3, 4.6), (4.2, 4.9)), ((12.7, -3.3), (19.9, 1.2), (14.1, 8.8))]


def geq(ctx, rule, inst, a, b, where, what):
    """equal on every triangle whose nodes run counter-clockwise"""
    a, b = term(a), term(b)
    if same(a, b)[0]:
        ctx.ob(rule, inst, True, where)
        return
    for k, xs in enumerate(SAMPLES):
        fixed = {node(i)[d]: xs[i][d] for i in range(3) for d in range(2)}
        try:
            u, v = (float(Ev(k + 1, fixed=fixed).num(x, {})) for x in (a, b))
        except NoEval as e:
            ctx.ob(rule, inst, None, where, "cannot evaluate: %r" % e)
            return
        if abs(u - v) > 1e-9 * (1 + abs(v)):
            ctx.ob(rule, inst, False, where, "%s is  %s  but must be  %s" % (what, str(a)[:300], str(b)[:300]))
            return
    ctx.ob(rule, inst, True, where)


def points(*zs):
    return t.mk("list", tuple(t.mk("list", tuple(c if isinstance(c, t.T) else t.num(c) for c in z)) for z in zs))


def got(r, *path):
    """entry of the returned object; (i,j) is a matrix entry"""
    v = r.ret
    if isinstance(v, Struct):
        p = v.path
        st = v.state
        for k in path:
            p = at2(p, term(k[0]), term(k[1])) if isinstance(k, tuple) else at1(p, term(k))
        w = read(st, p)
    elif isinstance(v, Mat):
        k = path[0]
        w = v.f(term(k[0]), term(k[1])) if isinstance(k, tuple) else v.at(term(k))
        for k in path[1:]:
            w = at1(w, term(k))
    elif isinstance(v, t.T):
        w = v
        for k in path:
            w = at2(w, term(k[0]), term(k[1])) if isinstance(k, tuple) else at1(w, term(k))
    else:
        w = r.ret_at(*path)
    if not isinstance(w, t.T):
        raise Undecided("no scalar result")
    return dims(w)


def dist(a, b):
    return t.power(t.add(*[t.power(t.sub(x, y), 2) for x, y in zip(a, b)]), F(1, 2))


def node(k):
    k %= 3
    return [Geo.x(k, 0), Geo.x(k, 1)]


def dbl_area():
    a, b, c = node(0), node(1), node(2)
    return t.sub(t.mul(t.sub(b[0], a[0]), t.sub(c[1], a[1])), t.mul(t.sub(c[0], a[0]), t.sub(b[1], a[1])))


def area(ctx, g):
    geq(ctx, "area", "area", g.run("GetArea").retval(), t.mul(t.num(F(1, 2)), dbl_area()), g.where("GetArea"), "area")
    side = [dist(node(k + 1), node(k + 2)) for k in range(3)]
    geq(ctx, "area", "perimeter", g.run("GetPerimeter").retval(), t.add(*side), g.where("GetPerimeter"), "perimeter")
    geq(ctx, "area", "circumradius", g.run("GetRadius").retval(), t.div(t.mul(*side), t.mul(t.num(2), dbl_area())), g.where("GetRadius"), "radius")
    L, M, B = g.run("GetLengths"), g.run("GetMidpointCoordinates"), g.run("GetBarycentricCoordinates")
    for k in range(3):
        geq(ctx, "area", "length of side %d" % k, got(L, k), side[k], g.where("GetLengths"), "length")
        for d in range(2):
            geq(ctx, "area", "midpoint of side %d, coordinate %d" % (k, d), got(M, k, d), t.mul(t.num(F(1, 2)), t.add(node(k + 1)[d], node(k + 2)[d])), g.where("GetMidpointCoordinates"), "midpoint")
    for d in range(2):
        geq(ctx, "area", "centre, coordinate %d" % d, got(B, d), t.mul(t.num(F(1, 3)), t.add(*[node(k)[d] for k in range(3)])), g.where("GetBarycentricCoordinates"), "centre")


J = (F(1, 7), F(-2, 5))
CORNERS = [(F(-1), F(-1)), (F(1), F(-1)), (F(-1), F(1))]
Z = [q("z1"), q("z2")]


def affine():
    """the affine map of the reference triangle onto the element, from the nodes alone"""
    l1 = t.mul(t.num(F(1, 2)), t.add(t.ONE, Z[0]))
    l2 = t.mul(t.num(F(1, 2)), t.add(t.ONE, Z[1]))
    return [t.add(node(0)[d], t.mul(l1, t.sub(node(1)[d], node(0)[d])), t.mul(l2, t.sub(node(2)[d], node(0)[d]))) for d in range(2)]


def maps(ctx, g):
    w = g.where("LocalToGlobalCoordinates")
    for k, z in enumerate(CORNERS):
        X_ = g.to_global(z)
        for d in range(2):
            geq(ctx, "map", "corner %d, coordinate %d" % (k, d), X_[d], node(k)[d], w, "image")
    X_ = g.to_global(Z)
    A = affine()
    for d in range(2):
        geq(ctx, "map", "image of a point, coordinate %d" % d, X_[d], A[d], w, "image")
    r = g.run("GlobalToLocalCoordinates", points(J, X_))
    for d in range(2):
        geq(ctx, "map", "back to the reference triangle, coordinate %d" % d, got(r, 1, d), Z[d], g.where("GlobalToLocalCoordinates"), "reference coordinate")
    ps = g.run("GetPsi", points(J, Z))
    for k, z in enumerate(CORNERS):
        at = g.run("GetPsi", points(J, z))
        for m in range(3):
            geq(ctx, "map", "nodal function %d at corner %d" % (m, k), got(at, (m, 1)), t.num(1 if m == k else 0), g.where("GetPsi"), "value")
    geq(ctx, "map", "nodal functions add up to one", t.add(*[got(ps, (m, 1)) for m in range(3)]), t.ONE, g.where("GetPsi"), "sum")
    for d in range(2):
        geq(ctx, "map", "nodal functions reproduce the map, coordinate %d" % d, t.add(*[t.mul(got(ps, (m, 1)), node(m)[d]) for m in range(3)]), A[d], g.where("GetPsi"), "interpolant")


def jacobian(ctx, g):
    A = affine()
    dz = [[t.diff(A[d], Z[k]) for k in range(2)] for d in range(2)]
    det = t.sub(t.mul(dz[0][0], dz[1][1]), t.mul(dz[0][1], dz[1][0]))
    none = points()
    geq(ctx, "jacobian", "determinant", got(g.run("GetJdet", points(Z)), 0), det, g.where("GetJdet"), "determinant")
    geq(ctx, "jacobian", "twice the determinant is the area", t.mul(t.num(2), got(g.run("GetJdet", points(Z)), 0)), g.run("GetArea").retval(), g.where("GetJdet"), "reference area times determinant")
    r = g.run("GetJinv", points(Z))
    for i in range(2):
        for j in range(2):
            s = t.add(*[t.mul(got(r, 0, (i, k)), dz[k][j]) for k in range(2)])
            geq(ctx, "jacobian", "inverse times Jacobian, entry (%d,%d)" % (i, j), s, t.num(1 if i == j else 0), g.where("GetJinv"), "product")
    r = g.run("GetDPsi", points(J, Z))
    for d in range(2):
        geq(ctx, "jacobian", "gradients of the nodal functions add up to zero, direction %d" % d, t.add(*[got(r, d, (m, 1)) for m in range(3)]), t.ZERO, g.where("GetDPsi"), "sum")
        for e in range(2):
            s = t.add(*[t.mul(got(r, d, (m, 1)), node(m)[e]) for m in range(3)])
            geq(ctx, "jacobian", "derivative of coordinate %d in direction %d" % (e, d), s, t.num(1 if d == e else 0), g.where("GetDPsi"), "gradient")


def edges(ctx, g):
    s = q("s")
    A = affine()
    for fn in g.b2m[:1 if ctx.tier == "quick" else None]:
        for b in range(3):
            a, c = node(b + 1), node(b + 2)
            ids = g.run("GetBoundaryNodeID", t.num(b), t.mk("param", 1, "node_ID"))
            for k in range(2):
                geq(ctx, "edge", "node %d of edge %d" % (k, b), got(ids, k), at1(ids.args[1].p, t.num((b + 1 + k) % 3)), g.where("GetBoundaryNodeID"), "node")
            z = g.on_edge(fn, b, s)
            X_ = [t.subst(x, {Z[0]: z[0], Z[1]: z[1]}) for x in A]
            bp = g.run("GetBoundaryPsi", t.num(b), points((F(1, 7),), (s,)))
            for d in range(2):
                want = t.mul(t.num(F(1, 2)), t.add(t.mul(t.sub(t.ONE, s), a[d]), t.mul(t.add(t.ONE, s), c[d])))
                geq(ctx, "edge", "point of edge %d, coordinate %d" % (b, d), X_[d], want, fn.where(), "position")
                geq(ctx, "edge", "interpolation on edge %d, coordinate %d" % (b, d), t.add(t.mul(got(bp, (0, 1)), a[d]), t.mul(got(bp, (1, 1)), c[d])), want, g.where("GetBoundaryPsi"), "interpolant")
            geq(ctx, "length", "edge %d" % b, got(g.run("GetSurfaceJ", t.num(b), points(z)), 0), t.mul(t.num(F(1, 2)), dist(a, c)), g.where("GetSurfaceJ"), "edge Jacobian")
            nr = g.run("GetSurfaceNormal", t.num(b), points(z))
            n = [got(nr, 0, d) for d in range(2)]
            sg = t.div(dbl_area(), t.app("abs", dbl_area()))
            want = [t.div(t.mul(sg, t.sub(c[1], a[1])), dist(a, c)), t.div(t.mul(sg, t.sub(a[0], c[0])), dist(a, c))]
            for d in range(2):
                geq(ctx, "normal", "edge %d, coordinate %d" % (b, d), n[d], want[d], g.where("GetSurfaceNormal"), "normal")
            # the neighbour runs along the edge the other way
            for b2 in range(3):
                z2 = g.on_edge(fn, b2, t.neg(s))
                X2 = [t.subst(x, {Z[0]: z2[0], Z[1]: z2[1]}) for x in A]
                # the neighbour's nodes of its edge b2 are this element's nodes b+2, b+1
                m = {}
                for d in range(2):
                    m[node(b2 + 1)[d]] = c[d]
                    m[node(b2 + 2)[d]] = a[d]
                    m[node(b2)[d]] = q("other%d" % d)
                for d in range(2):
                    geq(ctx, "facing", "edge %d against edge %d, coordinate %d" % (b, b2, d), t.subst(X2[d], m), X_[d], fn.where(), "position")


def contains(ctx, g):
    A = affine()
    r = g.run("ContainsPoint", t.mk("list", tuple(A)))
    c = r.retval()
    inside = [(F(1, 3), F(1, 3)), (F(1, 10), F(8, 10)), (F(8, 10), F(1, 10)), (F(1, 10), F(1, 10)), (F(0), F(1, 2)), (F(1, 2), F(0)), (F(1, 2), F(1, 2)), (F(0), F(0)), (F(1), F(0)), (F(0), F(1))]
    out = [(F(-1, 10), F(1, 2)), (F(1, 2), F(-1, 10)), (F(6, 10), F(6, 10)), (F(-1, 10), F(-1, 10)), (F(12, 10), F(-1, 10)), (F(-1, 10), F(12, 10)), (F(-1, 10), F(11, 10)), (F(11, 10), F(-1, 10))]
    tri = [((F(0), F(0)), (F(2), F(0)), (F(0), F(1))), ((F(1), F(1)), (F(3), F(2)), (F(2), F(5))), ((F(-4), F(2)), (F(-6), F(-1)), (F(-3), F(-2)))]
    for k, xs in enumerate(tri):
        m = {node(i)[d]: t.num(xs[i][d]) for i in range(3) for d in range(2)}
        for want, zs in ((True, inside), (False, out)):
            for l in zs:
                mm = dict(m)
                mm[Z[0]], mm[Z[1]] = t.num(2 * l[0] - 1), t.num(2 * l[1] - 1)
                v = t.subst(c, mm)
                if v is not TRUE and v is not FALSE:
                    ctx.ob("contains", "triangle %d at (%s, %s)" % (k, l[0], l[1]), None, g.where("ContainsPoint"), "not decided: %s" % str(v)[:200])
                    continue
                ctx.ob("contains", "triangle %d at (%s, %s)" % (k, l[0], l[1]), (v is TRUE) == want, g.where("ContainsPoint"), "%s point is %s" % ("inner" if want else "outer", "accepted" if v is TRUE else "rejected"))


def orientation(ctx, g):
    fn = g.fns["StraightTriangle"]
    base = {}
    for k, xs in enumerate([((F(0), F(0)), (F(2), F(0)), (F(0), F(1))), ((F(0), F(0)), (F(0), F(1)), (F(2), F(0))), ((F(5), F(1)), (F(3), F(7)), (F(-2), F(-3)))]):
        nc = points(*[x + (F(9),) for x in xs])
        r = Run(g.P, fn, None, args=[nc], ctx=ctx)
        ns = [tuple(r[fld(fld(XY, "nodal_coordinates"), "#x")] for _ in ()) for _ in ()]
        ns = [[r[at1(at1(fld(XY, "nodal_coordinates"), t.num(i)), t.num(d))] for d in range(2)] for i in range(3)]
        vs = [[t.numval(c) for c in n] for n in ns]
        if any(c is None for n in vs for c in n):
            raise Undecided("corners after construction: %s" % str(ns)[:200])
        det = (vs[1][0] - vs[0][0]) * (vs[2][1] - vs[0][1]) - (vs[2][0] - vs[0][0]) * (vs[1][1] - vs[0][1])
        ok = det > 0 and sorted(map(tuple, vs)) == sorted(xs)
        ctx.ob("orientation", "triangle %d" % k, ok, fn.where(), "corners %s" % vs)
