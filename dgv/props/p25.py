"""P25: the tables an element and its edges integrate, interpolate and project with are those of
its own triangle, basis and quadrature points."""
import math
import random

from .. import terms as t
from ..spec import *
from ..interp import Undecided, Mat, Struct, Loc, read, write, fld, at1, at2
from ..evalt import Ev, NoEval
from .p14 import one, F, decide_nan, Table, inverse
from .p21 import SAMPLES

CORNERS = [(F(-1), F(-1)), (F(1), F(-1)), (F(-1), F(1))]
FAMILY = {"Shape::Shape": "Shape::StraightTriangle", "Master::Master": "Master::Triangle", "Basis::Basis": "Basis::Dubiner_2D"}
TOL = 1e-9


def run(ctx):
    ctx.rule("points", "the quadrature points of an element lie in it and those of an edge run along it counterclockwise, the other side's in opposite order", 20)
    ctx.rule("weights", "the weights integrate exactly every polynomial of twice the basis degree over the element or the edge", 20)
    ctx.rule("values", "the tables of basis, linear and nodal functions hold the values of those functions at the quadrature points", 60)
    ctx.rule("gradients", "the tables of derivatives hold the derivatives in physical coordinates", 10)
    ctx.rule("products", "each integration table is the product of its functions with the weight of the point, stored where its reader looks", 40)
    ctx.rule("mass", "the inverse mass matrix inverts the integrals of products of the basis functions", 6)
    ctx.rule("normals", "the normals of an edge are the outward normals of each of its sides", 12)
    ctx.rule("sizes", "the numbers of degrees of freedom and quadrature points handed to the element's data are those of its tables", 12)
    ctx.rule("methods", "interpolation, differentiation, projection and integration routines apply the table they are named after", 40)
    P = ctx.prog("ompi", "stepper", "shape", "dubiner", "legendre", "polys", "dunavant", "gauss")
    for p in ((1, 2) if ctx.tier == "quick" else (1, 2, 3, 4)):
        W = None
        f = one(P, r"Master::Triangle::Triangle$")
        def go():
            W = World(ctx, P, p)
            element(W)
            return W
        W = ctx.guard("values", "element, degree %d" % p, f.where(), go, 300)
        sides = [(0, 1), (1, 2), (2, 0), (1, 1)] if ctx.tier == "quick" else [(0, 1), (2, 2)] if p > 3 else [(a, b) for a in range(3) for b in range(3)]
        fi, fb = ctors(P, "Interface"), ctors(P, "Boundary")
        for k, (a, b) in enumerate(sides):
            ctx.guard("values", "sides %d|%d, degree %d" % (a, b, p), fi[0].where(), lambda: interface(ctx, P, p, fi[0], a, b), 200)
        for b in range(3):
            ctx.guard("values", "side %d, degree %d" % (b, p), fb[0].where(), lambda: boundary(ctx, P, p, fb[0], b), 200)
    for n, fn in enumerate(fi[1:]):
        ctx.guard("values", "interface variant %d" % (n + 1), fn.where(), lambda: interface(ctx, P, 1, fn, 2, 1, "variant %d, " % (n + 1)), 100)
    for n, fn in enumerate(fb[1:]):
        ctx.guard("values", "boundary variant %d" % (n + 1), fn.where(), lambda: boundary(ctx, P, 1, fn, 1, "variant %d, " % (n + 1)), 100)


def ctors(P, cls):
    f = [x for x in P.find_re(r"Geometry::%s::%s$" % (cls, cls)) if x.body]
    if not f:
        raise Undecided("no constructor of %s" % cls)
    return f


def dispatch(P):
    def hook(I, e, fr, st, name, fn, obj, this, argn):
        b, _, f = name.rpartition("::")
        if b in FAMILY and this is not None:
            c = P.find_re(FAMILY[b] + "::" + f + "$")
            if len(c) == 1:
                return I.inline(c[0], fr, st, this, [I.ev(a, fr, st) for a in argn], e[1])
        return NotImplemented
    return hook


KW = dict(unroll=400, decide=decide_nan(False))


class Triangle(object):
    """a sample triangle: what its nodal coordinates are, and how reference coordinates map to it"""

    def __init__(self, xs):
        self.xs = xs
        (ax, ay), (bx, by), (cx, cy) = xs
        self.det = ((bx - ax) * (cy - ay) - (cx - ax) * (by - ay)) / 4.0
        # d(reference)/d(physical)
        j = [[(bx - ax) / 2, (cx - ax) / 2], [(by - ay) / 2, (cy - ay) / 2]]
        self.inv = [[j[1][1] / self.det, -j[0][1] / self.det], [-j[1][0] / self.det, j[0][0] / self.det]]

    def fixed(self, shape):
        nc = fld(shape, "nodal_coordinates")
        return {at1(at1(nc, t.num(k)), t.num(d)): self.xs[k][d] for k in range(3) for d in range(2)}

    def ref(self, x, y):
        dx, dy = x - self.xs[0][0], y - self.xs[0][1]
        return (self.inv[0][0] * dx + self.inv[0][1] * dy - 1, self.inv[1][0] * dx + self.inv[1][1] * dy - 1)

    def phys(self, z):
        l = bary(z)
        return tuple(sum(l[k] * self.xs[k][d] for k in range(3)) for d in range(2))


def bary(z):
    return (-(z[0] + z[1]) / 2.0, (1 + z[0]) / 2.0, (1 + z[1]) / 2.0)


TRI = [Triangle(x) for x in SAMPLES]


def monomial_exact(T_, i, j):
    """integral of (l1)^i (l2)^j over the triangle (barycentric coordinates)"""
    return 2 * (2 * T_.det) * math.factorial(i) * math.factorial(j) / math.factorial(i + j + 2)


def basis_at(ctx, P, p, zs):
    tb = Table(ctx, P, "Dubiner_2D", p, [tuple(F(c).limit_denominator(10 ** 15) for c in z) for z in zs])
    return [[float(v) for v in r] for r in tb.f], [[[float(v) for v in r] for r in m] for m in tb.g]


class Reader(object):
    """numeric value of the program's tables on a sample triangle"""

    def __init__(self, r, T_, shapes, extra=None):
        self.r = r
        fx = {}
        for s, tri in zip(shapes, T_ if isinstance(T_, (list, tuple)) else [T_] * len(shapes)):
            fx.update(tri.fixed(s))
        fx.update(extra or {})
        self.ev = Ev(7, fixed=fx)

    def __call__(self, path):
        return self.num(self.r[path])

    def num(self, v):
        try:
            return float(self.ev.num(v, {}))
        except NoEval as e:
            raise Undecided("cannot evaluate %s (%r)" % (str(v)[:200], e))

    def size(self, path):
        return int(round(self(path)))


def table(ctx, rule, inst, rd, where, name, path, want, n, m=None):
    """one obligation for a whole table"""
    for i in range(n):
        for j in (range(m) if m is not None else (None,)):
            p = path[i] if j is None else path(i, j)
            g, w = rd(p), (want(i) if j is None else want(i, j))
            if not abs(g - w) <= TOL * (1 + abs(w)):
                ctx.ob(rule, inst, False, where, "%s entry %s is %.12g but must be %.12g" % (name, i if j is None else (i, j), g, w))
                return
    ctx.ob(rule, inst, True, where)


class World(object):
    """an element of degree p with its master, evaluated with symbolic nodes"""

    def __init__(self, ctx, P, p):
        self.ctx, self.P, self.p = ctx, P, p
        self.ndof = (p + 1) * (p + 2) // 2
        self.M = t.mk("param", 9, "M")
        f = one(P, r"Master::Triangle::Triangle$")
        r = Run(P, f, None, this=self.M, args=[t.num(p)], ctx=ctx, **KW)
        self.fn = sorted((x for x in P.find_re(r"Geometry::Element::Initialize$") if x.body), key=lambda x: x.id)[0]
        st = r.st
        self.this = t.mk("this")
        write(st, fld(self.this, "master"), t.mk("addr", self.M))
        self.r = Run(P, self.fn, None, state=st, ctx=ctx, hook=dispatch(P), **KW)
        self.shape = fld(self.this, "shape")


def element(W):
    ctx, p, ndof, where = W.ctx, W.p, W.ndof, W.fn.where()
    me, ma = X(W.this), X(W.M)
    for n, T_ in enumerate((TRI[0], TRI[3])):
        pre = "element of degree %d, triangle %d" % (p, n)
        rd = Reader(W.r, T_, [W.shape])
        ngp = rd.size(ma.ngp)
        gp = me.gp_global_coordinates
        xs = [(rd(gp[g][0]), rd(gp[g][1])) for g in range(ngp)]
        zs = [T_.ref(*x) for x in xs]
        bad = [g for g, z in enumerate(zs) if min(bary(z)) < -1e-12]
        ctx.ob("points", pre, not bad, where, "point %s lies outside" % bad[:1])
        w = [rd(me.int_fact[g]) for g in range(ngp)]
        bad = ""
        for i in range(2 * p + 1):
            for j in range(2 * p + 1 - i):
                s = sum(w[g] * bary(zs[g])[1] ** i * bary(zs[g])[2] ** j for g in range(ngp))
                e = monomial_exact(T_, i, j)
                if abs(s - e) > 1e-10 * (1 + abs(T_.det)):
                    bad = "the integral of the monomial (%d,%d) is %.12g but must be %.12g" % (i, j, s, e)
        ctx.ob("weights", pre, not bad, where, bad)
        ph, dz = basis_at(ctx, W.P, p, zs)
        dx = [[[dz[0][d][g] * T_.inv[0][k] + dz[1][d][g] * T_.inv[1][k] for g in range(ngp)] for d in range(ndof)] for k in range(2)]
        table(ctx, "values", pre + ", basis", rd, where, "phi_gp", ma.phi_gp, lambda d, g: ph[d][g], ndof, ngp)
        table(ctx, "values", pre + ", linear functions", rd, where, "chi_gp", ma.chi_gp, lambda d, g: bary(zs[g])[d], 3, ngp)
        table(ctx, "values", pre + ", nodal functions", rd, where, "psi_gp", X(W.shape).psi_gp, lambda d, g: bary(zs[g])[d], 3, ngp)
        table(ctx, "values", pre + ", linear functions at the centre", rd, where, "chi_baryctr", ma.chi_baryctr, lambda d: 1.0 / 3, 3)
        table(ctx, "values", pre + ", linear functions at the midpoints", rd, where, "chi_midpts", ma.chi_midpts, lambda d, b: 0.0 if d == b else 0.5, 3, 3)
        grad = [[(-(T_.inv[0][k] + T_.inv[1][k])) / 2, T_.inv[0][k] / 2, T_.inv[1][k] / 2] for k in range(2)]
        for k in range(2):
            pk = "%s, direction %d" % (pre, k)
            table(ctx, "gradients", pk + ", basis", rd, where, "dphi_gp", me.dphi_gp[k], lambda d, g: dx[k][d][g], ndof, ngp)
            table(ctx, "gradients", pk + ", linear functions", rd, where, "dchi_gp", me.dchi_gp[k], lambda d, g: grad[k][d], 3, ngp)
            table(ctx, "gradients", pk + ", linear functions at the centre", rd, where, "dchi_baryctr", me.dchi_baryctr[k], lambda d: grad[k][d], 3)
            table(ctx, "gradients", pk + ", nodal functions", rd, where, "dpsi_gp", X(W.shape).dpsi_gp[k], lambda d, g: grad[k][d], 3, ngp)
            table(ctx, "products", pk + ", derivative", rd, where, "int_dphi_fact", me.int_dphi_fact[k], lambda g, d: w[g] * dx[k][d][g], ngp, ndof)
            table(ctx, "products", pk + ", function and derivative", rd, where, "int_phi_dphi_fact", me.int_phi_dphi_fact[k],
                  lambda g, l: w[g] * ph[l // ndof][g] * dx[k][l % ndof][g], ngp, ndof * ndof)
        table(ctx, "products", pre + ", function", rd, where, "int_phi_fact", me.int_phi_fact, lambda g, d: w[g] * ph[d][g], ngp, ndof)
        table(ctx, "products", pre + ", two functions", rd, where, "int_phi_phi_fact", me.int_phi_phi_fact,
              lambda g, l: w[g] * ph[l // ndof][g] * ph[l % ndof][g], ngp, ndof * ndof)
        mass = [[sum(w[g] * ph[i][g] * ph[j][g] for g in range(ngp)) for j in range(ndof)] for i in range(ndof)]
        got = [[rd(me.m_inv(i, j)) for j in range(ndof)] for i in range(ndof)]
        bad = ""
        for i in range(ndof):
            for j in range(ndof):
                v = sum(got[i][k] * mass[k][j] for k in range(ndof))
                if abs(v - (i == j)) > 1e-8:
                    bad = "entry (%d,%d) of the product with the mass matrix is %.10g" % (i, j, v)
        ctx.ob("mass", pre, not bad, where, bad)
        if n == 0:
            d_ = fld(W.this, "data")
            for f, v in (("nvrtx", 3), ("nbound", 3), ("ndof", ndof), ("ngp_internal", ngp)):
                ctx.ob("sizes", "%s, %s" % (pre, f), rd(fld(d_, f)) == v, where, "%g is handed over but must be %d" % (rd(fld(d_, f)), v))
        ctx.guard("methods", pre, where, lambda: methods(W, T_, pre, rd, w, ph, dx, grad, zs, got), 200)


U_ = 5


def methods(W, T_, pre, rd, w, ph, dx, grad, zs, minv):
    """routines applied to an argument with arbitrary entries; row 1 is observed"""
    ctx, P, ndof, ngp = W.ctx, W.P, W.ndof, len(w)
    rng = random.Random(11)
    val = {}

    def arg(name, n):
        p = t.mk("param", U_, name)
        v = [rng.uniform(-1, 1) for _ in range(n)]
        for k in range(n):
            val[at2(p, t.ONE, t.num(k))] = v[k]
        return p, v
    dofs, gps, lin = arg("u", ndof), arg("ugp", ngp), arg("ulin", 3)
    corner, _ = basis_at(ctx, P, W.p, [CORNERS[0], CORNERS[1]])
    tb = Table(ctx, P, "Dubiner_2D", W.p, [CORNERS[2]], nan=True)
    corner = [corner[d] + [float(tb.f[d][0])] for d in range(ndof)]
    low = inverse([[F(corner[d][c]).limit_denominator(10 ** 9) for c in range(3)] for d in range(3)])
    R = range
    # name, leading arguments, matrix, number of results, expected
    todo = [("ComputeUgp", (), dofs, ngp, lambda u, g: sum(u[d] * ph[d][g] for d in R(ndof))),
            ("ComputeLinearUgp", (), lin, ngp, lambda u, g: sum(u[c] * bary(zs[g])[c] for c in R(3))),
            ("ComputeNodalUgp", (), lin, ngp, lambda u, g: sum(u[c] * bary(zs[g])[c] for c in R(3))),
            ("ComputeLinearUbaryctr", (), lin, None, lambda u, g: sum(u) / 3),
            ("ComputeLinearUmidpts", (), lin, 3, lambda u, b: (sum(u) - u[b]) / 2),
            ("ComputeLinearUvrtx", (), lin, 3, lambda u, c: u[c]),
            ("ProjectBasisToLinear", (), dofs, 3, lambda u, c: sum(u[d] * corner[d][c] for d in R(3))),
            ("ProjectLinearToBasis", (), lin, ndof, lambda u, d: sum(u[c] * float(low[c][d]) for c in R(3)) if d < 3 else 0.0),
            ("L2Projection", (), gps, ndof, lambda u, d: sum(u[g] * w[g] * ph[e][g] * minv[e][d] for g in R(ngp) for e in R(ndof))),
            ("L2ProjectionNode", (), lin, ndof, lambda u, d: sum(sum(u[c] * bary(zs[g])[c] for c in R(3)) * w[g] * ph[e][g] * minv[e][d] for g in R(ngp) for e in R(ndof))),
            ("ApplyMinv", (), dofs, ndof, lambda u, d: sum(u[e] * minv[e][d] for e in R(ndof))),
            ("Integration", (), gps, None, lambda u, _: sum(u[g] * w[g] for g in R(ngp))),
            ("IntegrationPhi", (), gps, ndof, lambda u, d: sum(u[g] * w[g] * ph[d][g] for g in R(ngp)))]
    for d in (0, ndof - 1):
        todo.append(("IntegrationPhi", (d,), gps, None, lambda u, _, d=d: sum(u[g] * w[g] * ph[d][g] for g in R(ngp))))
        e = 1
        todo.append(("IntegrationPhiPhi", (d, e), gps, None, lambda u, _, d=d, e=e: sum(u[g] * w[g] * ph[d][g] * ph[e][g] for g in R(ngp))))
    for k in range(2):
        todo.append(("ComputeDUgp", (k,), dofs, ngp, lambda u, g, k=k: sum(u[d] * dx[k][d][g] for d in R(ndof))))
        todo.append(("ComputeLinearDUgp", (k,), lin, ngp, lambda u, g, k=k: sum(u[c] * grad[k][c] for c in R(3))))
        todo.append(("ComputeNodalDUgp", (k,), lin, ngp, lambda u, g, k=k: sum(u[c] * grad[k][c] for c in R(3))))
        todo.append(("ComputeLinearDUbaryctr", (k,), lin, None, lambda u, _, k=k: sum(u[c] * grad[k][c] for c in R(3))))
        todo.append(("IntegrationDPhi", (k,), gps, ndof, lambda u, d, k=k: sum(u[g] * w[g] * dx[k][d][g] for g in R(ngp))))
        todo.append(("IntegrationDPhi", (k, 2), gps, None, lambda u, _, k=k: sum(u[g] * w[g] * dx[k][2][g] for g in R(ngp))))
        todo.append(("IntegrationPhiDPhi", (2, k, 1), gps, None, lambda u, _, k=k: sum(u[g] * w[g] * ph[2][g] * dx[k][1][g] for g in R(ngp))))
    for name, lead, (pa, u), n, want in todo:
        apply(ctx, P, "Element", name, lead, pa, u, n, want, pre, lambda: W.r.st.copy(), [W.shape], T_, val)


def apply(ctx, P, cls, name, lead, pa, u, n, want, pre, state, shapes, T_, val):
    fns = [f for f in P.find_re(r"Geometry::%s::%s$" % (cls, name)) if f.body and len(f.params) == len(lead) + 1]
    inst = "%s, %s(%s)" % (pre, name, ", ".join(map(str, lead)))
    if not fns:
        ctx.count("routines not instantiated")
        return
    fn = sorted(fns, key=lambda f: f.id)[0]

    def go():
        st = state()
        write(st, fld(pa, "#cols"), t.num(len(u)))
        r = Run(P, fn, None, args=[t.num(x) for x in lead] + [Loc(pa, "Eigen::Matrix<double,-1,-1,0,-1,-1>")], state=st, ctx=ctx, hook=dispatch(P), **KW)
        rd = Reader(r, T_, shapes, val)
        for j in range(n) if n is not None else (None,):
            v = r.ret_at(1, j) if j is not None else r.ret_at(1)
            g, x = rd.num(v), want(u, j)
            if not abs(g - x) <= 1e-8 * (1 + abs(x)):
                ctx.ob("methods", inst, False, fn.where(), "result %s is %.12g but must be %.12g" % ("" if j is None else j, g, x))
                return
        ctx.ob("methods", inst, True, fn.where())
    ctx.guard("methods", inst, fn.where(), go, 60)


# ------------------------------------------------------------------ edges
def raws(P, fn, p, bounds):
    st = State()
    names = []
    ndof = (p + 1) * (p + 2) // 2
    for k, b in enumerate(bounds):
        r = t.mk("param", k, "raw%d" % k)
        names.append("raw%d" % k)
        write(st, fld(r, "p"), t.num(p))
        write(st, fld(r, "bound_id"), t.num(b))
        write(st, fld(fld(r, "master"), "ndof"), t.num(ndof))
        write(st, fld(fld(r, "master"), "p"), t.num(p))
        write(st, fld(fld(r, "data"), "ndof"), t.num(ndof))
    return st, names, [fld(t.mk("param", k, "raw%d" % k), "shape") for k in range(len(bounds))], ndof


def other_triangle(T_, a, b):
    """a triangle whose side b is side a of T_, on the other side of it"""
    i, j = (a + 1) % 3, (a + 2) % 3
    xs = [None] * 3
    xs[(b + 1) % 3], xs[(b + 2) % 3] = T_.xs[j], T_.xs[i]
    k = T_.xs[a]
    m = ((T_.xs[i][0] + T_.xs[j][0]) / 2, (T_.xs[i][1] + T_.xs[j][1]) / 2)
    xs[b] = (m[0] + 1.3 * (m[0] - k[0]) + 0.1, m[1] + 1.3 * (m[1] - k[1]) - 0.2)
    o = Triangle(xs)
    assert o.det > 0
    return o


def side(ctx, P, p, rd, T_, me, sfx, b, where, pre, mirror, wref):
    """one side of an edge; wref: weights in this side's own order, or None"""
    ndof = (p + 1) * (p + 2) // 2
    ma_gp = fld(me.p, "gp_global_coordinates" + sfx)
    try:
        ngp = rd.size(fld(ma_gp, "#size"))
    except Undecided:
        ngp = None
    if ngp is None or ngp > 100:
        raise Undecided("number of points unknown")
    gp = X(ma_gp)
    A, B = T_.xs[(b + 1) % 3], T_.xs[(b + 2) % 3]
    L = math.hypot(B[0] - A[0], B[1] - A[1])
    xs = [(rd(gp[g][0]), rd(gp[g][1])) for g in range(ngp)]
    s = [((x - A[0]) * (B[0] - A[0]) + (y - A[1]) * (B[1] - A[1])) / L ** 2 for x, y in xs]
    off = [abs((x - A[0]) * (B[1] - A[1]) - (y - A[1]) * (B[0] - A[0])) / L ** 2 for x, y in xs]
    ctx.ob("points", pre, max(off) < 1e-9 and all(0 < v < 1 for v in s) and all(x < y for x, y in zip(s, s[1:])), where,
           "the points are at %s along the side, %s off it" % (["%.4g" % v for v in s], ["%.2g" % v for v in off]))
    zs = [T_.ref(*x) for x in xs]
    w = [rd(fld_(me, "int_fact" + sfx)[g]) for g in range(ngp)]
    bad = ""
    for i in range(2 * p + 2):
        e = sum(a * v ** i for a, v in zip(w, s)) - L / (i + 1)
        if abs(e) > 1e-10 * (1 + L):
            bad = "the integral of the monomial of degree %d is off by %.3g" % (i, e)
            break
    ctx.ob("weights", pre, not bad, where, bad)
    ph, _ = basis_at(ctx, P, p, zs)
    table(ctx, "values", pre + ", basis", rd, where, "phi_gp" + sfx, fld_(me, "phi_gp" + sfx), lambda d, g: ph[d][g], ndof, ngp)
    table(ctx, "values", pre + ", nodal functions", rd, where, "psi_gp" + sfx, fld_(me, "psi_gp" + sfx), lambda d, g: bary(zs[g])[d], 3, ngp)
    table(ctx, "values", pre + ", nodal functions of the side", rd, where, "psi_bound_gp" + sfx, fld_(me, "psi_bound_gp" + sfx), lambda d, g: (1 - s[g], s[g])[d], 2, ngp)
    table(ctx, "products", pre + ", function", rd, where, "int_phi_fact" + sfx, fld_(me, "int_phi_fact" + sfx), lambda g, d: w[g] * ph[d][g], ngp, ndof)
    table(ctx, "products", pre + ", two functions", rd, where, "int_phi_phi_fact" + sfx, fld_(me, "int_phi_phi_fact" + sfx),
          lambda g, l: w[g] * ph[l // ndof][g] * ph[l % ndof][g], ngp, ndof * ndof)
    nrm = ((B[1] - A[1]) / L, -(B[0] - A[0]) / L)
    table(ctx, "normals", pre, rd, where, "surface_normal" + sfx, fld_(me, "surface_normal" + sfx), lambda d, g: nrm[d], 2, ngp)
    d_ = fld(fld(t.mk("this"), "data" + sfx), "ngp_boundary")
    n = rd(at1(d_, t.num(b)))
    ctx.ob("sizes", pre, n == ngp, where, "%g points are announced for the side, there are %d" % (n, ngp))
    return ngp, w, ph, s, zs


def fld_(x, n):
    return X(fld(x.p, n))


def interface(ctx, P, p, fn, a, b, var=""):
    st, names, shapes, ndof = raws(P, fn, p, (a, b))
    r = Run(P, fn, names, state=st, ctx=ctx, hook=dispatch(P), **KW)
    me = X(t.mk("this"))
    for n in ((0, 3) if not var else (0,)):
        T1 = TRI[n]
        T2 = other_triangle(T1, a, b)
        rd = Reader(r, [T1, T2], shapes)
        pre = "%ssides %d|%d, degree %d, triangle %d" % (var, a, b, p, n)
        i = side(ctx, P, p, rd, T1, me, "_in", a, fn.where(), pre + ", inner", False, None)
        o = side(ctx, P, p, rd, T2, me, "_ex", b, fn.where(), pre + ", outer", True, None)
        if var:
            continue
        ctx.guard("methods", pre, fn.where(), lambda: edge_methods(ctx, P, p, r, "Interface", pre, [("IN", i), ("EX", o)], shapes, [T1, T2]), 100)
        if n == 0:
            for f in [x for x in P.find_re(r"Geometry::EdgeInterface::EdgeInterface$") if x.body][:1 if p > 1 else 99]:
                ctx.guard("values", pre + ", trace", f.where(), lambda: trace(ctx, P, p, r, f, "interface", pre, [("_in", a, i), ("_ex", b, o)], shapes, [T1, T2]), 100)


def boundary(ctx, P, p, fn, b, var=""):
    st, names, shapes, ndof = raws(P, fn, p, (b,))
    r = Run(P, fn, names, state=st, ctx=ctx, hook=dispatch(P), **KW)
    me = X(t.mk("this"))
    for n in ((0, 3) if not var else (0,)):
        rd = Reader(r, TRI[n], shapes)
        pre = "%sside %d, degree %d, triangle %d" % (var, b, p, n)
        i = side(ctx, P, p, rd, TRI[n], me, "", b, fn.where(), pre, False, None)
        if var:
            continue
        ctx.guard("methods", pre, fn.where(), lambda: edge_methods(ctx, P, p, r, "Boundary", pre, [("", i)], shapes, [TRI[n]]), 100)
        if n == 0:
            for f in [x for x in P.find_re(r"Geometry::EdgeBoundary::EdgeBoundary$") if x.body][:1 if p > 1 else 99]:
                ctx.guard("values", pre + ", trace", f.where(), lambda: trace(ctx, P, p, r, f, "boundary", pre, [("", b, i)], shapes, [TRI[n]]), 100)


def edge_methods(ctx, P, p, r, cls, pre, sides, shapes, tri):
    ndof = (p + 1) * (p + 2) // 2
    rng = random.Random(5)
    for sfx, (ngp, w, ph, s, zs) in sides:
        val = {}

        def arg(name, n):
            q_ = t.mk("param", U_, name)
            v = [rng.uniform(-1, 1) for _ in range(n)]
            for k in range(n):
                val[at2(q_, t.ONE, t.num(k))] = v[k]
            return q_, v
        R = range
        dofs, gps, nod, bnod = arg("u", ndof), arg("ugp", ngp), arg("nodal", 3), arg("bnodal", 2)
        todo = [("ComputeUgp", (), dofs, ngp, lambda u, g: sum(u[d] * ph[d][g] for d in R(ndof))),
                ("ComputeNodalUgp", (), nod, ngp, lambda u, g: sum(u[c] * bary(zs[g])[c] for c in R(3))),
                ("ComputeBoundaryNodalUgp", (), bnod, ngp, lambda u, g: u[0] * (1 - s[g]) + u[1] * s[g]),
                ("Integration", (), gps, None, lambda u, _: sum(u[g] * w[g] for g in R(ngp))),
                ("IntegrationPhi", (), gps, ndof, lambda u, d: sum(u[g] * w[g] * ph[d][g] for g in R(ngp))),
                ("IntegrationPhi", (ndof - 1,), gps, None, lambda u, _: sum(u[g] * w[g] * ph[ndof - 1][g] for g in R(ngp))),
                ("IntegrationPhiPhi", (ndof - 1, 1), gps, None, lambda u, _: sum(u[g] * w[g] * ph[ndof - 1][g] * ph[1][g] for g in R(ngp)))]
        for name, lead, (pa, u), n, want in todo:
            apply(ctx, P, cls, name + sfx, lead, pa, u, n, want, pre, lambda: r.st.copy(), shapes, tri, val)


def legendre(ctx, P, p, zs):
    tb = Table(ctx, P, "Legendre_1D", p, [(F(z).limit_denominator(10 ** 15),) for z in zs])
    return [[float(v) for v in x] for x in tb.f]


def trace(ctx, P, p, r, fn, member, pre, sides, shapes, tri):
    """the unknowns on the edge: degree-p functions along the edge, seen alike from both sides"""
    sfx, b, (ngp, w, ph, s, zs) = sides[0]
    n = p + 1
    edge = t.mk("param", 7, "edge")
    where = fn.where()
    got = {}
    for ccw in (True, False):
        st = r.st.copy()
        this = t.mk("param", 8, "skeleton")
        # the edge object's interface is the one just built
        e = Run(P, fn, None, this=this, args=[Loc(t.mk("this"), ""), t.TRUE if ccw else t.FALSE][:len(fn.params)], state=st, ctx=ctx, hook=edge_hook(P, p), **KW)
        me = X(this)
        rd = Reader(e, tri, shapes)
        inst = "%s, %s" % (pre, "counterclockwise" if ccw else "clockwise")
        xi = [(2 * v - 1) * (1 if ccw else -1) for v in s]
        la = legendre(ctx, P, p, xi)
        table(ctx, "values", inst + ", trace", rd, where, "lambda_gp", me.lambda_gp, lambda d, g: la[d][g], n, ngp)
        table(ctx, "products", inst + ", trace", rd, where, "int_lambda_fact", me.int_lambda_fact, lambda g, d: w[g] * la[d][g], ngp, n)
        table(ctx, "products", inst + ", two traces", rd, where, "int_lambda_lambda_fact", me.int_lambda_lambda_fact,
              lambda g, l: w[g] * la[l // n][g] * la[l % n][g], ngp, n * n)
        for k, (sf, _, (ngp2, w2, ph2, s2, zs2)) in enumerate(sides):
            nd = (p + 1) * (p + 2) // 2
            at = (lambda g: g) if k == 0 else (lambda g: ngp - 1 - g)
            table(ctx, "products", "%s, function%s and trace" % (inst, sf), rd, where, "int_phi_lambda_fact" + sf, fld_(me, "int_phi_lambda_fact" + sf),
                  lambda g, l: w2[g] * ph2[l // n][g] * la[l % n][at(g)], ngp2, nd * n)
        mass = [[sum(w[g] * la[i][g] * la[j][g] for g in range(ngp)) for j in range(n)] for i in range(n)]
        mi_ = [[rd(me.m_inv(i, j)) for j in range(n)] for i in range(n)]
        bad = [(i, j) for i in range(n) for j in range(n) if abs(sum(mi_[i][k] * mass[k][j] for k in range(n)) - (i == j)) > 1e-8]
        ctx.ob("mass", inst + ", trace", not bad, where, "entry %s of the product with the mass matrix is wrong" % bad[:1])
        for f, v in (("ndof", n), ("ngp", ngp)):
            x = rd(fld(fld(this, "edge_data"), f))
            ctx.ob("sizes", "%s, trace %s" % (inst, f), x == v, where, "%g is handed over but must be %d" % (x, v))
        if ccw:
            trace_methods(ctx, P, p, e, fn, pre, this, w, la, mi_, sides, shapes, tri)


def edge_hook(P, p):
    base = dispatch(P)

    def hook(I, e, fr, st, name, fn, obj, this, argn):
        if name.endswith("::get_ndof") and this is not None and fn is None:
            return t.num((p + 1) * (p + 2) // 2)
        return base(I, e, fr, st, name, fn, obj, this, argn)
    return hook


def trace_methods(ctx, P, p, e, fn, pre, this, w, la, mi_, sides, shapes, tri):
    cls = fn.name.split("::")[-1]
    n, nd, ngp = p + 1, (p + 1) * (p + 2) // 2, len(w)
    rng = random.Random(3)
    val = {}

    def arg(name, k):
        q_ = t.mk("param", U_, name)
        v = [rng.uniform(-1, 1) for _ in range(k)]
        for i in range(k):
            val[at2(q_, t.ONE, t.num(i))] = v[i]
        return q_, v
    R = range
    dofs, gps = arg("u", n), arg("ugp", ngp)
    todo = [("ComputeUgp", (), dofs, ngp, lambda u, g: sum(u[d] * la[d][g] for d in R(n))),
            ("L2Projection", (), gps, n, lambda u, d: sum(u[g] * w[g] * la[k][g] * mi_[k][d] for g in R(ngp) for k in R(n))),
            ("ApplyMinv", (), dofs, n, lambda u, d: sum(u[k] * mi_[k][d] for k in R(n))),
            ("IntegrationLambda", (n - 1,), gps, None, lambda u, _: sum(u[g] * w[g] * la[n - 1][g] for g in R(ngp))),
            ("IntegrationLambdaLambda", (0, n - 1), gps, None, lambda u, _: sum(u[g] * w[g] * la[0][g] * la[n - 1][g] for g in R(ngp)))]
    for k, (sf, _, (ngp2, w2, ph2, s2, zs2)) in enumerate(sides):
        nm = "IntegrationPhiLambda" + {"_in": "IN", "_ex": "EX", "": ""}[sf]
        at = (lambda g: g) if k == 0 else (lambda g: ngp - 1 - g)
        todo.append((nm, (nd - 1, 1), gps, None, lambda u, _, w2=w2, ph2=ph2, at=at: sum(u[g] * w2[g] * ph2[nd - 1][g] * la[1][at(g)] for g in R(ngp))))
    for name, lead, (pa, u), k, want in todo:
        inst = "%s, trace" % pre
        fns = [f for f in P.find_re(r"Geometry::%s::%s$" % (cls, name)) if f.body and len(f.params) == len(lead) + 1]
        if not fns:
            ctx.count("routines not instantiated")
            continue
        f = sorted(fns, key=lambda f: f.id)[0]
        inst = "%s, trace, %s" % (pre, name)

        def go():
            st = e.st.copy()
            write(st, fld(pa, "#cols"), t.num(len(u)))
            r = Run(P, f, None, this=this, args=[t.num(x) for x in lead] + [Loc(pa, "Eigen::Matrix<double,-1,-1,0,-1,-1>")], state=st, ctx=ctx, hook=edge_hook(P, p), **KW)
            rd = Reader(r, tri, shapes, val)
            for j in R(k) if k is not None else (None,):
                v = r.ret_at(1, j) if j is not None else r.ret_at(1)
                g, x = rd.num(v), want(u, j)
                if not abs(g - x) <= 1e-8 * (1 + abs(x)):
                    ctx.ob("methods", inst, False, f.where(), "result %s is %.12g but must be %.12g" % ("" if j is None else j, g, x))
                    return
            ctx.ob("methods", inst, True, f.where())
        ctx.guard("methods", inst, f.where(), go, 60)
