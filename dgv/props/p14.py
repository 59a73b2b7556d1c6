"""P14: quadrature rules and basis functions deliver the accuracy the scheme relies on."""
import math

from .. import terms as t
from ..spec import *
from ..interp import Undecided, Mat, Struct, read, fld, at1, at2
from ..evalt import Ev

F = t.Fraction
TOL = 1e-12


def run(ctx):
    ctx.rule("line", "the edge rule for degree p integrates every polynomial up to degree p, has GetNumGP(p) points inside the edge and positive weights", 66)
    ctx.rule("mirror", "the points of an edge rule mirror each other in order, with equal weights, so that facing points of two elements coincide", 66)
    ctx.rule("triangle", "the element rule for degree p integrates every polynomial up to degree p and has GetNumGP(p) points", 21)
    ctx.rule("refuse", "a degree for which there is no rule ends the run", 2)
    ctx.rule("orthogonal", "the basis functions are orthogonal polynomials of degree at most p, and the inverse mass matrix holds the reciprocals of their squares", 12)
    ctx.rule("derivative", "the derivative tables are the derivatives of the basis functions", 40)
    ctx.rule("vertex", "at the collapsed corner the tables hold the limits of the basis functions and their derivatives", 20)
    ctx.rule("linear", "the linear transforms carry the linear part of an expansion to its corner values and back, and keep the mean", 20)
    P = ctx.prog("ompi", "dubiner", "legendre", "polys", "dunavant", "gauss")
    top = 5 if ctx.tier == "quick" else 8
    lines(ctx, P)
    triangles(ctx, P)
    for p in range(1, top + 1):
        for cls, what, dim in (("Dubiner_2D", "triangle", 2), ("Legendre_1D", "edge", 1)):
            ctx.guard("orthogonal", "%s, degree %d" % (what, p), one(P, r"%s::GetMinv$" % cls).where(), lambda: basis(ctx, P, cls, what, p, dim), 200)
    linear(ctx, P)


def one(P, pat):
    f = P.find_re(pat)
    if len(f) != 1:
        raise Undecided("%d functions match %s" % (len(f), pat))
    return f[0]


def val(x):
    v = Ev(1).num(x, {})
    return float(v)


def part(ctx, r, *path):
    """the value at a path below a returned object"""
    v = r.ret
    if isinstance(v, Struct):
        p = v.path
        for k in path:
            p = fld(p, k) if isinstance(k, str) else at2(p, num_(k[0]), num_(k[1])) if isinstance(k, tuple) else at1(p, num_(k))
        return read(v.state, p)
    raise Undecided("no object returned")


def num_(k):
    return t.num(k) if isinstance(k, int) else k


def rule_of(ctx, P, fn, nfn, p, dim):
    n = Run(P, nfn, None, args=[t.num(p)], ctx=ctx).retval()
    n = int(val(n))
    r = Run(P, fn, None, args=[t.num(p)], ctx=ctx)
    sw, sp = part(ctx, r, "first", "#size"), part(ctx, r, "second", "#size")
    w = [val(part(ctx, r, "first", g)) for g in range(n)]
    z = [[val(part(ctx, r, "second", g, d)) for d in range(dim)] for g in range(n)]
    return n, int(val(sw)), int(val(sp)), w, z


def lines(ctx, P):
    fn, nfn = one(P, r"GaussLegendre_1D::GetRule$"), one(P, r"GaussLegendre_1D::GetNumGP$")
    for p in range(66):
        def go():
            n, sw, sp, w, z = rule_of(ctx, P, fn, nfn, p, 1)
            z = [x[0] for x in z]
            bad = []
            if sw != n or sp != n:
                bad.append("%d weights and %d points instead of the announced %d" % (sw, sp, n))
            for k in range(p + 1):
                e = sum(a * x ** k for a, x in zip(w, z)) - (2.0 / (k + 1) if k % 2 == 0 else 0.0)
                if abs(e) > TOL:
                    bad.append("integral of x^%d is off by %g" % (k, e))
                    break
            if not all(-1 < x < 1 for x in z) or not all(a > 0 for a in w):
                bad.append("a point outside the edge or a weight that is not positive")
            ctx.ob("line", "degree %d" % p, not bad, fn.where(), "; ".join(bad))
            m = [g for g in range(n) if abs(z[g] + z[n - 1 - g]) > TOL or abs(w[g] - w[n - 1 - g]) > TOL]
            ctx.ob("mirror", "degree %d" % p, not m, fn.where(), "point %s has no mirror image at its place" % m[:1])
        ctx.guard("line", "degree %d" % p, fn.where(), go, 60)
    refuse(ctx, P, fn, 66)


def refuse(ctx, P, fn, p):
    def go():
        r = Run(P, fn, None, args=[t.num(p)], ctx=ctx)
        ctx.ob("refuse", "%s, degree %d" % (fn.name.split("::")[1], p), r.st is None, fn.where(), "returns a rule")
    try:
        go()
    except Undecided:
        ctx.ob("refuse", "%s, degree %d" % (fn.name.split("::")[1], p), True, fn.where())


def triangles(ctx, P):
    fn, nfn = one(P, r"Dunavant_2D::GetRule$"), one(P, r"Dunavant_2D::GetNumGP$")
    for p in range(21):
        def go():
            n, sw, sp, w, z = rule_of(ctx, P, fn, nfn, p, 2)
            bad = []
            if sw != n or sp != n:
                bad.append("%d weights and %d points instead of the announced %d" % (sw, sp, n))
            for i in range(p + 1):
                for j in range(p + 1 - i):
                    # integral of ((1+z1)/2)^i ((1+z2)/2)^j over the reference triangle (area 2)
                    want = 4.0 * math.factorial(i) * math.factorial(j) / math.factorial(i + j + 2)
                    e = sum(a * ((1 + x) / 2) ** i * ((1 + y) / 2) ** j for a, (x, y) in zip(w, z)) - want
                    if abs(e) > 1e-11:
                        bad.append("integral of the monomial (%d,%d) is off by %g" % (i, j, e))
                        break
                if bad:
                    break
            ctx.ob("triangle", "degree %d" % p, not bad, fn.where(), "; ".join(bad))
        ctx.guard("triangle", "degree %d" % p, fn.where(), go, 60)
    refuse(ctx, P, fn, 21)


# ------------------------------------------------------------------ bases
def decide_nan(want):
    def f(c):
        if c.op == "not":
            r = f(c.args[0])
            return None if r is None else not r
        if c.op == "app" and "isnan" in c.args[0]:
            return want
        return None
    return f


def plist(pts):
    return t.mk("list", tuple(t.mk("list", tuple(t.num(c) for c in z)) for z in pts))


class Table(object):
    """exact values of a basis and its derivatives at given rational points"""

    def __init__(self, ctx, P, cls, p, pts, nan=False):
        self.phi, self.dphi = one(P, r"%s::GetPhi$" % cls), one(P, r"%s::GetDPhi$" % cls)
        r = Run(P, self.phi, None, args=[t.num(p), plist(pts)], ctx=ctx, decide=decide_nan(nan), unroll=400)
        d = Run(P, self.dphi, None, args=[t.num(p), plist(pts)], ctx=ctx, decide=decide_nan(nan), unroll=400)
        dim = len(pts[0])
        self.n = n = (p + 1) * (p + 2) // 2 if dim == 2 else p + 1
        self.rows = int(val(r.ret.rows)) if isinstance(r.ret, Mat) else None
        self.f = [[exact(r.ret_at(i, k)) for k in range(len(pts))] for i in range(n)]
        self.g = [[[exact(part(ctx, d, m, (i, k))) for k in range(len(pts))] for i in range(n)] for m in range(dim)]


def exact(x):
    v = t.numval(x)
    if v is None:
        raise Undecided("entry is not a number: %s" % str(x)[:200])
    return v


def monomials(p, dim):
    return [(a, b) for a in range(p + 1) for b in range(p + 1 - a)] if dim == 2 else [(a,) for a in range(p + 1)]


def lattice(p, dim):
    """rational points strictly inside, unisolvent for degree p"""
    h = F(1, p + 4)
    if dim == 2:
        return [((a + 1) * h * 2 - 1, (b + 1) * h * 2 - 1) for a in range(p + 1) for b in range(p + 1 - a)]
    return [((a + 1) * h * 2 - 1,) for a in range(p + 1)]


def ev(mon, z):
    r = F(1)
    for e, c in zip(mon, z):
        r *= c ** e
    return r


def inverse(A):
    n = len(A)
    M = [list(r) + [F(1) if i == j else F(0) for j in range(n)] for i, r in enumerate(A)]
    for k in range(n):
        q_ = next(i for i in range(k, n) if M[i][k] != 0)
        M[k], M[q_] = M[q_], M[k]
        d = M[k][k]
        M[k] = [x / d for x in M[k]]
        for i in range(n):
            if i != k and M[i][k] != 0:
                c = M[i][k]
                M[i] = [a - c * b for a, b in zip(M[i], M[k])]
    return [r[n:] for r in M]


def integral(mon):
    """over the reference triangle, or the reference edge"""
    if len(mon) == 1:
        return F(2, mon[0] + 1) if mon[0] % 2 == 0 else F(0)
    a, b = mon
    # inner integral over z2 from -1 to -z1, then z1 from -1 to 1
    # [(-z1)^(b+1) - (-1)^(b+1)] / (b+1) * z1^a
    s = F(0)
    e = a + b + 1
    s += F((-1) ** (b + 1)) * (F(2, e + 1) if e % 2 == 0 else F(0))
    s -= F((-1) ** (b + 1)) * (F(2, a + 1) if a % 2 == 0 else F(0))
    return s / (b + 1)


def basis(ctx, P, cls, what, p, dim):
    minv = one(P, r"%s::GetMinv$" % cls)
    inst = "%s, degree %d" % (what, p)
    L = lattice(p, dim)
    extra = [z for z in lattice(p + 2, dim) if z not in L][:2 * (p + 2)]
    T_ = Table(ctx, P, cls, p, L + extra)
    mons = monomials(p, dim)
    V = inverse([[ev(m, z) for m in mons] for z in L])     # values at L -> coefficients: coef[m] = sum_k V[m][k] f[k]
    coef = [[sum(V[m][k] * T_.f[i][k] for k in range(len(L))) for m in range(len(mons))] for i in range(T_.n)]
    bad = []
    if T_.rows not in (None, T_.n):
        bad.append("%s functions instead of %d" % (T_.rows, T_.n))
    for i in range(T_.n):
        for k, z in enumerate(extra):
            if sum(c * ev(m, z) for c, m in zip(coef[i], mons)) != T_.f[i][len(L) + k]:
                bad.append("function %d is no polynomial of degree at most %d" % (i, p))
                break
    r = Run(P, minv, None, args=[t.num(p)], ctx=ctx, unroll=400)
    I_ = {}
    at = T_.phi
    for i in range(T_.n):
        for j in range(T_.n):
            if bad:
                break
            s = F(0)
            for c, m in zip(coef[i], mons):
                if c:
                    for d, k in zip(coef[j], mons):
                        if d:
                            mm = tuple(x + y for x, y in zip(m, k))
                            if mm not in I_:
                                I_[mm] = integral(mm)
                            s += c * d * I_[mm]
            got = exact(r.ret_at(i, j))
            if i != j and s != 0:
                bad.append("the product of functions %d and %d has integral %s" % (i, j, s))
            elif i != j and got != 0:
                at = minv
                bad.append("inverse mass entry (%d,%d) is %s" % (i, j, got))
            elif i == j and s * got != 1:
                at = minv
                bad.append("function %d has square integral %s but inverse mass entry %s" % (i, s, got))
    ctx.ob("orthogonal", inst, not bad, at.where(), "; ".join(bad[:2]))
    ctx.ob("orthogonal", inst + ", mean", all(v == 1 for v in T_.f[0]), T_.phi.where(), "the first basis function is not the constant one")
    for i in range(T_.n):
        bad = []
        for d in range(dim):
            for k, z in enumerate(L + extra):
                w = F(0)
                for c, m in zip(coef[i], mons):
                    if c and m[d]:
                        m2 = tuple(x - (1 if y == d else 0) for y, x in enumerate(m))
                        w += c * m[d] * ev(m2, z)
                if w != T_.g[d][i][k]:
                    bad.append("direction %d at (%s): %s instead of %s" % (d, ", ".join(map(str, z)), T_.g[d][i][k], w))
                    break
        ctx.ob("derivative", "%s, function %d" % (inst, i), not bad, T_.dphi.where(), "; ".join(bad))
    if dim == 2:
        z = (F(-1), F(1))
        N_ = Table(ctx, P, cls, p, [z], nan=True)
        for i in range(T_.n):
            w = sum(c * ev(m, z) for c, m in zip(coef[i], mons))
            ctx.ob("vertex", "%s, function %d" % (inst, i), N_.f[i][0] == w, N_.phi.where(), "value is %s but its limit is %s" % (N_.f[i][0], w))
            for d in range(2):
                w = F(0)
                for c, m in zip(coef[i], mons):
                    if c and m[d]:
                        w += c * m[d] * ev(tuple(x - (1 if y == d else 0) for y, x in enumerate(m)), z)
                ctx.ob("vertex", "%s, function %d, derivative %d" % (inst, i, d), N_.g[d][i][0] == w, N_.dphi.where(), "derivative is %s but its limit is %s" % (N_.g[d][i][0], w))


def linear(ctx, P):
    a, b = one(P, r"Dubiner_2D::GetBasisLinearT$"), one(P, r"Dubiner_2D::GetLinearBasisT$")
    corners = [(F(-1), F(-1)), (F(1), F(-1)), (F(-1), F(1))]

    def go():
        f = Table(ctx, P, "Dubiner_2D", 1, corners[:2]).f
        fv = Table(ctx, P, "Dubiner_2D", 1, corners[2:], nan=True).f
        for p in (1, 2, 3):
            n = (p + 1) * (p + 2) // 2
            A = Run(P, a, None, args=[t.num(p)], ctx=ctx)
            B = Run(P, b, None, args=[t.num(p)], ctx=ctx)
            MA = [[val(A.ret_at(i, j)) for j in range(3)] for i in range(n)]
            MB = [[val(B.ret_at(i, j)) for j in range(n)] for i in range(3)]
            for j, z in enumerate(corners):
                ok = all(abs(MA[i][j] - (float(f[i][j] if j < 2 else fv[i][0]) if i < 3 else 0.0)) < 1e-12 for i in range(n))
                ctx.ob("linear", "degree %d, corner %d" % (p, j), ok, a.where(), "column %d is %s" % (j, [r[j] for r in MA]))
            for i in range(3):
                row = [sum(MB[i][k] * MA[k][j] for k in range(n)) for j in range(3)]
                ctx.ob("linear", "degree %d, back and forth %d" % (p, i), all(abs(x - (i == j)) < 1e-12 for j, x in enumerate(row)), b.where(), "corner %d becomes %s" % (i, row))
                ctx.ob("linear", "degree %d, no higher terms from corner %d" % (p, i), all(x == 0 for x in MB[i][3:]), b.where(), str(MB[i]))
                ctx.ob("linear", "degree %d, mean of corner %d" % (p, i), abs(MB[i][0] - 1.0 / 3) < 1e-12, b.where(), "weight %g" % MB[i][0])
    ctx.guard("linear", "corners", a.where(), go, 60)
