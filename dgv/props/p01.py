"""P01 explicit Runge-Kutta schemes"""
from fractions import Fraction as F
from itertools import product

from .. import terms as t
from ..interp import Interp, State, Loc, mk, fld, at1, read, write, num, Undecided

KNOWN = [(1, 1), (2, 2), (3, 3), (4, 3), (5, 3), (6, 3), (7, 3), (8, 3), (5, 4), (6, 4), (7, 4), (8, 4)]
TOL = 5e-12


def tables(ctx, P, fn, n, p):
    st = State()
    this = mk("this")
    write(st, fld(this, "nstages"), num(n))
    write(st, fld(this, "order"), num(p))
    for k in ("ark", "brk", "crk", "drk"):
        write(st, fld(fld(this, k), "#size"), num(0))
    I = Interp(P, unroll=40)
    s, _ = I.run(fn, this, None, st)
    if s is None:
        return None

    def g(name, i, j=None):
        q = at1(fld(this, name), num(i))
        if j is not None:
            q = at1(q, num(j))
        v = t.numval(read(s, q))
        if v is None:
            raise Undecided("%s[%s][%s] is not a constant: %s" % (name, i, j, read(s, q)))
        return v
    a = [[g("ark", i, j) for j in range(i + 1)] for i in range(n)]
    b = [[g("brk", i, j) for j in range(i + 1)] for i in range(n)]
    d = [g("drk", i) for i in range(n)]
    return a, b, d


def butcher(a, b, n):
    """Shu-Osher -> rows of the Butcher tableau for states 0..n"""
    A = [[F(0)] * n for _ in range(n + 1)]
    for i in range(n):
        for k in range(i + 1):
            for m in range(n):
                A[i + 1][m] += a[i][k] * A[k][m]
            A[i + 1][k] += b[i][k]
    return A


def conditions(A, n):
    rows = A[:n]
    bb = A[n]
    c = [sum(r) for r in rows]
    s = lambda v: sum(x * y for x, y in zip(bb, v))
    mv = lambda v: [sum(r[j] * v[j] for j in range(n)) for r in rows]
    one = [F(1)] * n
    c2 = [x * x for x in c]
    c3 = [x ** 3 for x in c]
    Ac = mv(c)
    conds = {1: [("sum b", s(one), F(1))], 2: [("b.c", s(c), F(1, 2))],
             3: [("b.c^2", s(c2), F(1, 3)), ("b.A.c", s(Ac), F(1, 6))],
             4: [("b.c^3", s(c3), F(1, 4)), ("b.(c*Ac)", s([x * y for x, y in zip(c, Ac)]), F(1, 8)),
                 ("b.A.c^2", s(mv(c2)), F(1, 12)), ("b.A.A.c", s(mv(Ac)), F(1, 24))]}
    return conds, c


def run(ctx):
    ctx.rule("accept", "every documented (stages, order) pair is accepted and yields constant coefficient tables", 8)
    ctx.rule("convex", "every row of the stage-combination weights is non-negative and sums to 1", 30)
    ctx.rule("order", "the order conditions up to the declared order hold for the tabulated weights", 24)
    ctx.rule("abscissa", "the time assigned to each stage equals the abscissa implied by the tabulated weights", 30)
    ctx.rule("reject", "an undocumented (stages, order) pair never yields a scheme that misses its declared order", 10)
    P = ctx.prog("stepper")
    fn = P.one("ESSPRKStepper::InitializeCoefficients")
    W = fn.where()
    for n, p in product(range(1, 11), range(1, 6)):
        inst = "(%d,%d)" % (n, p)
        known = (n, p) in KNOWN
        r = ctx.guard("accept" if known else "reject", inst, W, lambda: (tables(ctx, P, fn, n, p),))
        if r is None:
            continue
        tb = r[0]
        if tb is None:
            if known:
                ctx.ob("accept", inst, False, W, "the documented scheme %s is rejected" % inst)
            else:
                ctx.ob("reject", inst, True, W)
            continue
        a, b, d = tb
        A = butcher(a, b, n)
        conds, c = conditions(A, n)
        bad = ["%s = %.15g instead of %s" % (nm, float(v), w) for q in range(1, min(p, 4) + 1) for nm, v, w in conds[q] if abs(float(v - w)) > TOLS(p)]
        if not known:
            ctx.ob("reject", inst, not bad and p <= 4, W, "accepted, but " + "; ".join(bad))
            continue
        ctx.ob("accept", inst, True, W)
        for i in range(n):
            ok = all(x >= 0 for x in a[i]) and all(x >= 0 for x in b[i]) and abs(float(sum(a[i]) - 1)) < 1e-13
            ctx.ob("convex", "%s row %d" % (inst, i), ok, W, "weights %s / %s" % ([float(x) for x in a[i]], [float(x) for x in b[i]]))
        for q in range(1, p + 1):
            bq = ["%s = %.15g instead of %s" % (nm, float(v), w) for nm, v, w in conds[q] if abs(float(v - w)) > TOLS(p)]
            ctx.ob("order", "%s order %d" % (inst, q), not bq, W, "; ".join(bq))
        for i in range(n):
            ctx.ob("abscissa", "%s stage %d" % (inst, i), abs(float(d[i] - c[i])) < 1e-11, W,
                   "stage time offset is %.12g dt, the weights give %.12g dt" % (float(d[i]), float(c[i])))


def TOLS(p):
    return 2e-10
