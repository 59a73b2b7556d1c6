"""P03 one physical flux: F, F.n, their Jacobians and the eigen-splittings agree"""
import re

from .. import terms as t
from ..spec import *

VARS = ("ze", "qx", "qy")


def flux(gr, ze, qx, qy, b, h):
    """(Fx, Fy) of the shallow-water equations"""
    p = pl(tm(num(t.Fraction(1, 2)), gr, ze, ze), tm(gr, ze, b))
    return ([qx, pl(dv(tm(qx, qx), h), p), dv(tm(qx, qy), h)],
            [qy, dv(tm(qx, qy), h), pl(dv(tm(qy, qy), h), p)])


def run(ctx):
    ctx.rule("flux", "the flux routines compute the shallow-water flux (mass = discharge, momentum advection plus hydrostatic pressure)", 4)
    ctx.rule("normal", "every normal-flux routine equals F.n", 5)
    ctx.rule("jacobian", "the coded flux Jacobians are the exact derivatives of the coded flux", 27)
    ctx.rule("splitting", "A, |A|, A+ and A- are the Jacobian and its absolute/positive/negative parts", 30)
    ctx.rule("dsplitting", "the coded derivatives of A, |A|, A+ and A- are the exact derivatives of the coded matrices", 90)
    P = ctx.prog("serial")
    g = None

    def names(n):
        return ["q", "aux", "surface_normal"][:n]

    def get(fname, psig=None):
        fs = P.find(fname, psig=psig)
        if not fs:
            return None
        return fs

    # the definitions every comparison is made against
    Q, A, N = X(mk("param", 0, "q")), X(mk("param", 1, "aux")), X(mk("param", 2, "n"))
    gr = mk("glob", "SWE::Global::g")
    ze, qx, qy = [Q(i, G).p for i in range(3)]
    b, h = A(0, G).p, A(1, G).p
    nx, ny = N(0, G).p, N(1, G).p
    gsym = gravity(P)
    Fx, Fy = flux(gsym, ze, qx, qy, b, h)

    for fn in P.find("SWE::get_F"):
        r = ctx.guard("flux", "get_F", fn.where(), lambda: Run(P, fn, ["q", "aux", "fx", "fy"], ctx=ctx))
        if r is None:
            continue
        for i in range(3):
            ctx.guard("flux", "x " + VARS[i], r.where, lambda: ctx.eq("flux", "Fx[%s]" % VARS[i], r[r.args[2](i, G)], Fx[i], r.where, "x-flux of " + VARS[i]))
            ctx.guard("flux", "y " + VARS[i], r.where, lambda: ctx.eq("flux", "Fy[%s]" % VARS[i], r[r.args[3](i, G)], Fy[i], r.where, "y-flux of " + VARS[i]))
    for fn in P.find("SWE::get_Fn"):
        if len(fn.params) == 4:
            r = ctx.guard("flux", "get_Fn", fn.where(), lambda: Run(P, fn, ["q", "aux", "n", "fn"], ctx=ctx))
            if r is None:
                continue
            for i in range(3):
                ctx.guard("normal", VARS[i], r.where, lambda: ctx.eq("normal", "Fn[%s]" % VARS[i], r[r.args[3](i, G)],
                          pl(tm(Fx[i], nx), tm(Fy[i], ny)), r.where, "normal flux of " + VARS[i]))
        else:
            r = ctx.guard("flux", "get_Fn(column)", fn.where(), lambda: Run(P, fn, ["gr", "q", "aux", "n", "fn"], ctx=ctx))
            if r is None:
                continue
            a = r.args
            fx, fy = flux(a[0].p, a[1][0].p, a[1][1].p, a[1][2].p, a[2][0].p, a[2][1].p)
            for i in range(3):
                ctx.guard("normal", VARS[i], r.where, lambda: ctx.eq("normal", "Fn column[%s]" % VARS[i], r[a[4][i]],
                          pl(tm(fx[i], a[3][0]), tm(fy[i], a[3][1])), r.where, "normal flux of " + VARS[i]))

    # Jacobians: h = ze + bath
    dep = {h: pl(ze, b)}
    d = lambda f, x: t.diff(t.subst(f, dep), x)
    S_ = lambda f: t.subst(f, dep)
    U = (ze, qx, qy)
    Fn = [pl(tm(Fx[i], nx), tm(Fy[i], ny)) for i in range(3)]
    for fn in P.find("SWE::get_dF_dq"):
        r = ctx.guard("jacobian", "get_dF_dq", fn.where(), lambda: Run(P, fn, ["q", "aux", "fx", "fy"], ctx=ctx))
        if r is None:
            continue
        for k, (F, nm) in enumerate(((Fx, "x"), (Fy, "y"))):
            for i in range(3):
                for j in range(3):
                    I = "dF%s[%s]/d%s" % (nm, VARS[i], VARS[j])
                    ctx.guard("jacobian", I, r.where, lambda: ctx.eq("jacobian", I, S_(r[r.args[2 + k](3 * i + j, G)]), d(F[i], U[j]), r.where, I))
    for fn in P.find("SWE::get_dFn_dq"):
        r = ctx.guard("jacobian", "get_dFn_dq", fn.where(), lambda: Run(P, fn, ["q", "aux", "n", "fn"], ctx=ctx))
        if r is None:
            continue
        for i in range(3):
            for j in range(3):
                I = "dFn[%s]/d%s" % (VARS[i], VARS[j])
                ctx.guard("jacobian", I, r.where, lambda: ctx.eq("jacobian", I, S_(r[r.args[3](3 * i + j, G)]), d(Fn[i], U[j]), r.where, I))

    # splittings (unit normal)
    th = mk("q", "theta")
    unit = {nx: t.app("cos", th), ny: t.app("sin", th)}
    sv = mk("local", "sv")
    hv = mk("local", "hv")

    def matrix(fname):
        fs = P.find("SWE::" + fname)
        if not fs:
            return None
        r = Run(P, fs[0], ["q", "aux", "n", "a"], ctx=ctx)
        return [[r[r.args[3][G](i, j)] for j in range(3)] for i in range(3)], r.where

    cache = {}

    def M(name):
        if name not in cache:
            m = matrix(name)
            if m is None:
                raise Undecided("no function " + name)
            cache[name] = m
        return cache[name]
    U_ = lambda f: t.subst(t.subst(f, dep), unit)

    def mm(A_, B_):
        return [[pl(*[tm(A_[i][k], B_[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]
    half = num(t.Fraction(1, 2))
    allm = {}
    for nm in ("get_A", "get_absA", "get_Aplus", "get_Aminus"):
        v = ctx.guard("splitting", nm, "source/problem/SWE/problem_jacobian/swe_jacobian.hpp", lambda: M(nm))
        if v is not None:
            allm[nm] = v
    if "get_A" in allm:
        m, w = allm["get_A"]
        for i in range(3):
            for j in range(3):
                I = "A(%d,%d)" % (i, j)
                ctx.guard("splitting", I, w, lambda: ctx.eq("splitting", I, U_(m[i][j]), t.subst(d(Fn[i], U[j]), unit), w, I))
    if "get_absA" in allm and "get_A" in allm:
        a, w = allm["get_absA"]
        m, _ = allm["get_A"]
        a2, m2 = mm(a, a), mm(m, m)
        un = pl(dv(tm(qx, nx), h), dv(tm(qy, ny), h))
        c = sqrt(tm(gsym, h))
        ctx.guard("splitting", "trace |A|", w, lambda: ctx.eq("splitting", "trace |A| is the sum of |eigenvalues|", U_(pl(a[0][0], a[1][1], a[2][2])),
                  U_(pl(absf(un), absf(pl(un, c)), absf(mi(un, c)))), w, "trace |A|"))
        for i in range(3):
            for j in range(3):
                I = "|A||A|=AA (%d,%d)" % (i, j)
                ctx.guard("splitting", I, w, lambda: ctx.eq("splitting", I, U_(a2[i][j]), U_(m2[i][j]), w, I))
    if len(allm) == 4:
        for nm, sg in (("get_Aplus", 1), ("get_Aminus", -1)):
            p, w = allm[nm]
            for i in range(3):
                for j in range(3):
                    I = "%s(%d,%d)" % (nm[4:], i, j)
                    want = tm(half, pl(allm["get_A"][0][i][j], tm(num(sg), allm["get_absA"][0][i][j])))
                    ctx.guard("splitting", I, w, lambda: ctx.eq("splitting", I, U_(p[i][j]), U_(want), w, I))
    for nm in ("A", "absA", "Aplus", "Aminus"):
        base = allm.get("get_" + nm)
        for k, v in enumerate(VARS):
            dn = "get_d%s_d%s" % (nm, v)
            r = ctx.guard("dsplitting", dn, "swe_jacobian.hpp", lambda: M(dn))
            if r is None or base is None:
                continue
            m, w = r
            for i in range(3):
                for j in range(3):
                    I = "%s(%d,%d)" % (dn[4:], i, j)
                    ctx.guard("dsplitting", I, w, lambda: ctx.eq("dsplitting", I, U_(m[i][j]), t.subst(t.diff(t.subst(base[0][i][j], dep), U[k]), unit), w, I))


def gravity(P):
    """the value every routine uses for the gravitational constant"""
    st = State()
    g = mk("glob", "SWE::Global::g")
    fs = P.find("SWE::get_F")
    r = Run(P, fs[0], ["q", "aux", "fx", "fy"])
    found = []

    def v(y):
        if y.op == "glob" and "g" in str(y):
            found.append(y)
        if y.op == "fld":
            pass
    t.walk(r[r.args[2](1, G)], lambda y: found.append(y) if y.op in ("glob",) else None)
    found = [y for y in found if str(y).endswith("::g")]
    return found[0] if found else g
