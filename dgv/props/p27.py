"""P27: the dispersive correction solves the discrete Green-Naghdi equations: each block and right side is that of the weak form."""
from .. import terms as t
from ..spec import *
from ..interp import TRUE, FALSE, Loc, Mat
from .p22 import Scheme, NB, NE, NG, last

R = range
XY = "xy"
ONE_ = num(1)


def fr(a, b):
    return num(t.Fraction(a, b))


def alpha(P):
    """the dispersion parameter as the program's global"""
    return mk("glob", "GN::NDParameters::alpha")


def gravity(P):
    return mk("glob", "GN::Global::g")


class Sch(Scheme):
    def __call__(self, I, e, frm, s, name, f, obj, this, argn):
        n = last(name)
        if n == "ComputeUgp" and "Geometry::" in name:
            arr = I.rv(I.ev(argn[0], frm, s), s)
            b = mk("q", "ub")
            v = arr.f(ZERO, b) if isinstance(arr, Mat) else None
            if isinstance(v, t.T) and v.op == "elem2" and v.args[2] is b:
                return Mat(ONE_, num(NG), lambda i, j, p=v: mk("app", "expanded", p.args[0], p.args[1], j))
            raise Undecided("expansion of %s" % (v,))
        return Scheme.__call__(self, I, e, frm, s, name, f, obj, this, argn)


def arrays(st, p, names):
    for n in names:
        write(st, fld(fld(p, n), "#cols"), num(NG))
        write(st, fld(fld(p, n), "#size"), num(NG))


INT = ("aux_at_gp", "dbath_at_gp", "u_at_gp", "du_at_gp", "ddu_at_gp", "ddbath_at_gp", "dddbath_at_gp", "w1_w1_kernel_at_gp", "w1_w2_kernel_at_gp", "w1_rhs_kernel_at_gp",
       "w2_w1_kernel_at_gp", "w2_w2_kernel_at_gp", "source_at_gp", "q_at_gp")
BND = ("aux_at_gp", "dbath_hat_at_gp", "w1_w1_kernel_at_gp", "w1_w1_hat_kernel_at_gp", "w2_w1_hat_kernel_at_gp", "w1_hat_w1_kernel_at_gp", "w1_hat_w2_kernel_at_gp")


def cell_data(st, d):
    write(st, d.ndof.p, num(NB))
    write(st, d.ngp_internal.p, num(NG))
    arrays(st, d.internal.p, INT)


def m2(st, p, i, j):
    return dims(read(st, at2(term(p), num(i), num(j))))


def m1(st, p, i):
    return dims(read(st, at1(term(p), num(i))))


def over(f):
    return pl(*[f(g) for g in R(NG)])


def delta(c, d):
    return num(1 if c == d else 0)


def cell(ctx, P, tu):
    al, gsym = alpha(P), gravity(P)
    for f in P.find_re(r"GN::EHDG::Problem::local_dc_volume_kernel$"):
        W = f.where()
        for wet in (True, False):
            sc, st = Sch(), State()
            el = X(mk("param", 1, "elt"))
            cell_data(st, el.data)
            write(st, el.data.wet_dry_state.wet.p, TRUE if wet else FALSE)
            st0 = st.copy()
            r = Run(P, f, ["stepper", "elt"], state=st, ctx=ctx, hook=sc, unroll=10)
            n = el.data.internal
            h = lambda g: n.aux_at_gp(1, g)
            b = lambda c, g: mi(ZERO, n.dbath_at_gp(c, g))
            w = lambda g: sc.w("CELL", g)
            ph = lambda i, g: sc.fn("Phi", "CELL", i, g)
            dp = lambda c, i, g: sc.fn("DPhi%d" % c, "CELL", i, g)
            for i in R(NB):
                for j in R(NB):
                    L = "%s %s cell %d %d" % (tu, "wet" if wet else "dry", i, j)
                    for c in R(2):
                        for d in R(2):
                            want = over(lambda g: tm(w(g), pl(tm(ph(i, g), ph(j, g), pl(delta(c, d), tm(al, b(c, g), b(d, g)))), mi(ZERO, tm(fr(1, 2), al, h(g), b(d, g), ph(j, g), dp(c, i, g))))))
                            p = n.w1_w1
                            ctx.eq("cell", "%s momentum %s%s" % (L, XY[c], XY[d]), m2(r.st, p, 2 * i + c, 2 * j + d), want if wet else m2(st0, p, 2 * i + c, 2 * j + d), W, "the block")
                        want = over(lambda g: tm(w(g), mi(ZERO, pl(tm(fr(1, 3), al, ph(i, g), dp(c, j, g)), tm(fr(1, 2), al, dv(b(c, g), h(g)), ph(i, g), ph(j, g))))))
                        ctx.eq("cell", "%s momentum %s, divergence" % (L, XY[c]), m2(r.st, n.w1_w2, 2 * i + c, j), want if wet else m2(st0, n.w1_w2, 2 * i + c, j), W, "the block")
                        want = over(lambda g: tm(w(g), dv(tm(ph(j, g), dp(c, i, g)), h(g))))
                        ctx.eq("cell", "%s divergence, momentum %s" % (L, XY[c]), m2(r.st, n.w2_w1, i, 2 * j + c), want if wet else m2(st0, n.w2_w1, i, 2 * j + c), W, "the block")
                    want = over(lambda g: tm(w(g), dv(tm(ph(i, g), ph(j, g)), tm(h(g), h(g), h(g)))))
                    ctx.eq("cell", "%s divergence" % L, m2(r.st, n.w2_w2, i, j), want if wet else m2(st0, n.w2_w2, i, j), W, "the block")


def source(ctx, P, tu):
    al, gsym = alpha(P), gravity(P)
    for f in P.find_re(r"GN::EHDG::Problem::local_dc_source_kernel$"):
        W = f.where()
        for wet in (True, False):
            sc, st = Sch(), State()
            el, sp = X(mk("param", 1, "elt")), X(mk("param", 0, "stepper"))
            cell_data(st, el.data)
            write(st, el.data.wet_dry_state.wet.p, TRUE if wet else FALSE)
            st0 = st.copy()
            r = Run(P, f, ["stepper", "elt"], state=st, ctx=ctx, hook=sc, unroll=10)
            n = el.data.internal
            for c in R(2):
                def at(g):
                    h = n.aux_at_gp(1, g)
                    neg = lambda x: mi(ZERO, x)
                    b1 = [neg(n.dbath_at_gp(k, g)) for k in R(2)]
                    b2 = [[neg(n.ddbath_at_gp(2 * k + l, g)) for l in R(2)] for k in R(2)]
                    b3 = [[[neg(n.dddbath_at_gp(4 * k + 2 * l + m, g)) for m in R(2)] for l in R(2)] for k in R(2)]
                    ze = [mk("app", "expanded", el.data.state[sp.stage].dze.p, num(k), num(g)) for k in R(2)]
                    hx = [pl(ze[k], b1[k]) for k in R(2)]
                    u = [n.u_at_gp(k, g) for k in R(2)]
                    du = [[n.du_at_gp(2 * k + l, g) for l in R(2)] for k in R(2)]
                    ddu = [[[n.ddu_at_gp(4 * k + 2 * l + m, g) for m in R(2)] for l in R(2)] for k in R(2)]
                    # Q = div^2 - det of the velocity gradient, B = u.(u.grad) grad b, and their derivatives in direction c
                    ux, uy, vx, vy = du[0][0], du[0][1], du[1][0], du[1][1]
                    Q = pl(tm(vx, uy), tm(ux, ux), tm(ux, vy), tm(vy, vy))
                    dx = lambda k, l: ddu[k][l][c]
                    dQ = pl(tm(dx(1, 0), uy), tm(vx, dx(0, 1)), tm(num(2), ux, dx(0, 0)), tm(dx(0, 0), vy), tm(ux, dx(1, 1)), tm(num(2), vy, dx(1, 1)))
                    B = pl(*[tm(u[k], u[l], b2[k][l]) for k in R(2) for l in R(2)])
                    dB = pl(*[pl(tm(du[k][c], u[l], b2[k][l]), tm(u[k], du[l][c], b2[k][l]), tm(u[k], u[l], b3[k][l][c])) for k in R(2) for l in R(2)])
                    return pl(tm(num(2), h, h, hx[c], Q), tm(fr(2, 3), h, h, h, dQ), tm(h, hx[c], B), tm(fr(1, 2), h, h, dB), tm(h, h, Q, b1[c]), tm(h, B, b1[c]), tm(dv(gsym, al), ze[c], h))
                for i in R(NB):
                    got = m1(r.st, n.w1_rhs, 2 * i + c)
                    # mixed second derivatives may be taken in either order
                    want = over(lambda g: tm(sc.w("CELL", g), sc.fn("Phi", "CELL", i, g), at(g))) if wet else m1(st0, n.w1_rhs, 2 * i + c)
                    ctx.eq("source", "%s %s cell %d %s" % (tu, "wet" if wet else "dry", i, XY[c]), got, want, W, "the right side")
    for f in P.find_re(r"GN::EHDG::Problem::dispersive_correction_kernel$"):
        W = f.where()
        for k in R(8):
            flags = [bool(k & 1), bool(k & 2), bool(k & 4)]
            sc, st = Sch(), State()
            el, sp = X(mk("param", 1, "elt")), X(mk("param", 0, "stepper"))
            cell_data(st, el.data)
            for p, v in zip((el.data.wet_dry_state.wet, el.data.source.dispersive_correction, el.data.slope_limit_state.troubled), flags):
                write(st, p.p, TRUE if v else FALSE)
            s = el.data.state[sp.stage]
            write(st, fld(s.rhs.p, "#cols"), num(NB))

            def hook(I, e, frm, st, name, fn, obj, this, argn):
                if last(name) == "IntegrationPhi" and len(argn) == 1:
                    arr = I.rv(I.ev(argn[0], frm, st), st)
                    if not isinstance(arr, Mat):
                        raise Undecided("integrated: %s" % (arr,))
                    return Mat(arr.rows, num(NB), lambda c, i: over(lambda g: tm(sc.w("CELL", g), arr.f(c, num(g)), mk("app", "phi", i, num(g)))))
                return sc(I, e, frm, st, name, fn, obj, this, argn)
            r = Run(P, f, ["stepper", "elt"], state=st, ctx=ctx, hook=hook, unroll=10)
            on = flags[0] and flags[1] and not flags[2]
            for v in R(3):
                for i in R(NB):
                    want = ZERO
                    if on and v:
                        want = over(lambda g: tm(sc.w("CELL", g), mk("app", "phi", num(i), num(g)), mi(tm(dv(gsym, al), mk("app", "expanded", s.dze.p, num(v - 1), num(g)), el.data.internal.aux_at_gp(1, g)),
                                                                                                       mk("app", "expanded", s.w1.p, num(v - 1), num(g)))))
                    ctx.eq("correction", "%s wet=%d dispersive=%d troubled=%d variable %d, %d" % ((tu,) + tuple(flags) + (v, i)), m2(r.st, s.rhs, v, i), want, W, "the correction")


def sides(ed, what):
    """[(label, data, bound id, normal, points side)]"""
    if what == "interface":
        f = ed.interface
        return [(s, fld(f.p, "data_" + s), fld(f.p, "bound_id_" + s), X(fld(f.p, "surface_normal_" + s)), s.upper()) for s in ("in", "ex")]
    f = ed.boundary
    return [("own", f.data.p, f.bound_id.p, f.surface_normal, "IN")]


def edge(ctx, P, tu, what):
    al = alpha(P)
    one = {"interface": "interface", "boundary": "boundary", "distributed": "distributed"}[what]
    loc = P.find_re(r"GN::EHDG::Problem::local_dc_edge_%s_kernel$" % one)
    glo = P.find_re(r"GN::EHDG::Problem::global_dc_edge_%s_kernel$" % one)
    key = lambda f: f.psig
    for k, (fl, fg) in enumerate(zip(sorted(loc, key=key), sorted(glo, key=key))):
        kinds = [x for x in ("DistributedLevee", "Levee", "Land", "Tide", "Flow", "Function", "Distributed", "Internal") if ("::" + x) in fl.psig] or ["?"]
        kind = kinds[0]
        if "Levee" in kind:
            continue
        cases = [(True, True), (True, False), (False, True), (False, False)] if what == "interface" else [(True, True), (True, False), (False, True)] if what == "distributed" else [(True, True), (False, True)]
        for case in cases:
            ctx.guard("edge", "%s %s %s" % (tu, kind, case), fl.where(), lambda: edge_case(ctx, P, tu, what, kind, case, fl, fg, al), 100)


def edge_case(ctx, P, tu, what, kind, case, fl, fg, al):
    ed = X(mk("param", 1, "edge"))
    sc, st = Sch(), State()
    sd = sides(ed, what)
    wets = list(case) if what == "interface" else [case[0]]
    write(st, ed.edge_data.ndof.p, num(NE))
    write(st, ed.edge_data.ngp.p, num(NG))
    arrays(st, ed.edge_data.edge_internal.p, ("aux_hat_at_gp", "w1_hat_w1_hat_kernel_at_gp"))
    if what == "distributed":
        write(st, ed.boundary.boundary_condition.wet_neighbor.p, TRUE if case[1] else FALSE)
    for (l, d, bid, nrm, S_), w in zip(sd, wets):
        cell_data(st, X(d))
        arrays(st, at1(fld(d, "boundary"), bid), BND)
        write(st, fld(nrm.p, "#cols"), num(NG))
        write(st, X(d).wet_dry_state.wet.p, TRUE if w else FALSE)
    st0 = st.copy()
    names = ["stepper", "edge"]
    r = Run(P, fl, names, state=st, ctx=ctx, hook=sc, unroll=10)
    r2 = Run(P, fg, names, state=r.st, ctx=ctx, hook=sc, unroll=10)
    W, W2 = fl.where(), fg.where()
    B = [X(at1(fld(d, "boundary"), bid)) for l, d, bid, nrm, S_ in sd]
    tau = num(-20)
    if any(wets):
        v = m2(r.st, B[0].w1_w1_kernel_at_gp, 0, 0)
        v = t.numval(term(dv(tm(v, num(-3)), al)))
        if v is not None:
            tau = num(v)
    ctx.ob("edge", "%s %s %s stabilised" % (tu, kind, case), t.numval(term(tau)) < 0, W, "the stabilisation is %s" % tau)
    for n, (l, d, bid, nrm, S_) in enumerate(sd):
        b, it = B[n], X(d).internal
        tag = "%s %s %s side %s" % (tu, kind, "".join("wd"[not x] for x in case), l)
        wet = wets[n]
        own = lambda g: b.aux_at_gp(1, g)
        hh = (lambda g: tm(fr(1, 2), pl(own(g), B[1 - n].aux_at_gp(1, NG - 1 - g)))) if what == "interface" else own
        bb = lambda c, g: mi(ZERO, b.dbath_hat_at_gp(c, g))
        ph = lambda i, g: sc.fn("Phi", S_, i, g)
        la = lambda i, g: sc.fn("Lambda", S_, i, g)
        w = lambda g: sc.w(S_, g)
        for i in R(NB):
            for j in R(NB):
                for c in R(2):
                    for e in R(2):
                        was = m2(st0, it.w1_w1, 2 * i + c, 2 * j + e)
                        want = pl(was, over(lambda g: tm(w(g), ph(i, g), ph(j, g), fr(-1, 3), al, tau, delta(c, e)))) if wet else was
                        ctx.eq("edge", "%s momentum %d%s %d%s" % (tag, i, XY[c], j, XY[e]), m2(r.st, it.w1_w1, 2 * i + c, 2 * j + e), want, W, "the cell's block")
            for j in R(NE):
                for e in R(2):
                    for c in R(2):
                        if not wet:
                            continue
                        want = over(lambda g: tm(w(g), ph(i, g), la(j, g), pl(tm(fr(1, 3), al, tau, delta(c, e)), tm(fr(1, 2), al, hh(g), bb(e, g), nrm(c, g)))))
                        ctx.eq("edge", "%s momentum %d%s trace %d%s" % (tag, i, XY[c], j, XY[e]), m2(r.st, b.w1_w1_hat, 2 * i + c, 2 * j + e), want, W, "the block")
                    if wet:
                        want = over(lambda g: tm(w(g), ph(i, g), la(j, g), mi(ZERO, dv(nrm(e, g), hh(g)))))
                        ctx.eq("edge", "%s divergence %d trace %d%s" % (tag, i, j, XY[e]), m2(r.st, b.w2_w1_hat, i, 2 * j + e), want, W, "the block")
        wall = (what == "interface" and not all(wets)) or kind == "Land" or (what == "distributed" and not case[1])
        if not wet:
            continue
        for i in R(NE):
            for j in R(NB):
                for c in R(2):
                    for e in R(2):
                        k = (lambda g: mi(delta(c, e), tm(nrm(c, g), nrm(e, g)))) if wall else (lambda g: tm(tau, delta(c, e)))
                        ctx.eq("trace", "%s trace %d%s momentum %d%s" % (tag, i, XY[c], j, XY[e]), m2(r2.st, b.w1_hat_w1, 2 * i + c, 2 * j + e), over(lambda g: tm(w(g), la(i, g), ph(j, g), k(g))), W2, "the block")
                    k = (lambda g: ZERO) if wall else (lambda g: nrm(c, g))
                    ctx.eq("trace", "%s trace %d%s divergence %d" % (tag, i, XY[c], j), m2(r2.st, b.w1_hat_w2, 2 * i + c, j), over(lambda g: tm(w(g), la(i, g), ph(j, g), k(g))), W2, "the block")
    if not any(wets):
        return
    k = num(-1) if wall else tm(tau, num(-len(sd)))
    ei = ed.edge_data.edge_internal
    for i in R(NE):
        for j in R(NE):
            for c in R(2):
                for e in R(2):
                    want = over(lambda g: tm(sc.w("IN", g), sc.fn("Lambda", "IN", i, g), sc.fn("Lambda", "IN", j, g), k, delta(c, e)))
                    ctx.eq("trace", "%s %s %s trace %d%s %d%s" % (tu, kind, "".join("wd"[not x] for x in case), i, XY[c], j, XY[e]), m2(r2.st, ei.w1_hat_w1_hat, 2 * i + c, 2 * j + e), want, W2, "the block")


def run(ctx):
    ctx.rule("cell", "a cell's blocks are those of the weak form of the dispersive operator", 20)
    ctx.rule("source", "the right side is the dispersive source of the velocities, their derivatives and the bottom", 4)
    ctx.rule("correction", "the solution corrects the momentum of wet, dispersive, untroubled cells only", 24)
    ctx.rule("edge", "the edges add the stabilised traces to the cell's equations", 60)
    ctx.rule("trace", "the trace equations balance the dispersive fluxes, or let none through a wall", 60)
    for tu in ("serial", "ompi"):
        P = ctx.prog(tu)
        if tu == "serial" or ctx.tier == "thorough":
            ctx.guard("cell", tu, "", lambda: cell(ctx, P, tu), 200)
            ctx.guard("source", tu, "", lambda: source(ctx, P, tu), 200)
        for what in ("interface", "boundary", "distributed") if tu == "serial" or ctx.tier == "thorough" else ("distributed",):
            edge(ctx, P, tu, what)
