"""P07 boundary conditions impose what the input prescribes, alike in every scheme"""
from .. import terms as t
from ..spec import *
from ..interp import TRUE, FALSE
from .. import events as E
from .p03 import gravity, VARS
from .p04 import llf_spec
from .p05 import reflect, hdg_flux, unit_sub

PI = t.Fraction(314159265358979, 10 ** 14)
DEG = num(PI / 180)


def last(n):
    return n.split("::")[-1]


def run(ctx):
    ctx.rule("series", "the prescribed elevation or discharge is ramp * sum of factor * amplitude * cos(frequency * time + (argument - phase) in degrees), at the time the scheme needs it", 60)
    ctx.rule("nodal", "amplitudes and phases are taken from the input node by node and interpolated to the quadrature points", 40)
    ctx.rule("wall", "a land boundary reflects the flow, so no water crosses it", 12)
    ctx.rule("flux", "the hybridized boundary flux is the physical flux of the trace plus the penalty of the jump", 18)
    ctx.rule("trace", "the boundary part of the implicit system is the residual of the upwind trace equation and its exact derivative in the trace", 90)
    ctx.rule("function", "a function boundary prescribes the reference solution at the time the scheme needs it", 4)
    P = ctx.prog("ompi", "stepper")
    gsym = gravity(P)
    ngp = 3 if ctx.tier == "quick" else 4
    for sch in ("RKDG", "EHDG", "IHDG"):
        for kind in ("Tide", "Flow", "Land", "Function"):
            cls = "SWE::%s::BC::%s" % (sch, kind)
            if kind in ("Tide", "Flow"):
                nodal(ctx, P, cls, kind)
            for meth in ("ComputeFlux", "ComputeNumericalFlux", "ComputeInitTrace", "ComputeGlobalKernels"):
                for n_, fn in enumerate(P.find(cls + "::" + meth)):
                    W = fn.where()
                    if not any(nm in ("stepper",) for nm in [p[1] for p in fn.params]) and len(fn.params) != 2:
                        if kind == "Land":
                            ctx.guard("wall", "%s column" % sch, W, lambda: wall_column(ctx, P, fn, sch, gsym, W))
                        continue
                    if n_ > 1:
                        break
                    tag = "%s %s %s%s" % (sch, kind, meth, " (GN)" if "GN::" in fn.psig else "")
                    ctx.guard("series", tag, W, lambda: one(ctx, P, fn, sch, kind, meth, tag, gsym, ngp, W), 120)
    for fn in P.find("SWE::RKDG::BC::Land::GetEX"):
        def getex():
            r = Run(P, fn, ["|n", "|q", "|qex"], ctx=ctx)
            n, q_, e = r.args
            want = reflect([q_[i].p for i in range(3)], n[0].p, n[1].p)
            sb = {n[0].p: t.app("cos", q("th")), n[1].p: t.app("sin", q("th"))}
            for i in range(3):
                ctx.eq("wall", "mirror state %s" % VARS[i], t.subst(r[e[i]], sb), t.subst(want[i], sb), fn.where(), "mirrored " + VARS[i])
        ctx.guard("wall", "mirror state", fn.where(), getex)


def wall_column(ctx, P, fn, sch, gsym, W):
    th = q("th")
    if sch == "RKDG":
        r = Run(P, fn, ["|n", "|q", "|aux", "|f"], ctx=ctx)
        n, q_, aux, f = r.args
        sb = {n[0].p: t.app("cos", th), n[1].p: t.app("sin", th), aux[2].p: ONE}
        qs = [q_[i].p for i in range(3)]
        want, _ = llf_spec(gsym, qs, reflect(qs, n[0].p, n[1].p), aux[0].p, ONE, n[0].p, n[1].p)
        for i in range(3):
            ctx.eq("wall", "RKDG column flux %s" % VARS[i], t.subst(r[f[i]], sb), t.subst(want[i], sb), W, "flux of %s at a wall" % VARS[i])


def nodal(ctx, P, cls, kind):
    for fn in P.find(cls + "::" + kind):
        if len(fn.params) != 1:
            continue
        W = fn.where()

        def ctor():
            r = Run(P, fn, ["in"], ctx=ctx)
            i = X(mk("param", 0, "in"))
            c, n = q("con"), q("n")
            for f in ("amplitude", "phase"):
                ctx.eq("nodal", "%s %s" % (cls, f), r[getattr(r.this, f)[c][n]], getattr(i[n], f)[c], W, f + " of a constituent at a boundary node")
            for f in ("frequency", "forcing_fact", "equilib_arg"):
                ctx.eq("nodal", "%s %s" % (cls, f), r[getattr(r.this, f)[c]], getattr(i[0], f)[c], W, f + " of a constituent")
        ctx.guard("nodal", cls, W, ctor)
    for k, fn in enumerate(P.find(cls + "::Initialize")[:2]):
        W = fn.where()

        def init():
            r = Run(P, fn, ["bound"], ctx=ctx)
            b = r.args[0]
            c = q("con")
            for f in ("amplitude", "phase"):
                src = getattr(r.this, f)[c]
                got = r[getattr(r.this, f + "_gp")[c][G]]
                want = S(0, fld(src.p, "#size"), lambda n: tm(b.psi_bound_gp(n, G), src[n]))
                ctx.eq("nodal", "%s %s at quadrature points #%d" % (cls, f, k), got, want, W, f + " at a quadrature point")
        ctx.guard("nodal", cls + " initialize", W, init)


def one(ctx, P, fn, sch, kind, meth, tag, gsym, ngp, W):
    st = State()
    arg = X(mk("param", 1, "b"))
    stp = X(mk("param", 0, "stepper"))
    b = arg if sch == "RKDG" else arg.boundary
    bs = b.data.boundary[b.bound_id]
    this = X(mk("this"))
    write(st, fld(bs.q_at_gp.p, "#cols"), num(ngp))
    write(st, b.data.ngp_boundary[b.bound_id].p, num(ngp))
    if sch != "RKDG":
        write(st, arg.edge_data.ngp.p, num(ngp))
    init = meth == "ComputeInitTrace"
    write(st, fld(b.phi_gp.p, "#cols"), num(ngp))
    qarr = fld(mk("param", 8, "Q"), "q_at_gp")     # the element's state on the boundary
    if init:
        pass
    else:
        write(st, bs.q_at_gp.p, qarr)
        write(st, fld(bs.q_at_gp.p, "#cols"), num(ngp))
    qhat = fld(mk("param", 8, "QHAT"), "q")
    seen = []
    pos, neg = mk("param", 8, "AP"), mk("param", 8, "AM")

    def hook(I, e, fr, s, name, f, obj, th, argn):
        l = last(name)
        if l == "compute_bc_trace":
            seen.append([[dims(read(s, this.q_ex(i, k).p)) for i in range(3)] for k in range(ngp)])
            if init:
                seen.append([[dims(read(s, bs.q_at_gp(i, k).p)) for i in range(3)] for k in range(ngp)])
            write(s, arg.edge_data.edge_state.q_hat.p, qhat)
            return ZERO
        if l.startswith(("get_A", "get_dA")):
            dst = I.ev(argn[3], fr, s)
            base = fld(pos if "plus" in l else neg, l)
            write(s, dst.path, base)
            return ZERO
        return NotImplemented
    r = Run(P, fn, ["stepper", "b"], state=st, ctx=ctx, hook=hook, event=lambda n: last(n) == "ic_q")
    Q = X(qarr)
    qi = [[Q(i, k).p for i in range(3)] for k in range(ngp)]
    if init:
        s0 = b.data.state[0]
        qi = [[S(0, NDOF, lambda d: tm(b.phi_gp(d, k), s0.q(i, d))) for i in range(3)] for k in range(ngp)]
    n = b.surface_normal
    imp = sch == "IHDG"
    nxt = meth == "ComputeGlobalKernels"
    if imp:
        time = pl(stp.t, stp.dt) if nxt else stp.t.p
        rmp = stp.ramp_next.p if nxt else stp.ramp.p
    else:
        time = pl(stp.t, tm(stp.dt, stp.drk[stp.stage]))
        rmp = stp.ramp.p
    if kind == "Function":
        oc = E.occs(r.st.events)
        ok = len(oc) >= 1 and all(t.equal(o.args[0], time) for o in oc)
        ctx.ob("function", tag, ok, oc[0].where() if oc else W, "reference solution evaluated at time %s" % [str(o.args[0]) for o in oc])
    # ---- the state prescribed outside
    if kind in ("Tide", "Flow"):
        ex = []
        for k in range(ngp):
            c = mk("it", "con")
            body = tm(this.forcing_fact[c], this.amplitude_gp[c][k], cos(pl(tm(this.frequency[c], time), tm(mi(this.equilib_arg[c], this.phase_gp[c][k]), DEG))))
            from ..interp import mksum
            val = tm(rmp, mksum(c, ZERO, fld(this.frequency.p, "#size"), body))
            if kind == "Tide":
                ex.append([val, qi[k][1], qi[k][2]])
            else:
                ex.append([qi[k][0], tm(val, n(0, k)), tm(val, n(1, k))])
    elif kind == "Land":
        ex = [reflect(qi[k], n(0, k).p, n(1, k).p) for k in range(ngp)]
    else:
        ex = None
    rule = "wall" if kind == "Land" else "series"
    ei = arg.edge_data.edge_internal
    for k in range(ngp):
        sb = unit_sub(n, k, "n")
        c = lambda x: t.subst(x, sb)
        if sch == "RKDG":
            sp, bath = bs.aux_at_gp(2, k).p, bs.aux_at_gp(0, k).p
            if ex is None:
                ex_k = [dims(read(r.st, this.q_ex(i, k).p)) for i in range(3)]
            else:
                ex_k = ex[k]
            want, _ = llf_spec(gsym, qi[k], ex_k, bath, sp, n(0, k).p, n(1, k).p)
            for i in range(3):
                ctx.eq(rule, "%s flux gp %d %s" % (tag, k, VARS[i]), c(r[bs.F_hat_at_gp(i, k)]), c(want[i]), W, "boundary flux of " + VARS[i])
            if kind == "Land":
                o = {sp: ONE}
                ctx.eq("wall", "%s no water crosses, gp %d" % (tag, k), t.subst(c(r[bs.F_hat_at_gp(0, k)]), o), ZERO, W, "mass flux through a wall")
        elif kind == "Land":
            nx, ny = n(0, k).p, n(1, k).p
            qn = pl(tm(qi[k][1], nx), tm(qi[k][2], ny))
            tr = [qi[k][0], mi(qi[k][1], tm(qn, nx)), mi(qi[k][2], tm(qn, ny))]
            if sch == "EHDG":
                bath = ei.aux_hat_at_gp(0, k).p
                want = hdg_flux(gsym, qi[k], tr, bath, pl(tr[0], bath), nx, ny)
                for i in range(3):
                    ctx.eq("wall", "%s flux gp %d %s" % (tag, k, VARS[i]), c(r[bs.F_hat_at_gp(i, k)]), c(want[i]), W, "boundary flux of " + VARS[i])
                ctx.eq("wall", "%s no water crosses, gp %d" % (tag, k), c(r[bs.F_hat_at_gp(0, k)]), ZERO, W, "mass flux through a wall")
            elif init:
                for i in range(3):
                    ctx.eq("wall", "%s initial trace gp %d %s" % (tag, k, VARS[i]), c(r[ei.q_hat_at_gp(i, k)]), c(tr[i]), W, "trace at a wall")
            else:
                qh = [ei.q_hat_at_gp(i, k).p for i in range(3)]
                res = [mi(qh[i], tr[i]) for i in range(3)]
                for i in range(3):
                    ctx.eq("trace", "%s residual gp %d %s" % (tag, k, VARS[i]), c(r[ei.rhs_global_kernel_at_gp(i, k)]), c(res[i]), W, "trace residual")
                    for j in range(3):
                        ctx.eq("trace", "%s d/dtrace gp %d (%d,%d)" % (tag, k, i, j), r[ei.delta_hat_global_kernel_at_gp(3 * i + j, k)], t.diff(res[i], qh[j]), W, "derivative of the trace residual in the trace")
                        ctx.eq("trace", "%s d/dstate gp %d (%d,%d)" % (tag, k, i, j), r[bs.delta_global_kernel_at_gp(3 * i + j, k)], t.diff(res[i], qi[k][j]), W, "derivative of the trace residual in the state")
        else:
            if not nxt:
                if not seen:
                    raise Undecided("no boundary trace computation")
                if ex is not None:
                    for i in range(3):
                        ctx.eq("series", "%s outside state gp %d %s" % (tag, k, VARS[i]), c(seen[0][k][i]), c(ex[k][i]), W, "prescribed outside " + VARS[i])
            if init:
                if len(seen) > 1:
                    for i in range(3):
                        ctx.eq("series", "%s element state gp %d %s" % (tag, k, VARS[i]), seen[1][k][i], qi[k][i], W, "element state at the boundary")
            elif not nxt:
                hat = [r[ei.q_hat_at_gp(i, k)] for i in range(3)]
                lam = arg.lambda_gp
                bath = ei.aux_hat_at_gp(0, k).p
                for i in range(3):
                    wq = S(0, fld(qhat, "#cols"), lambda d: tm(lam(d, k), X(qhat)(i, d)))
                    ctx.eq("flux", "%s trace gp %d %s" % (tag, k, VARS[i]), hat[i], dims(wq), W, "trace at a quadrature point")
                want = hdg_flux(gsym, qi[k], hat, bath, pl(hat[0], bath), n(0, k).p, n(1, k).p)
                for i in range(3):
                    ctx.eq("flux", "%s flux gp %d %s" % (tag, k, VARS[i]), c(r[bs.F_hat_at_gp(i, k)]), c(want[i]), W, "boundary flux of " + VARS[i])
            else:
                exk = ex[k] if ex is not None else [dims(read(r.st, this.q_ex(i, k).p)) for i in range(3)]
                qh = [ei.q_hat_at_gp(i, k).p for i in range(3)]
                M = lambda s, nm: X(fld(s, nm))[k]
                for i in range(3):
                    u = lambda j: mi(qi[k][j], qh[j])
                    v = lambda j: mi(exk[j], qh[j])
                    res = pl(*[mi(tm(M(pos, "get_Aplus")(i, j), u(j)), tm(M(neg, "get_Aminus")(i, j), v(j))) for j in range(3)])
                    ctx.eq("trace", "%s residual gp %d %s" % (tag, k, VARS[i]), r[ei.rhs_global_kernel_at_gp(i, k)], res, W, "trace residual")
                    for j in range(3):
                        dn = ("ze", "qx", "qy")[j]
                        w = pl(mi(M(neg, "get_Aminus")(i, j), M(pos, "get_Aplus")(i, j)),
                               *[mi(tm(M(pos, "get_dAplus_d" + dn)(i, m), u(m)), tm(M(neg, "get_dAminus_d" + dn)(i, m), v(m))) for m in range(3)])
                        ctx.eq("trace", "%s d/dtrace gp %d (%d,%d)" % (tag, k, i, j), r[ei.delta_hat_global_kernel_at_gp(3 * i + j, k)], w, W, "derivative of the trace residual in the trace")
                        ctx.eq("trace", "%s d/dstate gp %d (%d,%d)" % (tag, k, i, j), r[bs.delta_global_kernel_at_gp(3 * i + j, k)], M(pos, "get_Aplus")(i, j), W, "derivative of the trace residual in the state")
