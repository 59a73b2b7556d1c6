"""P05 what one element loses across an edge its neighbour gains, locally and across ranks"""
from .. import terms as t
from ..spec import *
from ..interp import TRUE, FALSE
from .p03 import flux, gravity, VARS
from .p04 import llf_spec, HALF

TOL = num(t.Fraction(1, 10 ** 12))


def reflect(q_, nx, ny):
    qn = pl(tm(q_[1], nx), tm(q_[2], ny))
    two = num(2)
    return [q_[0], mi(q_[1], tm(two, qn, nx)), mi(q_[2], tm(two, qn, ny))]


def hdg_flux(gr, q_, qh, b, h, nx, ny):
    """Fn(q_hat) + tau (q - q_hat)"""
    fx, fy = flux(gr, qh[0], qh[1], qh[2], b, h)
    tau = pl(sqrt(tm(gr, h)), absf(dv(pl(tm(qh[1], nx), tm(qh[2], ny)), h)))
    return [pl(tm(fx[i], nx), tm(fy[i], ny), tm(tau, mi(q_[i], qh[i]))) for i in range(3)]


def gated(m, own_dry, other_dry, full, nograv, land):
    """flux on one side: full unless a dry side is involved"""
    out = []
    gt = t.lt(TOL, m)
    ls = t.lt(m, t.neg(TOL))
    for i in range(3):
        v = full[i]
        if own_dry:
            # water leaving a dry element is stopped; arriving water brings no pressure force
            w = m if i == 0 else nograv[i]
            v2 = phi(gt, ZERO, phi(ls, w, full[i]))
            if other_dry:
                v2 = phi(gt, ZERO, phi(ls, (ZERO if i == 0 else land[i]), full[i]))
            v = v2
        elif other_dry:
            v = phi(ls, (ZERO if i == 0 else land[i]), full[i])
        out.append(v)
    return out


def unit_sub(n, gp, tag, n2=None, gp2=None):
    th = mk("q", "theta%s%d" % (tag, gp))
    m = {n(0, gp).p: t.app("cos", th), n(1, gp).p: t.app("sin", th)}
    if n2 is not None:
        m[n2(0, gp2).p] = t.neg(t.app("cos", th))
        m[n2(1, gp2).p] = t.neg(t.app("sin", th))
    return m


def run(ctx):
    ctx.rule("explicit", "the explicit interface flux: both sides receive opposite fluxes at facing quadrature points; dry sides are never drained", 40)
    ctx.rule("hybrid", "the hybridized explicit interface flux: likewise", 30)
    ctx.rule("remote", "an edge shared with another rank computes, from the exchanged message, the flux of the local interface routine", 30)
    ctx.rule("levee", "an overtopped levee hands the same weir discharge to both sides, a barrier above the water reflects", 150)
    ctx.rule("apply", "every edge flux is subtracted from the residual of the element it belongs to with that edge's own weights", 70)
    P = ctx.prog("ompi")
    gsym = gravity(P)
    sizes = (3,) if ctx.tier == "quick" else (1, 2, 3, 4)
    combos = [(a, b) for a in (True, False) for b in (True, False)]
    B = lambda v: TRUE if v else FALSE

    # -------------------------------------------------- explicit, local + remote
    for ngp in sizes:
        for wi, we in combos:
            tag = "ngp=%d in %s ex %s" % (ngp, "wet" if wi else "dry", "wet" if we else "dry")
            for fn in P.find("SWE::RKDG::ISP::Internal::ComputeFlux")[:1]:
                W = fn.where()

                def loc():
                    st = State()
                    a = X(mk("param", 0, "if"))
                    write(st, a.data_in.wet_dry_state.wet.p, B(wi))
                    write(st, a.data_ex.wet_dry_state.wet.p, B(we))
                    write(st, a.data_in.ngp_boundary[a.bound_id_in].p, num(ngp))
                    write(st, a.data_ex.ngp_boundary[a.bound_id_ex].p, num(ngp))
                    r = Run(P, fn, ["if"], state=st, ctx=ctx)
                    bi, be = a.data_in.boundary[a.bound_id_in], a.data_ex.boundary[a.bound_id_ex]
                    ni, ne = a.surface_normal_in, a.surface_normal_ex
                    for k in range(ngp):
                        e = ngp - 1 - k
                        sb = unit_sub(ni, k, "n", ne, e)
                        qi = [bi.q_at_gp(i, k).p for i in range(3)]
                        qe = [be.q_at_gp(i, e).p for i in range(3)]
                        b, sp = bi.aux_at_gp(0, k).p, bi.aux_at_gp(2, k).p
                        one = {sp: ONE, be.aux_at_gp(2, e).p: ONE, be.aux_at_gp(0, e).p: b}
                        nx, ny = ni(0, k).p, ni(1, k).p
                        for side in ("in", "ex"):
                            if side == "in":
                                own, oth, s = qi, qe, (nx, ny)
                                dry = (not wi, not we)
                                got = [r[bi.F_hat_at_gp(i, k)] for i in range(3)]
                            else:
                                own, oth, s = qe, qi, (ne(0, e).p, ne(1, e).p)
                                dry = (not we, not wi)
                                got = [r[be.F_hat_at_gp(i, e)] for i in range(3)]
                            full, _ = llf_spec(gsym, own, oth, b, ONE, *s)
                            nog, _ = llf_spec(ZERO, own, oth, b, ONE, *s)
                            land, _ = llf_spec(gsym, own, reflect(own, *s), b, ONE, *s)
                            want = gated(full[0], dry[0], dry[1], full, nog, land)
                            for i in range(3):
                                c = lambda x: t.subst(t.subst(x, one), sb)
                                ctx.eq("explicit", "%s side %s gp %d %s" % (tag, side, k, VARS[i]), c(got[i]), c(want[i]), W, "flux of %s on the %s side" % (VARS[i], side))
                ctx.guard("explicit", tag, W, loc)
            for cls, rule in (("SWE::RKDG::DBC::Distributed::ComputeFlux", "remote"),):
                for fn in P.find(cls)[:1]:
                    W = fn.where()
                    ctx.guard("remote", tag, W, lambda: remote_explicit(ctx, P, gsym, fn, ngp, wi, we, tag, "remote"))

    # -------------------------------------------------- hybridized explicit
    for ngp in sizes:
        for wi, we in combos:
            if not wi and not we:
                continue
            tag = "ngp=%d in %s ex %s" % (ngp, "wet" if wi else "dry", "wet" if we else "dry")
            for fn in P.find("SWE::EHDG::ISP::Internal::ComputeNumericalFlux")[:1]:
                W = fn.where()

                def loc():
                    st = State()
                    ed = X(mk("param", 0, "edge"))
                    a = ed.interface
                    write(st, a.data_in.wet_dry_state.wet.p, B(wi))
                    write(st, a.data_ex.wet_dry_state.wet.p, B(we))
                    write(st, ed.edge_data.ngp.p, num(ngp))
                    r = Run(P, fn, ["edge"], state=st, ctx=ctx)
                    bi, be = a.data_in.boundary[a.bound_id_in], a.data_ex.boundary[a.bound_id_ex]
                    for k in range(ngp):
                        e = ngp - 1 - k
                        check_hybrid(ctx, "hybrid", tag, W, r, gsym, bi, be, k, e, a.surface_normal_in, a.surface_normal_ex,
                                     ed.edge_data.edge_internal.aux_hat_at_gp, wi, we)
                ctx.guard("hybrid", tag, W, loc)
            for fn in P.find("SWE::EHDG::DBC::Distributed::ComputeNumericalFlux")[:1]:
                W = fn.where()
                ctx.guard("remote", "hybrid " + tag, W, lambda: remote_hybrid(ctx, P, gsym, fn, ngp, wi, we, tag, "remote"))
    levee(ctx, P, gsym, sizes)
    apply_(ctx, P)


def remote_explicit(ctx, P, gsym, fn, ngp, wi, we, tag, rule):
    W = fn.where()
    B = lambda v: TRUE if v else FALSE
    st = State()
    a = X(mk("param", 0, "db"))
    write(st, a.data.wet_dry_state.wet.p, B(wi))
    write(st, a.data.ngp_boundary[a.bound_id].p, num(ngp))
    r, msg = with_message(P, fn, ["db"], st, ctx, B(we), lambda i, k: mk("param", 9, "ex%d_%d" % (i, k)), ngp,
                          "SWE::RKDG::Problem::distributed_boundary_send_kernel")
    bi = a.data.boundary[a.bound_id]
    ni = a.surface_normal
    for k in range(ngp):
        qi = [bi.q_at_gp(i, k).p for i in range(3)]
        qe = [mk("param", 9, "ex%d_%d" % (i, ngp - 1 - k)) for i in range(3)]
        b, sp = bi.aux_at_gp(0, k).p, bi.aux_at_gp(2, k).p
        s = (ni(0, k).p, ni(1, k).p)
        full, _ = llf_spec(gsym, qi, qe, b, ONE, *s)
        nog, _ = llf_spec(ZERO, qi, qe, b, ONE, *s)
        land, _ = llf_spec(gsym, qi, reflect(qi, *s), b, ONE, *s)
        want = gated(full[0], not wi, not we, full, nog, land)
        sb = unit_sub(ni, k, "n")
        c = lambda x: t.subst(t.subst(x, {sp: ONE}), sb)
        for i in range(3):
            ctx.eq(rule, "explicit %s gp %d %s" % (tag, k, VARS[i]), c(r[bi.F_hat_at_gp(i, k)]), c(want[i]), W, "flux of %s at a rank boundary" % VARS[i])


def remote_hybrid(ctx, P, gsym, fn, ngp, wi, we, tag, rule):
    W = fn.where()
    B = lambda v: TRUE if v else FALSE
    st = State()
    ed = X(mk("param", 0, "edge"))
    a = ed.boundary
    write(st, a.data.wet_dry_state.wet.p, B(wi))
    write(st, ed.edge_data.ngp.p, num(ngp))
    write(st, a.data.ngp_boundary[a.bound_id].p, num(ngp))
    r, msg = with_message(P, fn, ["edge"], st, ctx, B(we), lambda i, k: mk("param", 9, "ex%d_%d" % (i, k)), ngp,
                          "SWE::EHDG::Problem::global_distributed_boundary_kernel")
    bi = a.data.boundary[a.bound_id]
    for k in range(ngp):
        qe = [mk("param", 9, "ex%d_%d" % (i, ngp - 1 - k)) for i in range(3)]
        hybrid_side(ctx, rule, "hybrid %s" % tag, W, r, gsym, bi, k, qe, a.surface_normal, ed.edge_data.edge_internal.aux_hat_at_gp, k, wi, we, "in", None)


def hybrid_side(ctx, rule, tag, W, r, gsym, b_own, k, qe, n, aux, kaux, w_own, w_oth, side, sb):
    own = [b_own.q_at_gp(i, k).p for i in range(3)]
    qh = [tm(HALF, pl(own[i], qe[i])) for i in range(3)]
    b = aux(0, kaux).p
    h = pl(qh[0], b)
    s = (n(0, k).p, n(1, k).p)
    full = hdg_flux(gsym, own, qh, b, h, *s)
    nog = hdg_flux(ZERO, own, qh, b, h, *s)
    qn = pl(tm(own[1], s[0]), tm(own[2], s[1]))
    ql = [own[0], mi(own[1], tm(qn, s[0])), mi(own[2], tm(qn, s[1]))]
    land = hdg_flux(gsym, own, ql, b, h, *s)
    want = gated(full[0], not w_own, not w_oth, full, nog, land)
    if sb is None:
        sb = unit_sub(n, k, "n")
    for i in range(3):
        ctx.eq(rule, "%s side %s gp %d %s" % (tag, side, k, VARS[i]), t.subst(r[b_own.F_hat_at_gp(i, k)], sb), t.subst(want[i], sb), W,
               "flux of %s on the %s side" % (VARS[i], side))


def check_hybrid(ctx, rule, tag, W, r, gsym, bi, be, k, e, ni, ne, aux, wi, we):
    sb = unit_sub(ni, k, "n", ne, e)
    hybrid_side(ctx, rule, tag, W, r, gsym, bi, k, [be.q_at_gp(i, e).p for i in range(3)], ni, aux, k, wi, we, "in", sb)
    hybrid_side(ctx, rule, tag, W, r, gsym, be, e, [bi.q_at_gp(i, k).p for i in range(3)], ne, aux, k, we, wi, "ex", sb)


_LAY = {}


def message_layout(P, writer, ngp):
    """the order in which the sender stores its values, taken from the sending routine"""
    from .p08 import layout
    k = (id(P), writer, ngp)
    if k not in _LAY:
        fs = [f for f in P.find(writer) if f.body is not None]
        _LAY[k] = layout(P, fs[0], ngp) if fs else None
    lay = _LAY[k]
    if not lay or None in lay:
        raise LookupError("the message written by %s is not understood" % writer)
    return lay


def with_message(P, fn, names, st, ctx, wet, entry, ngp, writer):
    """run with the received message replaced by symbolic contents, in the order of
    the sending routine"""
    lay = message_layout(P, writer, ngp)

    def hook(I, e, fr, s, name, f, obj, this, argn):
        if name.endswith("DBDataExchanger::GetFromReceiveBuffer"):
            dst = I.ev(argn[1], fr, s)
            p = dst.path
            for j, what in enumerate(lay):
                write(s, at1(p, num(j)), t.phi(wet, ONE, ZERO) if what == "wet" else entry(*what))
            return ZERO
        return NotImplemented
    return Run(P, fn, names, state=st, ctx=ctx, hook=hook), None


def mark_hook(names, targets, log):
    """replace a call by an arbitrary result in the given locations; the
    locations in `log` are recorded as they are at the call"""
    def hook(I, e, fr, s, name, f, obj, this, argn):
        if name in names:
            for p, m in targets:
                write(s, p, m)
            rec = []
            for p in log[1]:
                v = read(s, p)
                rec.append(dims(reify(v) if isinstance(v, Mat) else v))
            log[0].append(rec)
            return ZERO
        return NotImplemented
    return hook


def apply_(ctx, P):
    """rhs after the kernel = rhs before - sum over gp of F_hat(gp) * weight(gp, dof), F_hat being what the flux routine left"""
    fhi, fhe = fld(mk("param", 8, "IN"), "F_hat_at_gp"), fld(mk("param", 8, "EX"), "F_hat_at_gp")
    cases = []
    for fn in P.find("SWE::RKDG::Problem::interface_kernel") + P.find("SWE::EHDG::Problem::local_interface_kernel"):
        W = fn.where()
        rk = "RKDG" in fn.name

        def one():
            a = X(mk("param", 1, "if"))
            stp = X(mk("param", 0, "stepper"))
            bi, be = a.data_in.boundary[a.bound_id_in], a.data_ex.boundary[a.bound_id_ex]
            s = stp.stage
            log = ([], [bi.q_at_gp(i, G).p for i in range(3)] + [be.q_at_gp(i, G).p for i in range(3)])
            st = State()
            if not rk:
                write(st, bi.F_hat_at_gp.p, fhi)
                write(st, be.F_hat_at_gp.p, fhe)
            names = {n for n in (x.name for tu in P.tus.values() for x in tu.fns.values()) if n.endswith("::ComputeFlux") and "ISP::" in n}
            r = Run(P, fn, ["stepper", "if"], state=st, ctx=ctx, hook=mark_hook(names, [(bi.F_hat_at_gp.p, fhi), (be.F_hat_at_gp.p, fhe)], log) if rk else None)
            tag = short(fn)
            wet = t.bor(a.data_in.wet_dry_state.wet.p, a.data_ex.wet_dry_state.wet.p)
            for i in range(3):
                for side, d, fh, fact in (("in", a.data_in, fhi, a.int_phi_fact_in), ("ex", a.data_ex, fhe, a.int_phi_fact_ex)):
                    rhs = d.state[s].rhs(i, D)
                    want = phi(wet, mi(rhs, S(0, NGP, lambda g: tm(X(fh)(i, g), fact(g, D)))), rhs)
                    ctx.eq("apply", "%s %s %s" % (tag, side, VARS[i]), r[rhs], want, W, "residual of %s on the %s side" % (VARS[i], side))
            if rk:
                if not log[0]:
                    ctx.ob("apply", tag + " flux evaluated", False, W, "the interface kernel never evaluates the interface flux")
                for rec in log[0]:
                    for k, (d, ph) in enumerate(((a.data_in, a.phi_gp_in), (a.data_ex, a.phi_gp_ex))):
                        for i in range(3):
                            want = S(0, NDOF, lambda d_: tm(d.state[s].q(i, d_), ph(d_, G)))
                            ctx.eq("apply", "%s trace %d %s" % (tag, k, VARS[i]), t.subst(rec[3 * k + i], {a.data_in.wet_dry_state.wet.p: TRUE, a.data_ex.wet_dry_state.wet.p: TRUE}), want, W, "trace of %s seen by the flux" % VARS[i])
        ctx.guard("apply", short(fn), W, one)
    for fn in P.find("SWE::RKDG::Problem::boundary_kernel") + P.find("SWE::RKDG::Problem::distributed_boundary_kernel") + \
            P.find("SWE::EHDG::Problem::local_boundary_kernel") + P.find("SWE::EHDG::Problem::local_distributed_boundary_kernel"):
        W = fn.where()
        rk = "RKDG" in fn.name

        def one():
            a = X(mk("param", 1, "bd"))
            stp = X(mk("param", 0, "stepper"))
            b = a.data.boundary[a.bound_id]
            s = stp.stage
            log = ([], [])
            st = State()
            if not rk:
                write(st, b.F_hat_at_gp.p, fhi)
            dist = "distributed" in fn.name
            if rk and not dist:
                log = ([], [b.q_at_gp(i, G).p for i in range(3)])
            names = {x.name for tu in P.tus.values() for x in tu.fns.values() if x.name.endswith("::ComputeFlux")}
            r = Run(P, fn, ["stepper", "bd"], state=st, ctx=ctx, hook=mark_hook(names, [(b.F_hat_at_gp.p, fhi)], log) if rk else None)
            tag = short(fn)
            wet = a.data.wet_dry_state.wet.p
            for i in range(3):
                rhs = a.data.state[s].rhs(i, D)
                upd = mi(rhs, S(0, NGP, lambda g: tm(X(fhi)(i, g), a.int_phi_fact(g, D))))
                got = r[rhs]
                if dist:
                    # at a rank boundary a dry side may be updated too: its flux is already cut off
                    ctx.eq("apply", "%s %s" % (tag, VARS[i]), t.subst(got, {wet: TRUE}), upd, W, "residual of " + VARS[i])
                else:
                    ctx.eq("apply", "%s %s" % (tag, VARS[i]), got, phi(wet, upd, rhs), W, "residual of " + VARS[i])
            if rk and not dist:
                if not log[0]:
                    ctx.ob("apply", tag + " flux evaluated", False, W, "the boundary kernel never evaluates the boundary flux")
                for rec in log[0]:
                    for i in range(3):
                        want = S(0, NDOF, lambda d_: tm(a.data.state[s].q(i, d_), a.phi_gp(d_, G)))
                        ctx.eq("apply", "%s trace %s" % (tag, VARS[i]), t.subst(rec[i], {wet: TRUE}), want, W, "trace of %s seen by the flux" % VARS[i])
        ctx.guard("apply", short(fn), W, one)


def short(fn):
    import re
    m = re.findall(r"(?:ISP|BC|DBC)::(\w+)", fn.psig)
    return fn.name.replace("::Problem", "") + ("<%s>" % m[-1] if m else "")


def levee(ctx, P, gsym, sizes):
    """weir formula and reflection, both sides and across ranks"""
    g = gsym
    tol = None
    for ngp in sizes:
        for we in (True, False):
            for cls in ("SWE::RKDG::ISP::Levee::ComputeFlux", "SWE::RKDG::DBC::DistributedLevee::ComputeFlux"):
                for fn in P.find(cls)[:1]:
                    W = fn.where()
                    ctx.guard("levee", cls, W, lambda: levee_one(ctx, P, gsym, fn, ngp, we))


def levee_one(ctx, P, gsym, fn, ngp, wet, rule="levee"):
    W = fn.where()
    dist = "Distributed" in fn.name
    st = State()
    a = X(mk("param", 0, "if"))
    this = X(mk("this"))
    if not dist:
        write(st, a.data_in.ngp_boundary[a.bound_id_in].p, num(ngp))
        write(st, a.data_in.wet_dry_state.wet.p, TRUE if wet else FALSE)
        write(st, a.data_ex.wet_dry_state.wet.p, TRUE if wet else FALSE)
        r = Run(P, fn, ["if"], state=st, ctx=ctx)
        bi, be = a.data_in.boundary[a.bound_id_in], a.data_ex.boundary[a.bound_id_ex]
        ni, ne = a.surface_normal_in, a.surface_normal_ex
    else:
        write(st, a.data.ngp_boundary[a.bound_id].p, num(ngp))
        write(st, a.data.wet_dry_state.wet.p, TRUE if wet else FALSE)
        r, _ = with_message(P, fn, ["if"], st, ctx, TRUE, lambda i, k: mk("param", 9, "ex%d_%d" % (i, k)), ngp, "SWE::RKDG::Problem::distributed_boundary_send_kernel")
        bi = a.data.boundary[a.bound_id]
        ni = a.surface_normal
    F_ = t.Fraction
    two3 = num(F_(2, 3))
    for k in range(ngp):
        e = ngp - 1 - k
        sb = unit_sub(ni, k, "n", None if dist else ne, None if dist else e)
        qi = [bi.q_at_gp(i, k).p for i in range(3)]
        qe = [mk("param", 9, "ex%d_%d" % (i, e)) for i in range(3)] if dist else [be.q_at_gp(i, e).p for i in range(3)]
        H, Cs, Cp = this.H_bar_gp[k].p, this.C_subcrit_gp[k].p, this.C_supercrit_gp[k].p
        sides = [("in", qi, qe, bi, k, ni)] + ([] if dist else [("ex", qe, qi, be, e, ne)])
        for case, xi, xe in (("both below", F_(-1, 2), F_(-1, 3)), ("level", F_(1, 2), F_(1, 2)), ("out, drowned", F_(9, 10), F_(7, 10)), ("out, free", F_(9, 10), F_(1, 10)),
                             ("in, drowned", F_(6, 10), F_(8, 10)), ("in, free", F_(-1, 5), F_(7, 10)), ("out, free, far side below", F_(9, 10), F_(-1, 10))):
            lev = {qi[0]: pl(H, num(xi)), qe[0]: pl(H, num(xe)), this.H_tolerance.p: num(F_(1, 1000))}
            for side, own, oth, bb, kk, n in sides:
                s = (n(0, kk).p, n(1, kk).p)
                b = bb.aux_at_gp(0, kk).p
                ho, ht = (xi, xe) if side == "in" else (xe, xi)

                def weir(hu, hd):
                    if hd > F_(2, 3) * hu:
                        return tm(Cs, num(hd), sqrt(tm(num(2), gsym, num(hu - hd))))
                    return tm(Cp, two3, num(hu), sqrt(tm(gsym, two3, num(hu))))
                if (xi < 0 and xe < 0) or xi == xe:
                    want, _ = llf_spec(gsym, own, reflect(own, *s), b, ONE, *s)
                else:
                    qn = weir(ho, ht) if ho > ht else t.neg(weir(ht, ho))
                    qx = [own[0], tm(qn, s[0]), tm(qn, s[1])]
                    want, _ = llf_spec(gsym if (wet or ho > ht) else ZERO, own, qx, b, ONE, *s)
                for i in range(3):
                    c = lambda x: t.subst(t.subst(t.subst(x, {bb.aux_at_gp(2, kk).p: ONE}), lev), sb)
                    ctx.eq(rule, "%s %s ngp=%d gp %d %s %s %s" % ("remote" if dist else "local", "wet" if wet else "dry", ngp, k, case, side, VARS[i]),
                           c(r[bb.F_hat_at_gp(i, kk)]), c(want[i]), W, "levee flux of %s (%s)" % (VARS[i], case))
