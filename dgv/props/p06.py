"""P06 element residual: volume term, bed slope, forcing, bottom friction"""
from .. import terms as t
from ..spec import *
from ..interp import TRUE, FALSE
from .p03 import flux, gravity, VARS


def basics(a, stp):
    """state expansion at a quadrature point (wet element)"""
    s = stp.stage
    qg = [S(0, NDOF, lambda d: tm(a.data.state[s].q(i, d), P_(a.master).phi_gp(d, G))) for i in range(3)]
    return s, qg


def at(x, g):
    return t.subst(term(x), {G: g})


def run(ctx):
    ctx.rule("volume", "the residual of a wet element starts as the weak divergence of the flux of the expanded state; of a dry one as zero", 12)
    ctx.rule("depth", "the water depth used by later kernels is the expanded elevation plus the bathymetry, and the expanded state is the basis expansion of the modal coefficients", 12)
    ctx.rule("weak", "the source enters a wet element's residual weighted with the basis functions, and a dry element is left alone", 8)
    ctx.rule("slope", "the momentum source is gravity times elevation times bed slope plus the prescribed function; there is no mass source but the prescribed one", 12)
    ctx.rule("friction", "bottom friction is -Cf |u| u with the Manning coefficient limited from below by Cf", 12)
    for tu in ("serial", "ompi"):
        P = ctx.prog(tu)
        gsym = gravity(P)
        for fn in P.find("SWE::RKDG::Problem::volume_kernel") + P.find("SWE::EHDG::Problem::local_volume_kernel"):
            W = fn.where()
            tag = "%s %s %s" % (tu, fn.name.split("::")[1], "GN" if "GN::" in fn.psig else "SWE")

            def vol():
                r = Run(P, fn, ["stepper", "elt"], ctx=ctx)
                stp, a = r.args
                s, qg = basics(a, stp)
                inn = a.data.internal
                wet = a.data.wet_dry_state.wet.p
                b, sp = inn.aux_at_gp(0, G).p, inn.aux_at_gp(2, G).p
                h = pl(qg[0], b)
                fx, fy = flux(gsym, qg[0], qg[1], qg[2], b, h)
                if "RKDG" in fn.name:
                    fx = [tm(sp, x) for x in fx]
                for i in range(3):
                    want = S(0, NGP, lambda g: pl(tm(at(fx[i], g), a.int_dphi_fact[0](g, D)), tm(at(fy[i], g), a.int_dphi_fact[1](g, D))))
                    got = r[a.data.state[s].rhs(i, D)]
                    ctx.eq("volume", "%s %s wet" % (tag, VARS[i]), t.subst(got, {wet: TRUE}), want, W, "volume residual of " + VARS[i])
                    ctx.eq("volume", "%s %s dry" % (tag, VARS[i]), t.subst(got, {wet: FALSE}), ZERO, W, "volume residual of %s in a dry element" % VARS[i])
                    ctx.eq("depth", "%s %s expanded" % (tag, VARS[i]), t.subst(r[inn.q_at_gp(i, G)], {wet: TRUE}), qg[i], W, "expanded " + VARS[i])
                ctx.eq("depth", "%s depth" % tag, t.subst(r[inn.aux_at_gp(1, G)], {wet: TRUE}), h, W, "depth")
                ctx.eq("depth", "%s bathymetry kept" % tag, r[inn.aux_at_gp(0, G)], b, W, "bathymetry")
            ctx.guard("volume", tag, W, vol, 120)

        for fn in P.find("SWE::RKDG::Problem::source_kernel") + P.find("SWE::EHDG::Problem::local_source_kernel"):
            W = fn.where()
            tag = "%s %s" % (tu, fn.name.split("::")[1])

            def src():
                seen = []

                def hook(I, e, fr, st, name, f, obj, this, argn):
                    if name == "SWE::get_source":
                        seen.append(I.ev(argn[0], fr, st))
                        write(st, fld(fld(fld(mk("param", 1, "elt"), "data"), "internal"), "source_at_gp"), fld(mk("param", 9, "SRC"), "source_at_gp"))
                        return ZERO
                    return NotImplemented
                r = Run(P, fn, ["stepper", "elt"], ctx=ctx, hook=hook)
                stp, a = r.args
                wet = a.data.wet_dry_state.wet.p
                for i in range(3):
                    rhs = a.data.state[stp.stage].rhs(i, D)
                    want = phi(wet, pl(rhs, S(0, NGP, lambda g: tm(X(fld(mk("param", 9, "SRC"), "source_at_gp"))(i, g), a.int_phi_fact(g, D)))), rhs)
                    ctx.eq("weak", "%s %s" % (tag, VARS[i]), r[rhs], want, W, "residual of %s after the source kernel" % VARS[i])
                tt = pl(stp.t, tm(stp.dt, stp.drk[stp.stage]))
                if not seen:
                    ctx.ob("weak", tag + " time", False, W, "the source kernel never evaluates the source")
                for v in seen:
                    if isinstance(v, Loc):
                        v = read(r.st, v.path)
                    ctx.eq("weak", tag + " time", v, tt, W, "time handed to the source")
            ctx.guard("weak", tag, W, src)

        for fn in P.find("SWE::get_source"):
            W = fn.where()
            tag = "%s %s" % (tu, "EHDG" if "EHDG" in fn.psig else "RKDG/IHDG")
            ff, bf, cf = (mk("glob", "SWE::SourceTerms::" + k) for k in ("function_source", "bottom_friction", "Cf"))

            def gs():
                F_ = mk("param", 9, "FS")

                def hook(I, e, fr, st, name, f, obj, this, argn):
                    if name.endswith("Element::ComputeFgp"):
                        return amat(F_, num(3), NGP)
                    return NotImplemented
                st = State()
                r = Run(P, fn, ["t", "elt"], ctx=ctx, hook=hook, state=st)
                a = r.args[1]
                inn = a.data.internal
                man = a.data.source.manning.p
                q_ = [inn.q_at_gp(i, G).p for i in range(3)]
                h = inn.aux_at_gp(1, G).p
                base = [ZERO] + [tm(gsym, inn.db_at_gp(k, G), q_[0]) for k in (0, 1)]
                for i in range(3):
                    got = r[inn.source_at_gp(i, G)]
                    ctx.eq("slope", "%s %s" % (tag, VARS[i]), t.subst(got, {ff: FALSE, bf: FALSE}), base[i], W, "source of " + VARS[i])
                    ctx.eq("slope", "%s %s with function" % (tag, VARS[i]), t.subst(got, {ff: TRUE, bf: FALSE}), pl(base[i], X(F_)(i, G)), W, "source of " + VARS[i])
                    u, v = dv(q_[1], h), dv(q_[2], h)
                    sp_ = sqrt(pl(sq(u), sq(v)))
                    for m, c in ((FALSE, cf), (TRUE, t.app("max", dv(a.data.source.g_manning_n_sq, power(h, t.Fraction(1, 3))), cf))):
                        for fsv in (FALSE, TRUE):
                            want = base[i] if i == 0 else mi(base[i], tm(c, sp_, dv(q_[i], h)))
                            if fsv is TRUE:
                                want = pl(want, X(F_)(i, G))
                            ctx.eq("friction", "%s %s manning=%s function=%s" % (tag, VARS[i], m is TRUE, fsv is TRUE), t.subst(got, {ff: fsv, bf: TRUE, man: m}), want, W, "source of " + VARS[i])
            ctx.guard("slope", tag, W, gs, 120)
