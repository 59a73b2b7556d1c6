"""P04 upwind fluxes: consistent, conservative, with the fastest-wave dissipation"""
from .. import terms as t
from ..spec import *
from .p03 import flux, gravity, VARS

HALF = num(t.Fraction(1, 2))


def llf_spec(gr, qi, qe, b, sp, nx, ny):
    def one(q_):
        h = pl(q_[0], b)
        fx, fy = flux(gr, q_[0], q_[1], q_[2], b, h)
        f = [pl(tm(sp, fx[i], nx), tm(fy[i], ny)) for i in range(3)]
        un = pl(dv(tm(q_[1], nx), h), dv(tm(q_[2], ny), h))
        c = sqrt(tm(gr, h, pl(sq(tm(nx, sp)), sq(ny))))
        return f, pl(absf(un), c)
    fi, li = one(qi)
    fe, le = one(qe)
    lam = t.app("max", li, le)
    return [tm(HALF, pl(fi[i], fe[i], tm(lam, mi(qi[i], qe[i])))) for i in range(3)], fi


def run(ctx):
    ctx.rule("llf", "the local Lax-Friedrichs flux is the mean normal flux of the two states plus half the larger wave speed of the two times their jump", 3)
    ctx.rule("consistent", "for equal states the numerical flux is the physical normal flux", 3)
    ctx.rule("conservative", "exchanging the two states and reversing the normal negates the flux", 3)
    ctx.rule("tau", "the hybridized penalty is the fastest wave speed of the trace, times the identity", 18)
    ctx.rule("dtau", "the coded penalty derivatives are the exact derivatives of the coded penalty", 27)
    P = ctx.prog("serial")
    gsym = gravity(P)
    for fn in P.find("SWE::RKDG::LLF_flux"):
        W = fn.where()
        r = ctx.guard("llf", "LLF_flux", W, lambda: Run(P, fn, ["gr", "|qi", "|qe", "|aux", "|n", "|f"], ctx=ctx))
        if r is None:
            continue
        gr, qi, qe, aux, n, f = r.args
        a = [qi[i].p for i in range(3)]
        e = [qe[i].p for i in range(3)]
        b, sp, nx, ny = aux[0].p, aux[2].p, n[0].p, n[1].p
        want, fi = llf_spec(gr.p, a, e, b, sp, nx, ny)
        swap = dict(zip(a, e))
        swap.update(dict(zip(e, a)))
        swap.update({nx: t.neg(nx), ny: t.neg(ny)})
        for i in range(3):
            def one():
                got = r[f[i]]
                ctx.eq("llf", VARS[i], got, want[i], W, "numerical flux of " + VARS[i])
                ctx.eq("consistent", VARS[i], t.subst(got, dict(zip(e, a))), fi[i], W, "numerical flux of equal states")
                ctx.eq("conservative", VARS[i], t.subst(got, swap), t.neg(got), W, "numerical flux seen from the other side")
            ctx.guard("llf", VARS[i], W, one)
    for fn in P.find("SWE::get_tau_LF"):
        W = fn.where()
        if len(fn.params) == 4:
            r = ctx.guard("tau", "get_tau_LF", W, lambda: Run(P, fn, ["q", "aux", "n", "tau"], ctx=ctx))
            if r is None:
                continue
            q_, aux, n, tau = r.args
            c = sqrt(tm(gsym, aux(1, G)))
            un = dv(pl(tm(q_(1, G), n(0, G)), tm(q_(2, G), n(1, G))), aux(1, G))
            T_ = lambda i, j: r[tau[G](i, j)]
        else:
            r = ctx.guard("tau", "get_tau_LF", W, lambda: Run(P, fn, ["gr", "|q", "|aux", "|n", "tau"], ctx=ctx))
            if r is None:
                continue
            gr, q_, aux, n, tau = r.args
            c = sqrt(tm(gr, aux[1]))
            un = dv(pl(tm(q_[1], n[0]), tm(q_[2], n[1])), aux[1])
            T_ = lambda i, j: r[tau(i, j)]
        for i in range(3):
            for j in range(3):
                I = "tau%d(%d,%d)" % (len(fn.params), i, j)
                ctx.guard("tau", I, W, lambda: ctx.eq("tau", I, T_(i, j), pl(c, absf(un)) if i == j else ZERO, W, "penalty"))
    for k, v in enumerate(VARS):
        for fn in P.find("SWE::get_dtau_d%s_LF" % v):
            W = fn.where()
            r = ctx.guard("dtau", v, W, lambda: Run(P, fn, ["q", "aux", "n", "tau"], ctx=ctx))
            if r is None:
                continue
            q_, aux, n, tau = r.args
            dep = {aux(1, G).p: pl(q_(0, G), aux(0, G))}
            c = sqrt(tm(gsym, aux(1, G)))
            un = dv(pl(tm(q_(1, G), n(0, G)), tm(q_(2, G), n(1, G))), aux(1, G))
            want = t.diff(t.subst(pl(c, absf(un)), dep), q_(k, G).p)
            for i in range(3):
                for j in range(3):
                    I = "dtau/d%s(%d,%d)" % (v, i, j)
                    ctx.guard("dtau", I, W, lambda: ctx.eq("dtau", I, t.subst(r[tau[G](i, j)], dep), want if i == j else ZERO, W, I))
