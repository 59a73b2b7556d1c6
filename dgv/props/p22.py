"""P22: the linear system of every iteration of the implicit scheme is the exact derivative of the
residual whose zero is the next time level."""
import re

from .. import terms as t
from ..spec import *
from ..interp import TRUE, FALSE
from .p03 import flux, gravity, VARS
from .p05 import hdg_flux
from ..evalt import Ev

NB, NE, NG = 2, 2, 2      # basis functions, trace functions, quadrature points
R = range


def last(n):
    return n.split("::")[-1]


def upath(p, sd):
    """the expansion at the quadrature points of the coefficients at p"""
    return fld(p, "#expanded" + sd)


class Scheme(object):
    """integration and expansion of an element's and a trace's functions, as decided in the element tables"""

    def __init__(self):
        self.used = set()

    def fn(self, kind, sd, i, g):
        """value of a basis function at a point, the points counted as seen from that side"""
        if kind == "Lambda":
            g = NG - 1 - g if sd == "EX" else g
            return mk("elem2", mk("param", 7, "LAMBDA"), num(i), num(g))
        return mk("elem2", mk("param", 7, kind + sd), num(i), num(g))

    def w(self, sd, g):
        return mk("elem", mk("param", 7, "W" + (sd if sd == "CELL" else "EDGE")), num(NG - 1 - g if sd == "EX" else g))

    def __call__(self, I, e, fr, s, name, f, obj, this, argn):
        n = last(name)
        m = re.match(r"(Integration|ComputeUgp)((?:DPhi|Phi|Lambda)*)(IN|EX)?$", n)
        if not m or "Geometry::" not in name:
            return NotImplemented
        what, toks, sd = m.groups()
        cls = name.split("::")[-2]
        if sd is None:
            sd = "CELL" if cls == "Element" else "IN"
        arr = I.rv(I.ev(argn[-1], fr, s), s)
        if isinstance(arr, Mat):
            arr = arr if arr.rows is not None else reify(arr)
        if what == "ComputeUgp":
            self.used.add(n)
            a, b = mk("q", "ua"), mk("q", "ub")
            v = arr.f(a, b) if isinstance(arr, Mat) else read(s, at2(arr.path if isinstance(arr, Loc) else arr, a, b))
            if not (isinstance(v, t.T) and v.op == "elem2" and v.args[1] is a and v.args[2] is b):
                raise Undecided("expansion of %s" % v)
            kind = "Lambda" if cls.startswith("Edge") else sd
            return amat(upath(v.args[0], kind), num(3), num(NG))
        toks = re.findall("DPhi|Phi|Lambda", toks)
        ar = [I.tm(I.ev(x, fr, s), s) for x in argn[:-1]]
        fac = []
        for k in toks:
            if k == "DPhi":
                d = ar.pop(0)
                k = "DPhi%d" % int(t.numval(d))
            if not ar:
                return NotImplemented
            i = ar.pop(0)
            if not t.is_num(i):
                raise Undecided("function index %s" % i)
            fac.append((k, int(t.numval(i))))
        if ar or not fac:
            return NotImplemented
        self.used.add(n)
        snap = s.copy()
        el = (lambda c, g: arr.f(c, num(g))) if isinstance(arr, Mat) else (lambda c, g: read(snap, at2(arr.path if isinstance(arr, Loc) else arr, c, num(g))))
        return Mat(None, t.ONE, lambda c, z: t.add(*[t.mul(self.w(sd, g), el(c, g), *[self.fn(k, sd, i, g) for k, i in fac]) for g in R(NG)]))


def sized(st, p, names=("q_at_gp", "aux_at_gp", "F_hat_at_gp", "Fx_at_gp", "Fy_at_gp", "source_at_gp", "dsource_dq_at_gp", "q_prev_at_gp", "del_q_DT_at_gp",
                         "kronecker_DT_at_gp", "dFx_dq_at_gp", "dFy_dq_at_gp", "db_at_gp", "dF_hat_dq_at_gp", "dF_hat_dq_hat_at_gp", "q_hat_at_gp", "aux_hat_at_gp",
                         "delta_global_kernel_at_gp", "delta_hat_global_kernel_at_gp", "rhs_global_kernel_at_gp", "tau", "dtau_dze", "dtau_dqx", "dtau_dqy")):
    for n in names:
        write(st, fld(fld(p, n), "#cols"), num(NG))
        write(st, fld(fld(p, n), "#size"), num(NG))


def data(st, d):
    write(st, d.ndof.p, num(NB))
    write(st, d.ngp_internal.p, num(NG))
    sized(st, d.internal.p)


class Blocks(object):
    """entries of a vector or matrix of blocks of three before and after"""

    def __init__(self, r, st0):
        self.r, self.st0 = r, st0

    def vec(self, p, i, c, old=False):
        v = read(self.st0 if old else self.r.st, at1(term(p), num(3 * i + c)))
        return dims(v)

    def mat(self, p, i, c, j, d, old=False):
        v = read(self.st0 if old else self.r.st, at2(term(p), num(3 * i + c), num(3 * j + d)))
        return dims(v)


def deriv(x, at, c, fs):
    """derivative of x in the coefficient of component c whose function has the values fs at the points"""
    out = []
    for g in R(NG):
        d = t.diff(x, at(c, g))
        if d is None:
            raise Undecided("derivative")
        out.append(t.mul(d, fs[g]))
    return t.add(*out)


def run(ctx):
    ctx.rule("cell", "the element's part of the system is the derivative of its part of the residual in the element's coefficients", 40)
    ctx.rule("edge", "the edges' part of the element system is the derivative of the edge fluxes in the element's and in the trace's coefficients", 100)
    ctx.rule("trace", "the trace equations' part is the derivative of the flux balance in the element's and in the trace's coefficients", 80)
    ctx.rule("weak", "the residual is that of the weak form: change over the step, volume flux, sources and edge fluxes, each weighted for the order of the scheme", 30)
    ctx.rule("past", "for the second-order scheme the same terms of the known time level enter with the complementary weight", 12)
    ctx.rule("rest", "with the water at rest every entry of the system is a number", 30)
    ctx.rule("guess", "an iteration starts from the known time level", 2)
    for tu in ("serial", "ompi"):
        P = ctx.prog(tu)
        gsym = gravity(P)
        full = tu == "serial" or ctx.tier == "thorough"
        if full:
            cell(ctx, P, gsym, tu)
        for what in ("interface", "boundary", "distributed") if full else ("distributed",):
            edge(ctx, P, gsym, tu, what)


def finite(ctx, inst, x, rest, W, what):
    v = [Ev(s, fixed=rest).num(x, {}) for s in (1, 2)]
    ctx.ob("rest", inst, all(y == y and abs(y) < 1e300 for y in v), W, "%s is not a number when the water is at rest" % what)


def fns(P, name):
    out = []
    for f in P.find("SWE::IHDG::Problem::" + name):
        out.append(f)
    return sorted(out, key=lambda f: f.psig)


# ------------------------------------------------------------------ element
def cell(ctx, P, gsym, tu):
    pre = fns(P, "init_volume_kernel"), fns(P, "init_source_kernel")
    vol, src = fns(P, "local_volume_kernel"), fns(P, "local_source_kernel")
    if not (pre[0] and pre[1] and vol and src):
        ctx.ob("cell", tu, False, ("", 0), "a kernel of the implicit scheme is missing")
        return
    W = vol[0].where()

    def go():
        sc = Scheme()
        ff, bf, cf = (mk("glob", "SWE::SourceTerms::" + k) for k in ("function_source", "bottom_friction", "Cf"))
        FS = mk("param", 6, "FS")
        times = []

        def hook(I, e, fr, s, name, f, obj, this, argn):
            if last(name) == "ComputeFgp":
                return amat(FS, num(3), num(NG))
            if name == "SWE::get_source":
                v = I.ev(argn[0], fr, s)
                times.append(I.tm(v, s))
                return NotImplemented
            return sc(I, e, fr, s, name, f, obj, this, argn)
        st = State()
        a, sp = X(mk("param", 1, "elt")), X(mk("param", 0, "stepper"))
        data(st, a.data)
        write(st, sp.order.p, num(2))
        names = ["stepper", "elt"]
        kw = dict(ctx=ctx, hook=hook)
        stage, inn = sp.stage, a.data.internal
        prev, nxt = a.data.state[stage].q, a.data.state[pl(stage, 1)].q
        r0 = Run(P, pre[0][0], names, state=st, **kw)
        for c in R(3):
            ctx.eq("guess", "%s %s" % (tu, VARS[c]), r0[nxt(c, D)], prev(c, D), pre[0][0].where(), "first guess of " + VARS[c])
        after0 = r0.st.copy()
        r1 = Run(P, pre[1][0], names, state=r0.st, **kw)
        # the iterate is unknown when the iteration's kernels run
        st2 = r1.st.copy()
        write(st2, nxt.p, mk("param", 5, "QNEW"))
        un = upath(mk("param", 5, "QNEW"), "CELL")
        uo = upath(prev.p, "CELL")
        U = lambda c, g: at2(un, num(c), num(g))
        V = lambda c, g: at2(uo, num(c), num(g))
        sv = st2.copy()
        r2 = Run(P, vol[0], names, state=st2, **kw)
        mid = r2.st.copy()
        ntimes = len(times)
        r3 = Run(P, src[0], names, state=r2.st, **kw)
        man = a.data.source.manning.p
        th, dt = sp.theta.p, sp.dt.p
        one = mi(1, th)
        bath = lambda g: inn.aux_at_gp(0, g).p
        gpv = lambda u, g: [u(c, g) for c in R(3)]

        def wvol(u, c, i):
            acc = []
            for g in R(NG):
                z = gpv(u, g)
                fx, fy = flux(gsym, z[0], z[1], z[2], bath(g), pl(z[0], bath(g)))
                acc.append(tm(sc.w("CELL", g), pl(tm(sc.fn("DPhi0", "CELL", i, g), fx[c]), tm(sc.fn("DPhi1", "CELL", i, g), fy[c]))))
            return pl(*acc)

        def wsrc(u, c, i, fsrc, fric, manning):
            acc = []
            for g in R(NG):
                z = gpv(u, g)
                v = ZERO if c == 0 else tm(gsym, inn.db_at_gp(c - 1, g), z[0])
                if fsrc:
                    v = pl(v, X(FS)(c, g))
                if fric and c:
                    h = pl(z[0], bath(g))
                    C = t.app("max", dv(a.data.source.g_manning_n_sq, power(h, t.Fraction(1, 3))), cf) if manning else cf
                    v = mi(v, tm(C, sqrt(pl(sq(dv(z[1], h)), sq(dv(z[2], h)))), dv(z[c], h)))
                acc.append(tm(sc.w("CELL", g), sc.fn("Phi", "CELL", i, g), v))
            return pl(*acc)
        B2, B3 = Blocks(r2, sv), Blocks(r3, mid)
        fs_ = lambda j: [sc.fn("Phi", "CELL", j, g) for g in R(NG)]
        opts = [(fsrc, fric, manning) for fsrc in (False, True) for fric in (False, True) for manning in (False, True) if fric or not manning]

        def sub(x, o):
            return t.subst(x, {ff: TRUE if o[0] else FALSE, bf: TRUE if o[1] else FALSE, man: TRUE if o[2] else FALSE})
        for i in R(NB):
            for c in R(3):
                Iv = "%s function %d %s" % (tu, i, VARS[c])
                got = B2.vec(inn.rhs_local, i, c)
                past = dims(read(sv, at1(inn.rhs_prev.p, num(3 * i + c))))
                chg = pl(*[tm(sc.w("CELL", g), sc.fn("Phi", "CELL", i, g), dv(mi(U(c, g), V(c, g)), dt)) for g in R(NG)])
                ctx.eq("weak", Iv + " volume", got, pl(t.neg(chg), tm(one, wvol(U, c, i)), tm(th, past)), W, "volume residual of " + VARS[c])
                p0 = dims(read(after0, at1(inn.rhs_prev.p, num(3 * i + c))))
                ctx.eq("past", Iv + " volume", p0, wvol(V, c, i), pre[0][0].where(), "volume term of the known time level")
                sold, snew = B3.vec(inn.rhs_local, i, c, True), B3.vec(inn.rhs_local, i, c)
                for o in opts:
                    on = " function=%d friction=%d manning=%d" % o
                    ctx.eq("weak", Iv + " source" + on, sub(t.sub(snew, sold), o), tm(one, wsrc(U, c, i, *o)), src[0].where(), "source residual of " + VARS[c])
                    ctx.eq("past", Iv + " source" + on, sub(t.sub(past, p0), o), wsrc(V, c, i, *o), pre[1][0].where(), "source of the known time level")
                for j in R(NB):
                    for d in R(3):
                        In = "%s (%d %s, %d %s)" % (tu, i, VARS[c], j, VARS[d])
                        dv_ = t.neg(deriv(got, U, d, fs_(j)))
                        ctx.eq("cell", In + " volume", B2.mat(inn.delta_local, i, c, j, d), dv_, W, "derivative of the volume residual")
                        g0, g1 = B3.mat(inn.delta_local, i, c, j, d, True), B3.mat(inn.delta_local, i, c, j, d)
                        for o in opts:
                            rs = sub(t.sub(snew, sold), o)
                            finite(ctx, In + " source function=%d friction=%d manning=%d" % o, sub(t.sub(g1, g0), o), {U(x, g): 0.0 for x in (1, 2) for g in R(NG)}, src[0].where(), "derivative of the source residual")
                            ctx.eq("cell", In + " source function=%d friction=%d manning=%d" % o, sub(t.sub(g1, g0), o), t.neg(deriv(rs, U, d, fs_(j))), src[0].where(), "derivative of the source residual")
        for k, v in enumerate(times):
            ctx.eq("past" if k < ntimes else "weak", "%s source time" % tu, dims(v), sp.t if k < ntimes else pl(sp.t, sp.dt), (src if k >= ntimes else pre[1])[0].where(), "time of the source")
        if not times or len(times) == ntimes:
            ctx.ob("weak", tu + " source", False, src[0].where(), "the source is never evaluated")
    ctx.guard("cell", tu, W, go, 300)


# ------------------------------------------------------------------ edges
def edge(ctx, P, gsym, tu, what):
    nm = {"interface": ("interface_kernel", "edge_interface_kernel"), "boundary": ("boundary_kernel", "edge_boundary_kernel"),
          "distributed": ("distributed_boundary_kernel", "edge_distributed_kernel")}[what]
    sets = {k: (fns(P, "%s_%s" % (k, nm[0])), fns(P, "%s_%s" % (k, nm[1]))) for k in ("init", "local")}
    glob = fns(P, "global_" + nm[1])
    if not glob:
        if tu == "serial" and what == "distributed":
            return
        ctx.ob("edge", "%s %s" % (tu, what), False, ("", 0), "a kernel of the implicit scheme is missing")
        return
    done = set()
    for f in glob:
        # one condition class is as good as another here: what differs between them is decided with the boundary conditions
        m = re.search(r"(ISP|DBC|BC)::(\w+)", f.psig)
        key = m.group(2) if m else f.psig[-40:]
        if what == "interface" and key == "Levee" or key == "DistributedLevee":
            continue
        if key in done:
            continue
        done.add(key)
        same = lambda fs: next((x for x in fs if m and m.group(0) in x.psig), fs[0] if fs else None)
        W = same(sets["local"][1]).where()
        tag = "%s %s %s" % (tu, what, key)
        ctx.guard("edge", tag, W, lambda: one_edge(ctx, P, gsym, tag, what, {k: tuple(same(x) for x in v) for k, v in sets.items()}, f), 300)


def one_edge(ctx, P, gsym, tag, what, ker, glob):
    sc = Scheme()
    K = {"delta": mk("param", 6, "KDELTA"), "hat": mk("param", 6, "KHAT"), "rhs": mk("param", 6, "KRHS")}
    st = State()
    e, sp = X(mk("param", 1, "edge")), X(mk("param", 0, "stepper"))
    obj = e.interface if what == "interface" else e.boundary
    if what == "interface":
        sides = [("IN", obj.data_in, obj.data_in.boundary[obj.bound_id_in]), ("EX", obj.data_ex, obj.data_ex.boundary[obj.bound_id_ex])]
    else:
        sides = [("IN", obj.data, obj.data.boundary[obj.bound_id])]
    ei = e.edge_data.edge_internal
    write(st, e.edge_data.ndof.p, num(NE))
    write(st, e.edge_data.ngp.p, num(NG))
    write(st, sp.order.p, num(2))
    sized(st, ei.p)
    for sd, d, b in sides:
        data(st, d)
        sized(st, b.p)
        bid = obj.bound_id_in if sd == "IN" and what == "interface" else obj.bound_id_ex if what == "interface" else obj.bound_id
        write(st, d.ngp_boundary[bid].p, num(NG))
    normal = obj.surface_normal_in if what == "interface" else obj.surface_normal
    write(st, fld(normal.p, "#cols"), num(NG))
    bc = what == "boundary"

    def hook(I, e_, fr, s, name, f, o, this, argn):
        if bc and last(name) == "ComputeGlobalKernels":
            b = sides[0][2]
            for p, v in ((b.delta_global_kernel_at_gp, "delta"), (ei.delta_hat_global_kernel_at_gp, "hat"), (ei.rhs_global_kernel_at_gp, "rhs")):
                write(s, p.p, K[v])
            return ZERO
        return sc(I, e_, fr, s, name, f, o, this, argn)
    kw = dict(ctx=ctx, hook=hook)

    def both(fs, s):
        r = Run(P, fs[0], ["stepper"], args=[None, Loc(obj.p, fs[0].tu.types[fs[0].params[1][2]])], state=s, **kw)
        return Run(P, fs[1], ["stepper", "edge"], state=r.st, **kw)
    th, stage = sp.theta.p, sp.stage
    one = mi(1, th)
    ri = both(ker["init"], st.copy())
    st0 = st.copy()
    rl = both(ker["local"], st.copy())
    mid = rl.st.copy()
    rg = Run(P, glob, ["stepper", "edge"], state=rl.st, **kw)
    uh = upath(e.edge_data.edge_state.q_hat.p, "Lambda")
    H = lambda c, g: at2(uh, num(c), num(g))
    lam = lambda j: [sc.fn("Lambda", "IN", j, g) for g in R(NG)]

    def st_at(sd, d, new, c, g):
        return at2(upath(d.state[pl(stage, 1) if new else stage].q.p, sd), num(c), num(g))

    rest = {st_at(sd, d, True, x, g): 0.0 for sd, d, b in sides for x in (1, 2) for g in R(NG)}
    rest.update({H(x, g): 0.0 for x in (1, 2) for g in R(NG)})
    Bl, Bi, Bg = Blocks(rl, st0), Blocks(ri, st0), Blocks(rg, mid)
    W = ker["local"][1].where()

    def wflux(sd, d, new, c, i):
        acc = []
        for g in R(NG):
            k = g if sd == "IN" else NG - 1 - g      # the point as seen from the inner side
            qh = [H(x, k) for x in R(3)]
            bath = ei.aux_hat_at_gp(0, k).p
            qs = [st_at(sd, d, new, x, g) for x in R(3)]
            s_ = 1 if sd == "IN" else -1
            nx, ny = tm(s_, normal(0, k)), tm(s_, normal(1, k))
            f = hdg_flux(gsym, qs, qh, bath, pl(qh[0], bath), nx, ny)
            acc.append(tm(sc.w(sd, g), sc.fn("Phi", sd, i, g), f[c]))
        return pl(*acc)
    for sd, d, b in sides:
        inn = d.internal
        U = lambda c, g: st_at(sd, d, True, c, g)
        ph = lambda j: [sc.fn("Phi", sd, j, g) for g in R(NG)]
        for i in R(NB):
            for c in R(3):
                I_ = "%s %s function %d %s" % (tag, sd, i, VARS[c])
                res = t.sub(Bl.vec(inn.rhs_local, i, c), Bl.vec(inn.rhs_local, i, c, True))
                ctx.eq("weak", I_, res, t.neg(tm(one, wflux(sd, d, True, c, i))), W, "edge flux in the element's residual")
                pst = t.sub(Bi.vec(inn.rhs_prev, i, c), Bi.vec(inn.rhs_prev, i, c, True))
                ctx.eq("past", I_, pst, t.neg(wflux(sd, d, False, c, i)), ker["init"][1].where(), "edge flux of the known time level")
                for k in R(3):
                    for j in R(NB):
                        In = "%s %s (%d %s, %d %s)" % (tag, sd, i, VARS[c], j, VARS[k])
                        ctx.eq("edge", In, t.sub(Bl.mat(inn.delta_local, i, c, j, k), Bl.mat(inn.delta_local, i, c, j, k, True)), t.neg(deriv(res, U, k, ph(j))), W, "derivative of the edge flux in the element's state")
                    for j in R(NE):
                        In = "%s %s (%d %s, trace %d %s)" % (tag, sd, i, VARS[c], j, VARS[k])
                        finite(ctx, In, Bl.mat(b.delta_hat_local, i, c, j, k), rest, W, "derivative of the edge flux")
                        ctx.eq("edge", In, Bl.mat(b.delta_hat_local, i, c, j, k), t.neg(deriv(res, H, k, lam(j))), W, "derivative of the edge flux in the trace")
    Wg = glob.where()
    for i in R(NE):
        for c in R(3):
            bal = Bg.vec(ei.rhs_global, i, c)
            if bc:
                ctx.eq("weak", "%s trace function %d %s" % (tag, i, VARS[c]), bal, t.neg(pl(*[tm(sc.w("IN", g), sc.fn("Lambda", "IN", i, g), X(K["rhs"])(c, g)) for g in R(NG)])), Wg, "trace residual")
            else:
                tot = []
                for sd, d, b in sides:
                    for g in R(NG):
                        k = g if sd == "IN" else NG - 1 - g
                        qh = [H(x, k) for x in R(3)]
                        bath = ei.aux_hat_at_gp(0, k).p
                        s_ = 1 if sd == "IN" else -1
                        f = hdg_flux(gsym, [st_at(sd, d, True, x, g) for x in R(3)], qh, bath, pl(qh[0], bath), tm(s_, normal(0, k)), tm(s_, normal(1, k)))
                        tot.append(tm(sc.w(sd, g), sc.fn("Lambda", sd, i, g), f[c]))
                ctx.eq("weak", "%s trace function %d %s" % (tag, i, VARS[c]), bal, t.neg(pl(*tot)), Wg, "balance of the fluxes of both sides")
            for k in R(3):
                for sd, d, b in sides:
                    for j in R(NB):
                        In = "%s trace %d %s, %s %d %s" % (tag, i, VARS[c], sd, j, VARS[k])
                        if bc:
                            want = pl(*[tm(sc.w("IN", g), sc.fn("Lambda", "IN", i, g), sc.fn("Phi", "IN", j, g), X(K["delta"])(3 * c + k, g)) for g in R(NG)])
                        else:
                            want = t.neg(deriv(bal, lambda x, g: st_at(sd, d, True, x, g), k, [sc.fn("Phi", sd, j, g) for g in R(NG)]))
                        ctx.eq("trace", In, Bg.mat(b.delta_global, i, c, j, k), want, Wg, "derivative of the trace equation in the element's state")
                for j in R(NE):
                    In = "%s trace %d %s, %d %s" % (tag, i, VARS[c], j, VARS[k])
                    if bc:
                        want = pl(*[tm(sc.w("IN", g), sc.fn("Lambda", "IN", i, g), sc.fn("Lambda", "IN", j, g), X(K["hat"])(3 * c + k, g)) for g in R(NG)])
                    else:
                        want = t.neg(deriv(bal, H, k, lam(j)))
                    ctx.eq("trace", In, Bg.mat(ei.delta_hat_global, i, c, j, k), want, Wg, "derivative of the trace equation in the trace")
