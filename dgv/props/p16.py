"""P16: slope limiting keeps the mean of every cell and limits as prescribed."""
from .. import terms as t, sched
from ..effects import last
from ..events import occs
from ..spec import *
from ..interp import TRUE, FALSE, Mat, Undecided
from ..evalt import Case, same
from .p09 import names, who, scope
from .p08 import Side, write_message, read_message, U, unstage
from .p11 import cond
from .p15 import linear_hook, mat_of, writes, reads, data

F = t.Fraction
# an invertible pair standing for the eigenvectors (whose inverse property is decided with the flux)
RM = [[F(1), F(2), F(0)], [F(0), F(1), F(1)], [F(1), F(0), F(1)]]
RI = [[F(1, 3), F(-2, 3), F(2, 3)], [F(1, 3), F(1, 3), F(-1, 3)], [F(-1, 3), F(2, 3), F(1, 3)]]


def run(ctx):
    ctx.rule("mean", "the limiter keeps the mean of every conserved quantity in every cell", 20)
    ctx.rule("limit", "the limited corner values are those of the characteristic TVB-minmod reconstruction with rebalanced deviations", 60)
    ctx.rule("smooth", "a cell whose deviations are all within the TVB bound keeps its coefficients", 2)
    ctx.rule("shore", "dry cells and cells with a dry neighbour are left alone", 6)
    ctx.rule("frame", "the characteristic frame is that of the cell mean and the direction to the edge midpoint", 7)
    ctx.rule("neighbours", "each side of an edge sees the other cell's mean and wetness; a cell at the domain boundary sees its own", 24)
    ctx.rule("geometry", "weights, distances and directions describe the edge midpoint by the neighbouring centres", 320)
    ctx.rule("trouble", "the smoothness indicator accumulates the depth jump over inflow edges, alike on both sides and across ranks", 90)
    ctx.rule("placed", "with the option on, every cell is limited in every stage after the last update of its state and the wetting and drying", 4)
    P = ctx.prog("ompi", "stepper")
    prep = {f.psig: f for f in P.find_re(r"::slope_limiting_prepare_element_kernel$")}
    for fn in P.find_re(r"::slope_limiting_kernel$"):
        if ctx.tier == "quick" and ("ESSPRK" not in fn.psig or "SWE::Data" not in fn.psig):
            continue
        w = "%s %s" % (fn.psig.split("&")[0].replace("const ", ""), data(fn))
        ctx.guard("limit", w, fn.where(), lambda: limiter(ctx, P, prep[fn.psig], fn, w), 400)
    for fn in P.find_re(r"::slope_limiting_prepare_interface_kernel$"):
        ctx.guard("neighbours", fn.psig, fn.where(), lambda: neighbours(ctx, P, fn), 60)
    for fn in P.find_re(r"::slope_limiting_prepare_boundary_kernel$"):
        ctx.guard("neighbours", fn.psig, fn.where(), lambda: own(ctx, P, fn), 60)
    for tu in ("serial", "ompi"):
        Q = ctx.prog(tu, "stepper", "shape")
        S_ = sched.Sched(ctx, Q)
        for fn in Q.find_re(r"::Problem::preprocessor_%s$" % tu):
            if "SWE::" in fn.name:
                ctx.guard("geometry", tu + " " + who(fn), fn.where(), lambda: geometry(ctx, Q, S_, tu, fn), 200)
        for fn in Q.find_re(r"SWE::\w+::Problem::stage_%s$" % tu):
            ctx.guard("trouble", tu + " " + who(fn), fn.where(), lambda: trouble(ctx, Q, S_, tu, fn), 300)
            ctx.guard("placed", tu + " " + who(fn), fn.where(), lambda: placed(ctx, Q, S_, tu, fn), 200)


# ------------------------------------------------------------------ one cell
def cell(elt, stg, wet=True, neigh=(True, True, True)):
    st = State()
    sl = elt.data.slope_limit_state
    write(st, fld(elt.data.p, "nvrtx"), num(3))
    write(st, fld(elt.data.p, "nbound"), num(3))
    write(st, elt.data.wet_dry_state.wet.p, TRUE if wet else FALSE)
    write(st, fld(sl.wet_neigh.p, "#size"), num(3))
    for k in range(3):
        write(st, sl.wet_neigh[k].p, TRUE if neigh[k] else FALSE)
        for j in range(3):
            write(st, sl.T(k, j).p, num(-1 if k == j else 1))
            write(st, X(fld(elt.p, "master")).chi_midpts(j, k).p, num(0 if k == j else F(1, 2)))
        write(st, X(fld(elt.p, "master")).chi_baryctr[k].p, num(F(1, 3)))
    return st


def pick(i, xs):
    if t.is_num(i):
        return xs[int(t.numval(i))]
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = t.phi(t.eq(i, num(k)), xs[k], r)
    return r


def rowlist(m):
    return (lambda i, j: pick(j, list(m.args[0]))) if isinstance(m, t.T) and m.op == "list" and len(m.args[0]) == 3 else None


class Frames(object):
    def __init__(self):
        self.seen = []

    def hook(self, I, e, fr, s, name, f, obj, this, argn):
        n = last(name)
        if name in ("SWE::R", "SWE::invR"):
            a = [I.tm(I.rv(I.ev(x, fr, s), s), s) for x in argn]
            self.seen.append((n, a))
            M = RM if n == "R" else RI

            def ent(i, j):
                return pick(i, [pick(j, [num(x) for x in row]) for row in M])
            return Mat(num(3), num(3), ent)
        if n == "ComputeLinearUbaryctr":
            m = I.rv(I.ev(argn[-1], fr, s), s)
            el = rowlist(m) or mat_of(m, s, I)
            third = num(F(1, 3))
            return Mat(num(3), ONE, lambda i, j: tm(third, pl(*[el(i, num(k)) for k in range(3)])))
        if n == "ComputeLinearUmidpts":
            m = I.rv(I.ev(argn[-1], fr, s), s)
            el = rowlist(m) or mat_of(m, s, I)
            half = num(F(1, 2))
            return Mat(num(3), num(3), lambda i, j: tm(half, pl(*[el(i, num(k)) for k in range(3) if num(k) is not j])))
        if n == "ProjectLinearToBasis":
            m = I.rv(I.ev(argn[-1], fr, s), s)
            m = reify(m) if isinstance(m, Mat) else m
            el = None
            if isinstance(m, Mat) and m.rows is ONE:
                el = m.f
            elif isinstance(m, t.T) and m.op == "list" and len(m.args[0]) == 3:
                el = lambda i, j: pick(j, list(m.args[0]))
            if el is not None:
                return Mat(ONE, mk("q", "NDOF"), lambda i, j: t.phi(t.lt(j, num(3)), el(ZERO, j), ZERO))
        return linear_hook(I, e, fr, s, name, f, obj, this, argn)


def limiter(ctx, P, prep, fn, w):
    W = fn.where()
    e = X(mk("param", 1, "elt"))
    stg = X(mk("param", 0, "stepper")).stage.p
    q = e.data.state[stg].q
    sl = e.data.slope_limit_state
    Mb, nu = mk("glob", "SWE::PostProcessing::M"), mk("glob", "SWE::PostProcessing::nu")
    for wet, ng in ((False, (True,) * 3), (True, (False, True, True)), (True, (True, False, True)), (True, (True, True, False))):
        cs = Case(5, {})
        st = cell(e, stg, wet, ng)
        r0 = Run(P, prep, ["stepper", "elt"], state=st, ctx=ctx, hook=Frames().hook, decide=cs.decide)
        r = Run(P, fn, ["stepper", "elt"], state=r0.st, ctx=ctx, hook=Frames().hook, decide=cs.decide)
        for v in range(3):
            ok = all(r[q(v, k)] is q(v, k).p for k in (0, 1, 2, 5))
            ctx.ob("shore", "%s %s neighbours %s component %d" % (w, "wet" if wet else "dry", "".join("wd"[not x] for x in ng), v), ok, W,
                   "" if ok else "the cell is changed")
    n = 14 if ctx.tier == "quick" else 80
    for seed in range(n):
        import random
        rnd = random.Random(seed)
        fixed = {}
        M_ = (0.0, 0.35, 0.02, 50.0)[seed % 4]
        fixed[Mb] = M_
        fixed[nu] = 1.5
        for v in range(3):
            for k in range(3):
                fixed[q(v, k).p] = rnd.uniform(-1, 1)
                fixed[sl.q_at_baryctr_neigh[k][v].p] = rnd.uniform(-1.5, 1.5)
        for k in range(3):
            fixed[sl.r_sq[k].p] = rnd.uniform(0.5, 1.5)
            for j in range(2):
                fixed[sl.alpha[k][j].p] = rnd.uniform(0.1, 0.9)
        fixed[sl.bath_at_baryctr.p] = 3.0
        cs = Case(seed, fixed)
        fr = Frames()
        st = cell(e, stg)
        r0 = Run(P, prep, ["stepper", "elt"], state=st, ctx=ctx, hook=fr.hook, decide=cs.decide)
        r = Run(P, fn, ["stepper", "elt"], state=r0.st, ctx=ctx, hook=fr.hook, decide=cs.decide)
        inst = "%s case %d" % (w, seed)
        want, smooth = expected(cs, q, sl, Mb, nu)
        for v in range(3):
            got = [cs.resolve(r[q(v, k)]) for k in range(3)]
            ctx.eq("mean", "%s component %d" % (inst, v), pl(*got), pl(*[q(v, k).p for k in range(3)]), W, "three times the mean")
            for k in range(3):
                ctx.eq("limit", "%s component %d corner %d" % (inst, v, k), got[k], want[v][k], W, "corner value")
        if smooth:
            ok = all(r[q(v, k)] is q(v, k).p for v in range(3) for k in range(6))
            ctx.ob("smooth", inst, ok, W, "" if ok else "the coefficients of a smooth cell are replaced")
        frame(ctx, inst, W, fr, q, sl)


def frame(ctx, inst, W, fr, q, sl):
    third = num(F(1, 3))
    qb = [tm(third, pl(*[q(v, k).p for k in range(3)])) for v in range(3)]
    h = pl(qb[0], sl.bath_at_baryctr.p)
    u, v = dv(qb[1], h), dv(qb[2], h)
    dirs = {"R": [], "invR": []}
    for n, a in fr.seen:
        for x, y, what in ((a[0], h, "depth"), (a[1], u, "velocity"), (a[2], v, "velocity")):
            if not same(x, y)[0]:
                ctx.ob("frame", inst, False, W, "the %s of the frame is %s" % (what, x))
                return
        dirs[n].append((str(a[3]), str(a[4])))
    want = [(str(sl.median[b][0].p), str(sl.median[b][1].p)) for b in range(3)]
    ok = all(sorted(set(d)) == sorted(want) for d in dirs.values())
    ctx.ob("frame", inst, ok, W, "" if ok else "directions of the frames are %s" % dirs)


def expected(cs, q, sl, Mb, nu):
    """Cockburn & Shu, with theta rebalancing"""
    third, half = num(F(1, 3)), num(F(1, 2))
    qv = [[q(v, k).p for k in range(3)] for v in range(3)]
    qb = [tm(third, pl(*qv[v])) for v in range(3)]
    smooth = True
    D = [[None] * 3 for _ in range(3)]
    ch = lambda x: [pl(*[tm(num(RI[i][j]), x[j]) for j in range(3)]) for i in range(3)]
    ap = lambda x: [pl(*[tm(num(RM[i][j]), x[j]) for j in range(3)]) for i in range(3)]
    for b in range(3):
        mid = [tm(half, pl(*[qv[v][k] for k in range(3) if k != b])) for v in range(3)]
        n1 = [sl.q_at_baryctr_neigh[b][v].p for v in range(3)]
        n2 = [sl.q_at_baryctr_neigh[(b + 1) % 3][v].p for v in range(3)]
        wt = ch([mi(mid[v], qb[v]) for v in range(3)])
        wd = ch([pl(tm(sl.alpha[b][0].p, mi(n1[v], qb[v])), tm(sl.alpha[b][1].p, mi(n2[v], qb[v]))) for v in range(3)])
        dc = []
        for v in range(3):
            a, d, bound = cs.num(wt[v]), cs.num(wd[v]), cs.num(tm(Mb, sl.r_sq[b].p))
            nn = cs.num(nu)
            if abs(a) <= bound:
                dc.append(wt[v])
                continue
            smooth = False
            if (a < 0) == (d < 0):
                dc.append(wt[v] if abs(a) <= abs(nn * d) else tm(nu, wd[v]))
            else:
                dc.append(ZERO)
        x = ap(dc)
        for v in range(3):
            D[v][b] = x[v]
    out = []
    for v in range(3):
        ds = [cs.num(x) for x in D[v]]
        fin = D[v]
        if abs(sum(ds)) > 1e-9:
            pos = pl(*([ZERO] + [x for x, y in zip(D[v], ds) if y > 0]))
            neg = t.neg(pl(*([ZERO] + [x for x, y in zip(D[v], ds) if y < 0])))
            p, m = sum(y for y in ds if y > 0), -sum(y for y in ds if y < 0)
            if p > m:
                fin = [tm(x, dv(neg, pos)) if y > 0 else x for x, y in zip(D[v], ds)]
            else:
                fin = [tm(x, dv(pos, neg)) if y < 0 else x for x, y in zip(D[v], ds)]
        out.append([pl(qb[v], *[fin[b] if b != k else t.neg(fin[b]) for b in range(3)]) for k in range(3)])
    return out, smooth


# ------------------------------------------------------------------ neighbours
def neighbours(ctx, P, fn):
    W = fn.where()
    inst = tail(fn)
    i = X(mk("param", 1, "if"))
    A, B = i.data_in, i.data_ex
    for wi in (True, False):
        for we in (True, False):
            st = State()
            write(st, A.wet_dry_state.wet.p, TRUE if wi else FALSE)
            write(st, B.wet_dry_state.wet.p, TRUE if we else FALSE)
            r = Run(P, fn, ["stepper", "if"], state=st, ctx=ctx)
            bad = ""
            for own, oth, b, wo in ((A, B, i.bound_id_in, we), (B, A, i.bound_id_ex, wi)):
                s, o = own.slope_limit_state, oth.slope_limit_state
                if r[s.wet_neigh[b]] is not (TRUE if wo else FALSE):
                    bad = bad or "wetness of the neighbour is %s" % r[s.wet_neigh[b]]
                for v in range(3 if wi and we else 0):
                    x = r[s.q_at_baryctr_neigh[b][v]]
                    if x is not o.q_at_baryctr[v].p:
                        bad = bad or "mean of the neighbour is %s" % x
            ctx.ob("neighbours", "%s %s/%s" % (inst, "wet" if wi else "dry", "wet" if we else "dry"), not bad, W, bad)


def own(ctx, P, fn):
    W = fn.where()
    b = X(mk("param", 1, "bound"))
    st = State()
    write(st, b.data.wet_dry_state.wet.p, TRUE)
    r = Run(P, fn, ["stepper", "bound"], state=st, ctx=ctx)
    s = b.data.slope_limit_state
    bad = ""
    if r[s.wet_neigh[b.bound_id]] is not TRUE:
        bad = "wetness beyond the boundary is %s" % r[s.wet_neigh[b.bound_id]]
    for v in range(3):
        x = r[s.q_at_baryctr_neigh[b.bound_id][v]]
        if x is not s.q_at_baryctr[v].p:
            bad = bad or "mean beyond the boundary is %s" % x
    ctx.ob("neighbours", tail(fn), not bad, W, bad)


def tail(fn):
    return fn.psig.split(",", 1)[-1].replace("Geometry::", "").replace("Integration::", "")


# ------------------------------------------------------------------ geometry
def geometry(ctx, Q, S_, tu, fn):
    r, items = S_.run(fn, names(fn))
    w = tu + " " + who(fn)
    els = [i for i in items if i.kind == "leaf" and i.ent == "element" and writes(i, "SlopeLimit::alpha")]
    mid = [i for i in items if i.kind == "leaf" and i.ent == "element" and writes(i, "SlopeLimit::median")]
    W = fn.where()
    if not els or len(mid) != 1:
        ctx.ob("geometry", w, False, W, "weights are set up by %d routines, directions by %d" % (len(els), len(mid)))
        return
    for i in mid + els:
        c = [str(x) for x in cond(i.occ)]
        ok = c and all("slope_limiting" in x for x in c)
        ctx.ob("geometry", "%s option :%d" % (w, i.fn.line), bool(ok), i.fn.where(), "" if ok else "set up under %s" % (c or "no condition"))
    e = X(mk("param", 0, "elt"))
    s = e.data.slope_limit_state
    sh = e.shape
    # directions
    st = State()
    write(st, fld(e.data.p, "nbound"), num(3))
    write(st, fld(e.data.p, "nvrtx"), num(3))
    r = Run(Q, mid[0].fn, ["elt"], state=st, ctx=ctx, hook=Frames().hook)
    c, m = s.baryctr_coord, s.midpts_coord
    nc = sh.nodal_coordinates
    third, half = num(F(1, 3)), num(F(1, 2))
    ctr = [tm(third, pl(*[nc[v][k].p for v in range(3)])) for k in range(2)]
    mp = [[tm(half, pl(*[nc[v][k].p for v in range(3) if v != b])) for k in range(2)] for b in range(3)]
    L = [sqrt(pl(*[sq(mi(nc[(b + 2) % 3][k], nc[(b + 1) % 3][k])) for k in range(2)])) for b in range(3)]
    W = mid[0].fn.where()
    for k in range(2):
        ctx.eq("geometry", "%s centre %d" % (w, k), r[c[k]], ctr[k], W, "centre")
        for b in range(3):
            ctx.eq("geometry", "%s midpoint %d of edge %d" % (w, k, b), r[m[b][k]], mp[b][k], W, "edge midpoint")
            d = [mi(mp[b][j], ctr[j]) for j in range(2)]
            ctx.eq("geometry", "%s direction %d to edge %d" % (w, k, b), r[s.median[b][k]], dv(d[k], sqrt(pl(sq(d[0]), sq(d[1])))), W, "direction to the edge")
    ctx.eq("geometry", w + " bottom", r[s.bath_at_baryctr], tm(third, pl(*[nc[v][2].p for v in range(3)])), W, "bottom at the centre")
    for v in range(3):
        ctx.eq("geometry", "%s bottom at corner %d" % (w, v), r[s.bath_at_vrtx[v]], nc[v][2].p, W, "bottom at the corner")
        ctx.eq("geometry", "%s length %d" % (w, v), r[s.lengths[v]], L[v], W, "length of the edge")
    # centres beyond the edges
    for i in items:
        if i.kind != "leaf" or not writes(i, "SlopeLimit::baryctr_coord_neigh"):
            continue
        Wi = i.fn.where()
        if i.ent == "interface":
            a = X(mk("param", 0, "if"))
            r = Run(Q, i.fn, ["if"], ctx=ctx)
            for d, b, o in ((a.data_in, a.bound_id_in, a.data_ex), (a.data_ex, a.bound_id_ex, a.data_in)):
                for k in range(2):
                    ctx.eq("geometry", "%s neighbour centre %s %d %s" % (w, str(b.p), k, tail_(i.fn)), r[d.slope_limit_state.baryctr_coord_neigh[b][k]],
                           o.slope_limit_state.baryctr_coord[k].p, Wi, "centre of the neighbour")
        elif i.ent == "boundary":
            a = X(mk("param", 0, "bd"))
            r = Run(Q, i.fn, ["bd"], ctx=ctx)
            z = a.data.slope_limit_state
            for k in range(2):
                ctx.eq("geometry", "%s mirrored centre %d %s" % (w, k, tail_(i.fn)), r[z.baryctr_coord_neigh[a.bound_id][k]],
                       mi(tm(num(2), z.midpts_coord[a.bound_id][k]), z.baryctr_coord[k]), Wi, "centre mirrored at the edge")
    # weights: with any of the edges on a rank boundary
    for mask in range(8 if tu == "ompi" else 1):
        st = State()
        write(st, fld(e.data.p, "nbound"), num(3))
        write(st, fld(e.data.p, "nvrtx"), num(3))
        for b in range(3):
            write(st, e.boundary_type[b].p, num(192 if mask >> b & 1 else 128))
        for i in els:
            st = Run(Q, i.fn, ["elt"], state=st, ctx=ctx).st
        val_ = lambda p: dims(reify(read(st, p)) if isinstance(read(st, p), Mat) else read(st, p))
        W = els[-1].fn.where()
        for b in range(3):
            inst = "%s edge %d%s" % (w, b, " rank boundary at %s" % "/".join(str(j) for j in range(3) if mask >> j & 1) if mask else "")
            n = s.baryctr_coord_neigh
            d = [mi(m[b][k], c[k]) for k in range(2)]
            al = [val_(s.alpha[b][j].p) for j in range(2)]
            for k in range(2):
                got = pl(tm(al[0], mi(n[b][k], c[k])), tm(al[1], mi(n[(b + 1) % 3][k], c[k])))
                ctx.eq("geometry", "%s weights %d" % (inst, k), got, d[k], W, "combination of the neighbouring centres")
            ctx.eq("geometry", inst + " distance", val_(s.r_sq[b].p), pl(sq(d[0]), sq(d[1])), W, "squared distance of centre and midpoint")


# ------------------------------------------------------------------ trouble
def trouble(ctx, Q, S_, tu, fn):
    r, items = S_.run(fn, names(fn))
    w = tu + " " + who(fn)
    sends = [i for i in items if i.kind == "leaf" and i.ent == "distributed" and any(x[0] == "S" for x in i.eff[1]) and reads(i, "SlopeLimit::q_at_baryctr")]
    done = {}
    for it in items:
        if it.kind != "leaf":
            continue
        if writes(it, "SlopeLimit::I") and it.ent in ("interface", "distributed", "boundary", "element"):
            key = (it.ent, it.fn.file, it.fn.line, tail_(it.fn))
            if key in done:
                continue
            done[key] = 1
            inst = "%s %s" % (w, tail_(it.fn))
            if it.ent == "interface":
                ctx.guard("trouble", inst, it.fn.where(), lambda: local(ctx, Q, it, inst), 60)
            elif it.ent == "distributed" and tu == "ompi":
                snd = [x.fn for x in sends if tail_(x.fn) == tail_(it.fn)]
                ctx.guard("trouble", inst, it.fn.where(), lambda: remote(ctx, Q, it, inst, snd), 60)
            elif it.ent == "element":
                ctx.guard("trouble", inst, it.fn.where(), lambda: indicator(ctx, Q, it, inst), 60)


def tail_(fn):
    import re
    m = re.search(r"(ISP|DBC|BC)::\w+", fn.psig)
    return m.group(0) if m else "cell"


def local(ctx, Q, it, inst):
    W = it.fn.where()
    a = X(mk("param", 0, "if"))
    for wi, we in ((True, True), (True, False), (False, True), (False, False)):
        st = State()
        for d, b, wt in ((a.data_in, a.bound_id_in, wi), (a.data_ex, a.bound_id_ex, we)):
            write(st, d.wet_dry_state.wet.p, TRUE if wt else FALSE)
            write(st, d.ngp_boundary[b].p, NGP)
        r = Run(Q, it.fn, ["if"], state=st, ctx=ctx)
        stg = stage_of(r, a)
        sides = []
        for s, wt in (("in", wi), ("ex", we)):
            d = getattr(a, "data_" + s)
            b = getattr(a, "bound_id_" + s)
            sides.append((s, wt, d, b, getattr(a, "phi_gp_" + s), getattr(a, "surface_normal_" + s), getattr(a, "int_fact_" + s)))
        for k in (0, 1):
            s, wt, d, b, ph, n, f = sides[k]
            o = sides[1 - k]
            if not wt:
                continue            # the flag of a dry cell is not used
            side(ctx, "%s %s/%s side %s" % (inst, "wet" if wi else "dry", "wet" if we else "dry", s), W, r, d, b, n, f,
                 lambda v, g, d=d, ph=ph: S(0, NDOF, lambda i: tm(d.state[stg].q(v, i), ph(i, g))),
                 lambda g, o=o: pl(S(0, NDOF, lambda i: tm(o[2].state[stg].q(0, i), o[4](i, g))), o[2].boundary[o[3]].aux_at_gp(0, g)), NGP)


def stage_of(r, a):
    return mk("q", "stage")


def side(ctx, inst, W, r, d, b, n, f, own, other, ngp):
    sl = d.slope_limit_state
    qn = S(0, ngp, lambda g: tm(f[g], pl(tm(n(0, g), own(1, g)), tm(n(1, g), own(2, g)))))
    jump = S(0, ngp, lambda g: tm(f[g], mi(pl(own(0, g), d.boundary[b].aux_at_gp(0, g)), other(mi(mi(ngp, 1), g)))))
    inflow = t.lt(qn, ZERO)
    I = t.phi(inflow, pl(sl.I, absf(jump)), sl.I.p)
    c = lambda x: t.subst(unstage(x), {NGP: term(ngp)})
    ctx.eq("trouble", inst + " jump", c(r[sl.I]), c(dims(I)), W, "jump accumulated")
    ctx.eq("trouble", inst + " length", c(r[sl.perimeter]), c(dims(t.phi(inflow, pl(sl.perimeter, sl.lengths[b]), sl.perimeter.p))), W, "length of inflow edges")


def remote(ctx, Q, it, inst, snd):
    W = it.fn.where()
    if len(set(f.id for f in snd)) != 1:
        ctx.ob("trouble", inst, None, W, "%d routines send what this edge reads" % len(snd))
        return
    wf = snd[0]
    ngp = 3
    for wet in (True, False):
        N = Side("nb", wf, ngp, wet, 1, 0)
        rw, msgs = write_message(Q, wf, N, ctx)
        D = Side("db", it.fn, ngp, True, 0, 1)
        # the traces of the own side were left by the routine that sends
        own = Side("db", wf, ngp, True, 0, 1)
        ro, _ = write_message(Q, wf, own, ctx)
        D.st = ro.st
        rd, got = read_message(Q, it.fn, D, msgs[0][1], ctx)
        d, n = D.b, N.b
        side(ctx, "%s neighbour %s" % (inst, "wet" if wet else "dry"), W, rd, d.data, d.bound_id, d.surface_normal, d.int_fact,
             lambda v, g: U(d, "q", v, g), lambda g: pl(U(n, "q", 0, g), n.data.boundary[n.bound_id].aux_at_gp(0, g)), num(ngp))


def indicator(ctx, Q, it, inst):
    e = X(mk("param", 0, "elt"))
    s = e.data.slope_limit_state
    W = it.fn.where()
    if writes(it, "SlopeLimit::perimeter"):
        r = Run(Q, it.fn, ["elt"], ctx=ctx)
        bad = ""
        for x, z in (("I", ZERO), ("perimeter", ZERO), ("troubled", FALSE)):
            if r[getattr(s, x)] is not z:
                bad = bad or "%s starts from %s" % (x, r[getattr(s, x)])
        ctx.ob("trouble", inst + " start", not bad, W, bad)
        return
    st = State()
    write(st, fld(e.data.p, "nvrtx"), num(3))
    write(st, e.data.wet_dry_state.wet.p, TRUE)
    r = Run(Q, it.fn, ["elt"], state=st, ctx=ctx)
    hm = ZERO
    for k in range(3):
        hm = t.app("max", hm, pl(s.q_at_vrtx(0, k), s.bath_at_vrtx[k]))
    got = r[s.I]
    ps = [y for y in t.subterms(got) if y.op == "app" and y.args[0] == "pow"]
    p = mk("q", "degree")
    m = {}
    for y in ps:
        for z in t.subterms(y):
            if "bound<p>" == str(z):
                m[z] = p
    got = t.subst(got, m)
    want = dv(s.I, tm(t.app("pow", s.radius.p, tm(num(F(1, 2)), pl(p, 1))), s.perimeter, hm))
    want = t.phi(t.eq(s.perimeter.p, ZERO), s.I.p, want)
    ctx.eq("trouble", inst + " indicator", got, want, W, "indicator")
    marks = [o for o in occs(r.st.events) if o.short() == "insert"]
    if len(marks) != 1:
        ctx.ob("trouble", inst + " mark", None, W, "%d ways to mark a cell" % len(marks))
        return
    c = TRUE
    for x, pol in marks[0].conds:
        c = t.band(c, x if pol else t.bnot(x))
    c = t.subst(c, m)
    bad = ""
    for k, v in enumerate((0.2, 0.9, 1.2, 5.0)):
        fx = {s.perimeter.p: 1.5, s.radius.p: 0.7, p: 2.0}
        for j in range(3):
            fx[s.q_at_vrtx(0, j).p], fx[s.bath_at_vrtx[j].p] = 0.1 * j, 1.0
        fx[s.I.p] = v * (0.7 ** 1.5) * 1.5 * 1.2
        d = Case(k, fx).decide(c)
        if d is not (v > 1):
            bad = bad or "a cell with indicator %s is%s marked" % (v, "" if d else " not")
    if Case(9, {s.perimeter.p: 0.0, s.I.p: 5.0}).decide(c):
        bad = bad or "a cell without inflow is marked"
    ctx.ob("trouble", inst + " mark", not bad, W, bad)


def placed(ctx, Q, S_, tu, fn):
    r, items = S_.run(fn, names(fn))
    w = tu + " " + who(fn)
    lim = [(n, i) for n, i in enumerate(items) if i.kind == "leaf" and writes(i, "State::q") and reads(i, "SlopeLimit::alpha")]
    upd = [n for n, i in enumerate(items) if i.kind == "leaf" and i.ent == "element" and writes(i, "State::q") and not reads(i, "SlopeLimit::alpha")]
    tick = [n for n, i in enumerate(items) if i.kind == "tick"]
    if len(lim) != 1:
        ctx.ob("placed", w, False, fn.where(), "cells are limited at %d places of a stage" % len(lim))
        return
    n, i = lim[0]
    c = [str(x) for x in cond(i.occ)]
    bad = ""
    if i.ent != "element":
        bad = "cells are limited per %s" % i.ent
    elif not c or any("slope_limiting" not in x for x in c):
        bad = "cells are limited under %s" % (c or "no condition")
    elif upd and upd[-1] > n:
        bad = "the state is changed at %s after the limiting" % items[upd[-1]].fn.where()
    elif tick and tick[-1] > n:
        bad = "the limiter works on the state of the previous stage"
    elif tu == "ompi" and scope(i) not in ("own", "all"):
        bad = "cells of an irregular range of sub-domains are limited"
    ctx.ob("placed", w, not bad, i.fn.where(), bad)
