"""P15: wetting and drying keeps every cell's water and leaves no negative depth."""
from .. import terms as t, sched
from ..effects import last
from ..spec import *
from ..interp import TRUE, FALSE, Mat, Undecided
from ..evalt import Case, same
from .p09 import names, who, scope
from .p11 import cond

H0, TH = t.Fraction(1, 10), t.Fraction(1, 1000)


def run(ctx):
    ctx.rule("water", "the correction keeps the mean depth of the cell, or raises it to the threshold where it was below", 100)
    ctx.rule("depth", "no corner is left below the minimum depth unless the mean depth of the cell is, and then all corners are equal", 100)
    ctx.rule("momentum", "momentum is only moved to the wet corners of the cell, or removed from a cell that is dry or too shallow; dry corners have none", 500)
    ctx.rule("dry", "a cell marked dry has no momentum and no residual left", 100)
    ctx.rule("flag", "a cell becomes or stays wet exactly if its highest corner would flood its lowest bottom, and never if all corners are dry", 100)
    ctx.rule("untouched", "a wet cell with all corners wet is not changed", 2)
    ctx.rule("start", "at the start cells with a dry corner are dry, at rest and not below the minimum depth; other cells are unchanged", 60)
    ctx.rule("placed", "with the option on, every cell is corrected in every stage after the last update of its state, and only then", 4)
    P = ctx.prog("ompi", "stepper")
    for fn in P.find_re(r"::wetting_drying_kernel$"):
        if "SWE::Data>" not in fn.psig and ctx.tier == "quick":
            continue
        ctx.guard("water", data(fn), fn.where(), lambda: kernel(ctx, P, fn), 500)
    for tu in ("serial", "ompi"):
        Q = ctx.prog(tu, "stepper")
        S_ = sched.Sched(ctx, Q)
        for fn in Q.find_re(r"SWE::\w+::Problem::stage_%s$" % tu):
            ctx.guard("placed", tu + " " + who(fn), fn.where(), lambda: placed(ctx, Q, S_, tu, fn), 120)
        for fn in Q.find_re(r"::Problem::preprocessor_%s$" % tu):
            ctx.guard("start", tu + " " + who(fn), fn.where(), lambda: start(ctx, Q, S_, tu, fn), 200)


def data(fn):
    return "GN" if "GN::Data" in fn.psig else "SWE"


def linear_hook(I, e, fr, s, name, f, obj, this, argn):
    """values at the corners stand for the linear part of the coefficients (the
    projections themselves are decided with the basis)"""
    n = last(name)
    if n in ("ProjectBasisToLinear", "ProjectLinearToBasis", "ComputeLinearUvrtx"):
        m = I.rv(I.ev(argn[-1], fr, s), s)
        el = mat_of(m, s, I)
        if n == "ProjectLinearToBasis":
            return Mat(num(3), mk("q", "NDOF"), lambda i, j: t.phi(t.lt(j, num(3)), el(i, j), ZERO))
        return Mat(num(3), num(3), el)
    return NotImplemented


def mat_of(m, s, I):
    m = reify(m) if isinstance(m, Mat) else m
    if isinstance(m, Mat):
        return m.f
    if isinstance(m, Loc):
        snap = s.copy()
        return lambda i, j: read(snap, at2(m.path, i, j))
    if isinstance(m, t.T):
        snap = s.copy()
        return lambda i, j: read(snap, at2(m, i, j))
    raise Undecided("matrix")


def situations(tier):
    lv = [t.Fraction(-3, 10), t.Fraction(1, 3000), t.Fraction(1, 20), H0 + TH / 2, t.Fraction(3, 10), t.Fraction(4, 5)]
    out = []
    for a in range(6):
        for b in range(6):
            for c in range(6):
                if tier == "quick" and not (len({a, b, c}) == 3 and (a + 2 * b + c) % 2 == 0 or a == b == c or (a == b) != (b == c) and (a + b + c) % 3 == 0):
                    continue
                # the levels are distinct reals: no corner equals another by accident
                out.append((lv[a] + t.Fraction(1, 7919), lv[b] + t.Fraction(2, 7919), lv[c] + t.Fraction(3, 7919)))
    return out


def kernel(ctx, P, fn):
    W = fn.where()
    for bt, bath in (("flat bottom", (2, 2, 2)), ("steep bottom", (t.Fraction(5, 2), t.Fraction(11, 5), 2))):
        for wet in (True, False):
            for hs in situations(ctx.tier):
                if ctx.tier == "quick" and bt == "steep bottom" and sum(h < H0 for h in hs) not in (0, 1):
                    continue
                one(ctx, P, fn, W, bt, bath, wet, hs)


def one(ctx, P, fn, W, bt, bath, wet, hs):
    st = State()
    e = X(mk("param", 1, "elt"))
    stg = X(mk("param", 0, "stepper")).stage.p
    q = e.data.state[stg].q
    w = e.data.wet_dry_state
    fixed = {}
    write(st, fld(e.data.p, "nvrtx"), num(3))
    for v in ("h_at_vrtx", "h_at_vrtx_temp", "bath_at_vrtx"):
        write(st, fld(fld(w.p, v), "#size"), num(3))
    write(st, w.wet.p, TRUE if wet else FALSE)
    for k in range(3):
        fixed[w.bath_at_vrtx[k].p] = float(bath[k])
        fixed[q(0, k).p] = float(hs[k] - bath[k])
        fixed[q(1, k).p] = 0.3 + 0.2 * k
        fixed[q(2, k).p] = -0.7 + 0.3 * k
    h_o, th = mk("glob", "SWE::PostProcessing::h_o"), mk("glob", "SWE::PostProcessing::h_o_threshold")
    for y, v in ((h_o, H0), (th, TH), (w.bath_min.p, min(bath))):
        fixed[y] = float(v)
    cs = Case(1, fixed)
    r = Run(P, fn, ["stepper", "elt"], state=st, ctx=ctx, hook=linear_hook, decide=cs.decide)
    fin = lambda i, k: cs.resolve(r[q(i, k)])
    inst = "%s %s, %s, depths %s" % (data(fn), bt, "wet" if wet else "dry", "/".join("%.4g" % float(h) for h in hs))
    avg = sum(hs) / 3
    nd = sum(h <= H0 + TH for h in hs)
    h0 = [pl(q(0, k).p, w.bath_at_vrtx[k].p) for k in range(3)]
    h1 = [pl(fin(0, k), w.bath_at_vrtx[k].p) for k in range(3)]
    val = lambda x: cs.num(x)
    nh = [val(x) for x in h1]
    if any(x is None for x in nh):
        ctx.ob("water", inst, None, W, "depths %s not evaluated" % (h1,))
        return
    want = pl(*h0) if avg > TH else tm(num(3), th)
    ctx.eq("water", inst, pl(*h1), want, W, "three times the mean depth")
    eps = 1e-9
    lo = min(float(H0), max(float(avg), float(TH)))
    ok = all(x >= lo - eps for x in nh) and (avg > H0 + TH or nd == 0 or max(nh) - min(nh) < eps)
    ctx.ob("depth", inst, ok, W, "" if ok else "corner depths %s of a cell of mean depth %.4g" % (["%.4g" % x for x in nh], float(avg)))
    flag = r[w.wet]
    flag = cs.resolve(flag) if flag not in (TRUE, FALSE) else flag
    isw = flag is TRUE
    if flag not in (TRUE, FALSE):
        ctx.ob("flag", inst, None, W, "%s" % flag)
        return
    if nd == 0 and wet:
        same_ = all(r[q(i, k)] is q(i, k).p for i in range(3) for k in range(6)) and isw
        ctx.ob("untouched", inst, same_, W, "" if same_ else "a cell with all corners wet is changed")
        return
    # flooding criterion, on the corrected depths
    m = max(range(3), key=lambda k: nh[k])
    flood = val(fin(0, m)) > float(H0 - min(bath))
    exp = flood and nd < 3
    ctx.ob("flag", inst, isw == exp, W, "" if isw == exp else "the cell is %s" % ("wet" if isw else "dry"))
    for i in (1, 2):
        m1 = [fin(i, k) for k in range(3)]
        for k in range(3):
            if nh[k] <= float(H0 + TH) and nd > 0:
                ctx.ob("momentum", "%s component %d corner %d" % (inst, i, k), m1[k] is ZERO, W, "" if m1[k] is ZERO else "momentum %s at a dry corner" % m1[k])
        if isw and (avg > H0 + TH or nd == 0):
            ctx.eq("momentum", "%s component %d" % (inst, i), pl(*m1), pl(*[q(i, k).p for k in range(3)]), W, "three times the mean momentum")
        elif not isw:
            ok = all(x is ZERO for x in m1)
            ctx.ob("dry", "%s component %d" % (inst, i), ok, W, "" if ok else "momentum %s in a dry cell" % (m1,))
    if not isw:
        rhs = e.data.state[stg].rhs
        ok = all(r[rhs(i, k)] is ZERO for i in range(3) for k in (0, 5))
        ctx.ob("dry", inst + " residual", ok, W, "" if ok else "the residual of a dry cell is %s" % r[rhs(0, 0)])


def start(ctx, P, S_, tu, fn):
    """the routine of the preprocessor that marks the cells"""
    r, items = S_.run(fn, names(fn))
    w = tu + " " + who(fn)
    wd = [i for i in items if i.kind == "leaf" and writes(i, "WetDry::wet")]
    if len(wd) != 1 or wd[0].ent != "element":
        ctx.ob("start", w, None if wd else False, fn.where(), "cells are marked at %d places" % len(wd))
        return
    it = wd[0]
    c = [str(x) for x in cond(it.occ)]
    ok = c and all("wetting_drying" in x for x in c)
    ctx.ob("start", w + " option", bool(ok), it.fn.where(), "" if ok else "cells are marked under %s" % (c or "no condition"))
    W = it.fn.where()
    bath = (t.Fraction(5, 2), t.Fraction(11, 5), 2)
    for hs in situations("quick")[:: (3 if ctx.tier == "quick" else 1)]:
        st = State()
        pos = [k for k, p in enumerate(it.fn.params) if "Element" in it.fn.tu.types[p[2]]]
        pos = pos[-1] if pos else len(it.fn.params) - 1
        e = X(mk("param", pos, "elt"))
        q = e.data.state[ZERO].q
        d = e.data.wet_dry_state
        write(st, fld(e.data.p, "nvrtx"), num(3))
        for v in ("h_at_vrtx", "h_at_vrtx_temp", "bath_at_vrtx"):
            write(st, fld(fld(d.p, v), "#size"), num(3))
        fixed = {}
        sh = e.shape.nodal_coordinates
        for k in range(3):
            fixed[sh[k][2].p] = float(bath[k])
            fixed[q(0, k).p] = float(hs[k] - bath[k])
        h_o, th = mk("glob", "SWE::PostProcessing::h_o"), mk("glob", "SWE::PostProcessing::h_o_threshold")
        fixed[h_o], fixed[th] = float(H0), float(TH)
        cs = Case(1, fixed)
        nm = ["x%d" % k for k in range(len(it.fn.params))]
        nm[pos] = "elt"
        r = Run(P, it.fn, nm, state=st, ctx=ctx, hook=linear_hook, decide=cs.decide)
        inst = "%s depths %s" % (w, "/".join("%.4g" % float(h) for h in hs))
        fl = r[d.wet]
        dry = [h <= H0 + TH for h in hs]
        if fl not in (TRUE, FALSE):
            fl = cs.resolve(fl)
        bad = ""
        if (fl is TRUE) == any(dry):
            bad = "the cell is marked %s" % ("wet" if fl is TRUE else "dry")
        for k in range(3):
            b = sh[k][2].p
            if r[d.bath_at_vrtx[k]] is not b:
                bad = bad or "the bottom at corner %d is %s" % (k, r[d.bath_at_vrtx[k]])
            z = cs.resolve(r[q(0, k)])
            want = mi(h_o, b) if dry[k] else q(0, k).p
            if not same(z, want)[0]:
                bad = bad or "the level at corner %d is %s" % (k, z)
            for i in (1, 2):
                m = cs.resolve(r[q(i, k)])
                if m is not (ZERO if any(dry) else q(i, k).p):
                    bad = bad or "the momentum at corner %d is %s" % (k, m)
        if not any(dry) and r[q(0, 5)] is not q(0, 5).p:
            bad = bad or "the state of a wet cell is changed"
        lo = cs.num(r[d.bath_min])
        if lo is None or abs(lo - float(min(bath))) > 1e-9:
            bad = bad or "the lowest bottom is %s" % r[d.bath_min]
        ctx.ob("start", inst, not bad, W, bad)


def placed(ctx, P, S_, tu, fn):
    r, items = S_.run(fn, names(fn))
    w = tu + " " + who(fn)
    if not any(i.kind == "leaf" and i.ent == "element" and writes(i, "WetDry::wet") for i in items):
        # the implicit scheme offers no wetting and drying
        if "IHDG" in w:
            return
        ctx.ob("placed", w, False, fn.where(), "no cell is ever marked wet or dry")
        return
    bad = ""
    wd = [(n, i) for n, i in enumerate(items) if i.kind == "leaf" and writes(i, "WetDry::wet")]
    upd = [n for n, i in enumerate(items) if i.kind == "leaf" and i.ent == "element" and writes(i, "State::q") and not writes(i, "WetDry::wet") and not reads(i, "SlopeLimit") ]
    tick = [n for n, i in enumerate(items) if i.kind == "tick"]
    n, i = wd[0]
    c = [str(x) for x in cond(i.occ)]
    if len(wd) != 1:
        bad = "cells are marked at %d places" % len(wd)
    elif i.ent != "element":
        bad = "cells are corrected per %s" % i.ent
    elif not c or any("wetting_drying" not in x for x in c):
        bad = "cells are corrected under %s" % (c or "no condition")
    elif upd and upd[-1] > n:
        bad = "the state is updated at %s after the correction" % items[upd[-1]].fn.where()
    elif tick and tick[-1] > n:
        bad = "the correction is applied to the state of the previous stage"
    elif tu == "ompi" and scope(i) not in ("own", "all"):
        bad = "cells of an irregular range of sub-domains are corrected"
    ctx.ob("placed", w, not bad, i.fn.where(), bad)


def writes(i, f):
    return any(o in "WA" and str(g).endswith(f) for o, g, *_ in i.eff[0])


def reads(i, f):
    return any(o == "R" and f in str(g) for o, g, *_ in i.eff[0])
