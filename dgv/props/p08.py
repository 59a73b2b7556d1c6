"""P08: what a sub-domain reads from a message is what its neighbour wrote for it, and fits."""
from .. import terms as t, sched
from ..effects import last
from ..spec import *
from ..interp import TRUE, FALSE
from ..evalt import same
from .p09 import DRIVERS, names, who, dkey

HALF = num(t.Fraction(1, 2))
BATH, H = 0, 1


def U(d, f, v, g):
    """trace of coefficient set f at quadrature point g"""
    st = d.data.state[mk("q", "stage")]
    return S(0, NDOF, lambda k: tm(getattr(st, f)(v, k), d.phi_gp(k, g)))


class Side(object):
    """one side of a rank boundary with concrete numbers of points"""

    def __init__(self, name, fn, ngp, wet, rank, other, sub=(0, 0)):
        edge = "Edge" in fn.psig.split("<")[0] or any("edge" in p[1] for p in fn.params[-1:]) or "EdgeBoundary" in fn.psig
        self.arg = X(mk("param", len(fn.params) - 1, name))
        self.pos = len(fn.params) - 1
        for k, p in enumerate(fn.params):
            s = fn.tu.types[p[2]]
            if "Boundary<" in s:
                self.arg = X(mk("param", k, name))
                self.pos = k
                edge = "EdgeBoundary<" in s
        self.edge = edge
        self.b = self.arg.boundary if edge else self.arg
        st = self.st = State()
        d = self.b
        write(st, d.data.ngp_boundary[d.bound_id].p, num(ngp))
        write(st, fld(d.phi_gp.p, "#cols"), num(ngp))
        write(st, d.data.wet_dry_state.wet.p, TRUE if wet else FALSE)
        x = d.boundary_condition.exchanger
        for f, v in (("locality_in", rank), ("locality_ex", other), ("submesh_in", sub[0]), ("submesh_ex", sub[1])):
            write(st, fld(x.p, f), num(v))
        if edge:
            write(st, self.arg.edge_data.ngp.p, num(ngp))
            write(st, self.arg.edge_data.ndof.p, num(2))

    def names(self, fn):
        out = ["x%d" % k for k in range(len(fn.params))]
        out[self.pos] = self.arg.p.args[1]
        return out


def write_message(P, fn, side, ctx=None):
    """[(size, [entries])] messages a routine leaves in the send buffer"""
    out = []

    def hook(I, e, fr, s, name, f, obj, this, argn):
        if last(name) == "SetToSendBuffer":
            m = I.ev(argn[1], fr, s)
            n = read(s, fld(m.path, "#size"))
            c = I.tm(I.rv(I.ev(argn[0], fr, s), s), s)
            k = int(str(n)) if str(n).isdigit() else None
            out.append((n, [dims(val(s, at1(m.path, num(i)))) for i in range(k)] if k is not None else None, c))
            return ZERO
        return NotImplemented
    r = Run(P, fn, side.names(fn), state=side.st, ctx=ctx, hook=hook)
    return r, out


def val(s, p):
    v = read(s, p)
    if isinstance(v, Mat):
        v = reify(v)
    return v


def read_message(P, fn, side, entries, ctx=None, **kw):
    """run a routine with the received message given; [(size, comm)] of what it reads"""
    out = []

    def hook(I, e, fr, s, name, f, obj, this, argn):
        if last(name) == "GetFromReceiveBuffer":
            m = I.ev(argn[1], fr, s)
            n = read(s, fld(m.path, "#size"))
            c = I.tm(I.rv(I.ev(argn[0], fr, s), s), s)
            out.append((n, c))
            k = int(str(n)) if str(n).isdigit() else len(entries)
            for i in range(k):
                write(s, at1(m.path, num(i)), entries[i] if i < len(entries) else mk("q", "stale%d" % i))
            return ZERO
        return NotImplemented
    r = Run(P, fn, side.names(fn), state=side.st, ctx=ctx, hook=hook, **kw)
    return r, out


# ------------------------------------------------------------------ contents
def expected(D, N, rw, ngp, own, wet):
    """[(what, location, value)] a reader may set from a message; N the writer's side,
    rw its run, own(path) the value the reader's side starts from"""
    out = []
    d, n = D.b, N.b
    sl, sn = d.data.slope_limit_state, n.data.slope_limit_state
    b = d.bound_id
    bd, bn = d.data.boundary[b], n.data.boundary[n.bound_id]
    de, dn = d.data.derivative, n.data.derivative
    for k in range(2):
        out.append(("centre of the neighbour", de.baryctr_coord_neigh[b][k], dn.baryctr_coord[k].p))
        out.append(("centre of the neighbour", sl.baryctr_coord_neigh[b][k], sn.baryctr_coord[k].p))
    out.append(("wet/dry of the neighbour", sl.wet_neigh[b], TRUE if wet else FALSE))
    if wet:
        for v in range(3):
            out.append(("mean of the neighbour", sl.q_at_baryctr_neigh[b][v], sn.q_at_baryctr[v].p))
    out.append(("wet/dry of the neighbour", d.boundary_condition.wet_neighbor, TRUE if wet else FALSE))
    for g in range(ngp):
        e = ngp - 1 - g
        out.append(("jump of the depth", sl.hdif_at_gp[b][g], mi(own(bd.aux_at_gp(H, g)), pl(U(n, "q", 0, e), bn.aux_at_gp(BATH, e)))))
        if D.edge:
            out.append(("bottom at the edge", D.arg.edge_data.edge_internal.aux_hat_at_gp(BATH, g), tm(HALF, pl(bd.aux_at_gp(BATH, g), bn.aux_at_gp(BATH, e)))))
            for v in range(3 if wet else 0):
                out.append(("state at the edge", D.arg.edge_data.edge_internal.q_hat_at_gp(v, g), tm(HALF, pl(bd.q_at_gp(v, g), U(n, "q", v, e)))))
        out.append(("bottom at the edge", de.bath_hat_at_gp[b][g], tm(HALF, pl(bd.aux_at_gp(BATH, g), bn.aux_at_gp(BATH, e)))))
        hn = pl(U(n, "q", 0, e), bn.aux_at_gp(BATH, e))
        out.append(("level at the edge", de.ze_hat_at_gp[b][g], tm(HALF, pl(own(de.ze_hat_at_gp[b][g]), U(n, "q", 0, e)))))
        for k in range(2):
            out.append(("velocity at the edge", de.u_hat_at_gp[b](k, g), tm(HALF, pl(own(de.u_hat_at_gp[b](k, g)), dv(U(n, "q", 1 + k, e), hn)))))
            out.append(("bottom slope at the edge", bd.dbath_hat_at_gp(k, g), tm(HALF, pl(own(bd.dbath_hat_at_gp(k, g)), U(n, "dbath", k, e)))))
        for k in range(4):
            out.append(("velocity gradient at the edge", de.du_hat_at_gp[b](k, g), tm(HALF, pl(own(de.du_hat_at_gp[b](k, g)), U(n, "du", k, e)))))
            out.append(("bottom curvature at the edge", bd.ddbath_hat_at_gp(k, g), tm(HALF, pl(own(bd.ddbath_hat_at_gp(k, g)), U(n, "ddbath", k, e)))))
            out.append(("bottom curvature at the edge", de.ddbath_hat_at_gp[b](k, g), tm(HALF, pl(own(de.ddbath_hat_at_gp[b](k, g)), U(n, "ddbath", k, e)))))
        out.append(("depth at the edge", bd.aux_at_gp(H, g), tm(HALF, pl(own(bd.aux_at_gp(H, g)), hn))))
    return out


def index_expected(D, N, rw):
    """global numbers: the side of higher rank takes over the numbers of the other side"""
    out = []
    if not D.edge:
        return out
    ed, en = D.arg.edge_data.edge_internal, N.arg.edge_data.edge_internal
    bd = D.b.data.boundary[D.b.bound_id]
    out.append(("number of the edge", ed.dc_global_dof_indx, lambda: rw[en.dc_global_dof_indx]))
    out.append(("number of the edge", bd.dc_global_dof_indx, lambda: rw[en.dc_global_dof_indx]))
    for i in range(3):
        out.append(("number of the edge", ed.global_dof_indx[i], lambda i=i: pl(rw[en.global_dof_indx[0]], num(i))))
        out.append(("number of the edge", bd.global_dof_indx[i], lambda i=i: pl(rw[en.global_dof_indx[0]], num(i))))
    return out


def own_expected(D, ngp):
    """[(what, location, value)] the side's own values a writer may leave for the later average"""
    out = []
    d = D.b
    b = d.bound_id
    bd, de = d.data.boundary[b], d.data.derivative
    for g in range(ngp):
        h = pl(U(d, "q", 0, g), bd.aux_at_gp(BATH, g))
        out.append(("own level", de.ze_hat_at_gp[b][g], U(d, "q", 0, g)))
        out.append(("own depth", bd.aux_at_gp(H, g), h))
        for k in range(2):
            out.append(("own velocity", de.u_hat_at_gp[b](k, g), dv(U(d, "q", 1 + k, g), h)))
            out.append(("own bottom slope", bd.dbath_hat_at_gp(k, g), U(d, "dbath", k, g)))
        for k in range(4):
            out.append(("own velocity gradient", de.du_hat_at_gp[b](k, g), U(d, "du", k, g)))
            out.append(("own bottom curvature", bd.ddbath_hat_at_gp(k, g), U(d, "ddbath", k, g)))
            out.append(("own bottom curvature", de.ddbath_hat_at_gp[b](k, g), U(d, "ddbath", k, g)))
        for v in range(3):
            out.append(("own trace", bd.q_at_gp(v, g), U(d, "q", v, g)))
    return out


def layout(P, fn, ngp):
    """what entry k of the state message is: "wet", (variable, point) or None"""
    side = Side("nb", fn, ngp, True, 0, 1)
    r, out = write_message(P, fn, side)
    n, es, c = out[0]
    lay = []
    for e in es:
        m = None
        e = unstage(e)
        if e in (ONE, TRUE):
            m = "wet"
        else:
            for g in range(ngp):
                for v in range(3):
                    if m is None and e is dims(U(side.b, "q", v, g)):
                        m = (v, g)
            if m is None:
                for g in range(ngp):
                    for v in range(3):
                        if m is None and same(e, dims(U(side.b, "q", v, g)))[0]:
                            m = (v, g)
        lay.append(m)
    return lay


# ------------------------------------------------------------------ check
def run(ctx):
    ctx.rule("fits", "every message fits the part of the buffer reserved for its edge, and no more is read than is reserved", 140)
    ctx.rule("apart", "the parts of the buffer reserved for different edges do not overlap", 4)
    ctx.rule("content", "what is computed from a message equals the neighbour's values at the facing quadrature point, as a local edge would see them", 260)
    ctx.rule("state", "the flux at a rank boundary is that of the neighbour's state at the facing point", 40)
    ctx.rule("own", "the value a side keeps for the later average is its own trace", 130)
    ctx.rule("used", "the contents of every exchange are traced to their use", 22)
    P = ctx.prog("ompi", "stepper")
    S_ = sched.Sched(ctx, P)
    slots = {}
    for fn in P.find_re(r"::comm_buffer_offsets$"):
        ctx.guard("apart", prob(fn.name), fn.where(), lambda: apart(ctx, P, fn, slots), 60)
    for fn in P.find_re(DRIVERS):
        ctx.guard("content", who(fn), fn.where(), lambda: driver(ctx, P, S_, fn, slots), 300)


    fluxes(ctx, P)


def fluxes(ctx, P):
    """the state message: the flux computed from it is the one of the exterior state
    at the facing point, whatever the order of the entries"""
    from .p03 import gravity
    from . import p05
    g = gravity(P)
    for ngp in ((3,) if ctx.tier == "quick" else (1, 2, 3, 4)):
        for we in (True, False):
            tag = "%d points, neighbour %s" % (ngp, "wet" if we else "dry")
            for fn in P.find("SWE::RKDG::DBC::Distributed::ComputeFlux")[:1]:
                ctx.guard("state", tag, fn.where(), lambda: p05.remote_explicit(ctx, P, g, fn, ngp, True, we, tag, "state"))
            for fn in P.find("SWE::EHDG::DBC::Distributed::ComputeNumericalFlux")[:1]:
                ctx.guard("state", tag, fn.where(), lambda: p05.remote_hybrid(ctx, P, g, fn, ngp, True, we, tag, "state"))
        for fn in P.find("SWE::RKDG::DBC::DistributedLevee::ComputeFlux")[:1]:
            ctx.guard("state", "levee", fn.where(), lambda: p05.levee_one(ctx, P, g, fn, ngp, True, "state"))


def prob(name):
    return "::".join(name.split("::")[:2])


def apart(ctx, P, fn, slots):
    """the slot of an edge starts where the previous one ended"""
    r = Run(P, fn, ["begin", "ngp"], ctx=ctx)
    b = r.args[0]
    ret = r.ret
    inc = {}
    bad = ""
    n = 0
    for c in range(8):
        v = read(r.st, b[c].p)
        if v is b[c].p:
            continue
        inc[c] = t.sub(v, b[c].p)
        n += 1
        for k in t.subterms(inc[c]):
            if k.op == "elem":
                bad = "the part reserved in exchange %d depends on %s" % (c, k)
        o = retval(r, c)
        if o is not None and o is not b[c].p:
            bad = "messages of exchange %d are placed at %s, the next free place is %s" % (c, o, b[c])
        if o is None:
            bad = bad or None
    slots[prob(fn.name)] = (inc, r.args[1].p)
    ctx.ob("apart", prob(fn.name), None if bad is None or not n else not bad, fn.where(), bad or "")


def retval(r, c):
    v = r.ret
    try:
        if isinstance(v, Loc):
            return read(r.st, at1(v.path, num(c)))
        if hasattr(v, "get") or hasattr(v, "fields"):
            f = getattr(v, "fields", None)
    except Exception:
        pass
    p = getattr(v, "path", None)
    if p is not None:
        return read(r.st, at1(p, num(c)))
    if isinstance(v, Mat):
        return v.at(num(c))
    return None


def driver(ctx, P, S_, fn, slots):
    w = who(fn)
    r, items = S_.run(fn, names(fn))
    rounds = {}
    cnt = {}
    for it in items:
        if it.kind == "comm" and last(it.name) == "WaitAllSends":
            c = str(it.args[1])
            cnt[c] = cnt.get(c, 0) + 1
        if it.kind == "leaf" and it.ent in ("distributed", "edge_distributed"):
            for op, c, ln, f in it.eff[1]:
                key = (str(c), cnt.get(str(c), 0), dkey(it))
                rounds.setdefault(key, {"S": [], "G": []})[op].append(it.fn)
    gn = "within GN" in w or w.startswith("GN")
    slot = slots.get("GN::EHDG" if gn else prob(fn.name))
    for (c, k, dk), x in sorted(rounds.items(), key=str):
        inst = "%s exchange %s round %d type %s" % (w, c, k, dk)
        ws = list(dict.fromkeys(x["S"]))
        rs = list(dict.fromkeys(x["G"]))
        for wf in ws:
            ctx.guard("content", inst, wf.where(), lambda: exchange(ctx, P, inst, c, wf, rs, slot), 200)


def sizes_ok(ctx, inst, what, n, c, slot, ngp, where):
    if slot is None or int(c) not in slot[0]:
        ctx.ob("fits", "%s, %d points: %s" % (inst, ngp, what), False, where, "no part of the buffer is reserved for exchange %s" % c)
        return
    cap = t.subst(slot[0][int(c)], {slot[1]: num(ngp)})
    d = t.sub(cap, n)
    ok = int(str(d)) >= 0 if str(d).lstrip("-").isdigit() else None
    ctx.ob("fits", "%s, %d points: %s" % (inst, ngp, what), ok, where, "%s of %s values with %s reserved" % (what, n, cap))


def exchange(ctx, P, inst, c, wf, rs, slot):
    quick = ctx.tier == "quick"
    traced = {id(g): 0 for g in rs}
    for ngp in ((3,) if quick else (1, 2, 3, 4)):
        for lo, hi in ((0, 1), (1, 0)):
            for wet in (True, False):
                if not wet and not (lo, hi) == (0, 1):
                    continue
                N = Side("nb", wf, ngp, wet, hi, lo)
                rw, msgs = write_message(P, wf, N, ctx)
                own = "own rank %s, neighbour %s" % ("lower" if lo < hi else "higher", "wet" if wet else "dry")
                if len(msgs) > 1 or (msgs and msgs[0][1] is None):
                    ctx.ob("fits", inst, None, wf.where(), "messages %s" % [str(m[0]) for m in msgs])
                    return
                if msgs:
                    sizes_ok(ctx, inst + ", " + own, "message", msgs[0][0], c, slot, ngp, wf.where())
                entries = msgs[0][1] if msgs else []
                # what the side keeps for itself
                if wet and (lo, hi) == (0, 1):
                    for what, loc, want in own_expected(N, ngp):
                        pre = loc.p
                        got = rw[loc]
                        if got is pre:
                            continue
                        ctx.eq("own", "%s %s %s" % (inst, what, tail(loc)), unstage(got), unstage(dims(want)), wf.where(), what)
                for g in rs:
                    D = Side("db", g, ngp, True, lo, hi)
                    rd, got = read_message(P, g, D, entries, ctx)
                    if len(got) > 0:
                        for n, cc in got:
                            if str(n).isdigit():
                                sizes_ok(ctx, inst + ", " + own, "read", n, c, slot, ngp, g.where())
                    k = contents(ctx, inst + ", " + own, g, D, N, rw, rd, ngp, wet, lo > hi)
                    traced[id(g)] += k
    for g in rs:
        flux = reaches_flux(P, g)
        if flux:
            continue
        ctx.ob("used", "%s %s" % (inst, short_(g)), True if traced[id(g)] else None, g.where(), "no use of the received values recognised")


def reaches_flux(P, g):
    """the state message, used by the flux routines (decided with the fluxes)"""
    return any(last(f.name) in ("ComputeFlux", "ComputeNumericalFlux") for f in P.closure(g)) or \
        any("kernel" in last(f.name) and "slope" not in f.name for f in P.closure(g))


def short_(g):
    return "%s:%d" % (g.file.rsplit("/", 1)[-1], g.line)


def tail(loc):
    return str(loc.p).split(".data.", 1)[-1].split(".edge_data.", 1)[-1]


def unstage(x):
    """the stage may be reached through an argument or a captured variable"""
    m = {}

    def f(y):
        if y.op == "elem" and y.args[0].op == "fld" and y.args[0].args[1] == "state":
            m[y] = at1(y.args[0], mk("q", "stage"))
    t.walk(x, f)
    x = t.subst(x, m) if m else x
    return noint(x)


def noint(x):
    """numbers of unknowns travel as floating point"""
    m = {y: y.args[1] for y in t.subterms(x) if y.op == "app" and y.args[0] == "toint" and any(z.op == "fld" and "dof_indx" in str(z.args[1]) for z in t.subterms(y))}
    return t.subst(x, m) if m else x


def contents(ctx, inst, g, D, N, rw, rd, ngp, wet, takes):
    k = 0
    exp = expected(D, N, rw, ngp, lambda x: x.p, wet)
    if takes:
        exp += index_expected(D, N, rw)
    for what, loc, want in exp:
        got = rd[loc]
        if got is loc.p or not mentions(got, N.arg.p) and not stale(got) and not callable(want) and not (want in (TRUE, FALSE) and got in (TRUE, FALSE, ONE, ZERO)):
            if callable(want) and got is loc.p:
                continue
            continue
        if callable(want):
            want = want()
            if not isinstance(want, t.T):
                want = term(want)
            if not mentions(got, N.arg.p) and not stale(got):
                continue
        got = pick(got, N.arg.p, loc.p)
        if want in (TRUE, FALSE):
            got = t.tobool(got) if got in (ONE, ZERO) else got
        ctx.eq("content", "%s: %s %s" % (inst, what, tail(loc)), unstage(got), unstage(dims(want)), g.where(), what)
        k += 1
    return k


def mentions(x, p):
    return any(y is p for y in t.subterms(x))


def stale(x):
    return any(y.op == "q" and str(y.args[0]).startswith("stale") for y in t.subterms(x))


def pick(x, nb, pre):
    """the branch of a conditional update that uses the message"""
    while x.op == "phi":
        a, b = x.args[1], x.args[2]
        ma, mb = mentions(a, nb) or stale(a), mentions(b, nb) or stale(b)
        if ma and not mb:
            x = a
        elif mb and not ma:
            x = b
        else:
            break
    return x
