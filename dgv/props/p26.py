"""P26: the error a run reports is the L2 distance of its state from the reference solution, over the whole mesh."""
from .. import terms as t
from ..spec import *
from ..spec import S as sumof
from ..interp import TRUE, FALSE, Loc, Lam, Mat, Struct
from .p18 import ops_of
from .p19 import last, exact

R = range
NG = 3


def cell(ctx, P, f, lab):
    """the square of the difference, integrated over the cell"""
    W = f.where()
    rp, gp = mk("param", 7, "rule"), mk("param", 6, "places")
    st = State()
    for p in (fld(rp, "first"), fld(rp, "second"), gp):
        write(st, fld(p, "#size"), num(NG))
    for k in R(NG):
        write(st, fld(at1(gp, num(k)), "#size"), num(2))
    write(st, fld(mk("param", 1, "elt"), "const_J"), TRUE)
    asked, strange = [], []

    def same_points(v, s):
        """the argument is the list of the rule's points"""
        if isinstance(v, (Loc, Struct)):
            s = v.state if isinstance(v, Struct) else s
            return all(read(s, at1(at1(v.path, num(k)), num(d))) is at1(at1(fld(rp, "second"), num(k)), num(d)) for k in R(NG) for d in (0, 1))
        return v is fld(rp, "second")

    def hook(I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)
        if n == "GetRule":
            asked.append(I.tm(I.ev(argn[0], fr, st), st))
            return Struct(st.copy(), rp)
        if n in ("LocalToGlobalCoordinates", "GetPhi", "GetJdet", "GetDPhi"):
            v = I.ev(argn[-1], fr, st)
            if not same_points(v, st):
                strange.append("%s is taken at other points than the rule's" % n)
            if n == "LocalToGlobalCoordinates":
                return Struct(st.copy(), gp)
            if n == "GetPhi":
                p = I.tm(I.rv(I.ev(argn[0], fr, st), st), st)
                if "master" not in str(p):
                    strange.append("basis functions of order %s" % p)
                return Mat(NDOF, num(NG), lambda i, j: mk("app", "basis", i, j))
            return mk("list", (mk("param", 5, "jacobian"),) * NG)
        if n == "true_q":
            a = [I.tm(I.rv(I.ev(argn[0], fr, st), st), st), I.ev(argn[1], fr, st)]
            p = a[1]
            if isinstance(p, (Loc, Struct)):
                s = p.state if isinstance(p, Struct) else st
                xy = [read(s, at1(p.path, num(d))) for d in (0, 1)]
            else:
                xy = [at1(p, num(d)) for d in (0, 1)]
            return mk("list", tuple(mk("app", "true%d" % i, a[0], *xy) for i in R(3)))
        if n == "size" and isinstance(obj, t.T) and obj.op == "list":
            return num(len(obj.args[0]))
        return NotImplemented
    r = Run(P, f, ["stepper", "elt"], ctx=ctx, hook=hook, state=st, unroll=10)
    if r.st is None:
        ctx.ob("cell", lab, False, W, "the error of a cell is never computed")
        return
    s, el = r.args
    # the clocks of a split scheme agree when the run has ended
    times = [s.t.p] if "ImplicitStepper" in f.psig else [pl(c.t, tm(c.drk[c.stage], c.dt)) for c in (s, s.second, s.first)]
    got = r.retval()
    wants = []
    for when in times:
        w = []
        for v in R(3):
            for g in R(NG):
                tr = mk("app", "true%d" % v, term(when), at1(at1(gp, num(g)), num(0)), at1(at1(gp, num(g)), num(1)))
                df = mi(tr, sumof(0, NDOF, lambda j: tm(el.data.state[0].q(v, j), mk("app", "basis", j, num(g)))))
                w.append(tm(at1(fld(rp, "first"), num(g)), df, df))
        wants.append(tm(pl(*w), absf(mk("param", 5, "jacobian"))))
    ctx.eq("cell", lab + " integral", got, ([w for w in wants if same_(got, w)] or wants)[0], W, "the error of a cell")
    ctx.ob("cell", lab + " points", not strange, W, "; ".join(strange))
    deg = [exact(x) for x in asked]
    ctx.ob("cell", lab + " rule", None if not deg or None in deg else min(deg) >= 8, W, "the rule is exact to degree %s only" % deg)


def total(ctx, P, f, lab, dist):
    """the sum over every element, of every sub-domain, and of every rank, is printed as a root, once"""
    W = f.where()
    nsu = 2 if dist else 1
    for rank in ((0, 1) if dist else (0,)):
        out, red = [], []
        st = State()
        this = mk("this")
        units = fld(this, "sim_units")
        if dist:
            write(st, fld(units, "#size"), num(nsu))
        seen = [0]

        def hook(I, e, fr, st, name, fn, obj, this, argn):
            n = last(name)
            if n.startswith("CallForEach"):
                if n != "CallForEachElement":
                    return None
                lam = I.rv(I.ev(argn[0], fr, st), st)
                if not isinstance(lam, Lam):
                    raise Undecided("what is done for each element")
                k = seen[0]
                seen[0] += 1
                for c in ops_of(fr, lam):
                    for j in R(2):
                        I.inline(c, lam.frame, st, None, [Loc(mk("param", 200 + 10 * k + j, "elt%d%d" % (k, j)), c.tu.types[c.params[0][2]].replace("&", "").strip())], e[1], parent=lam.frame)
                return None
            if n == "compute_residual_L2":
                v = I.ev(argn[1], fr, st)
                return mk("app", "cellerror", v.path)
            if n == "MPI_Comm_rank":
                write(st, where(I.ev(argn[1], fr, st)), num(rank))
                return ZERO
            if n in ("MPI_Reduce", "MPI_Allreduce"):
                a, b = where(I.ev(argn[0], fr, st)), where(I.ev(argn[1], fr, st))
                rest = [I.tm(I.ev(x, fr, st), st) for x in argn[2:]]
                red.append((n, read(st, a), rest))
                write(st, b, mk("app", "overranks", read(st, a)) if rank == 0 or n == "MPI_Allreduce" else ZERO)
                return ZERO
            if name.endswith("#<<") or n == "operator<<":
                left = I.ev(argn[0], fr, st) if len(argn) == 2 else obj
                v = I.rv(I.ev(argn[-1], fr, st), st)
                if isinstance(v, t.T) and "cellerror" in str(v):
                    out.append(v)
                return left
            return NotImplemented
        r = Run(P, f, [], this=this, state=st, ctx=ctx, hook=hook, unroll=10)
        tag = "%s rank %d" % (lab, rank)
        if r.st is None:
            ctx.ob("sum", tag, False, W, "the error is never reported")
            continue
        own = pl(*[mk("app", "cellerror", mk("param", 200 + 10 * k + j, "elt%d%d" % (k, j))) for k in R(nsu) for j in R(2)])
        if dist:
            ok = len(red) == 1 and same_(red[0][1], own)
            ctx.ob("sum", tag + " summed", ok, W, "the sum over the ranks takes %s" % [str(x[1])[:200] for x in red])
            if red:
                s = [str(x) for x in red[0][2]]
                ctx.ob("sum", tag + " operation", True if "op_sum" in s[2] else (False if "mpi_op_" in s[2] else None), W, "the ranks are combined by %s" % s[2])
                if red[0][0] == "MPI_Reduce":
                    ctx.ob("sum", tag + " root", exact(red[0][2][3]) == 0, W, "reduced to rank %s" % s[3])
        want = [] if rank else [mk("app", "overranks", term(own)) if dist else own]
        ctx.ob("sum", tag + " reports", len(out) == len(want), W, "%d errors are printed" % len(out))
        for a, b in zip(out, want):
            ctx.eq("sum", tag + " value", a, sqrt(b), W, "the reported error")


def where(v):
    if isinstance(v, Loc):
        return v.path
    if isinstance(v, t.T) and v.op == "addr":
        return v.args[0]
    raise Undecided("the address %s" % (v,))


def same_(a, b):
    from ..evalt import same
    return a is term(b) or same(a, term(b))[0]


def run(ctx):
    ctx.rule("cell", "the contribution of a cell is the integral of the squared difference of its state and the reference at the current time", 9)
    ctx.rule("sum", "the error reported is the root of the sum over all cells, sub-domains and ranks, printed once", 22)
    P, Q = ctx.prog("serial"), ctx.prog("ompi")
    for prog, tu in ((P, "serial"), (Q, "ompi")):
        n = 0
        for f in prog.find("SWE::compute_residual_L2"):
            n += 1
            lab = "%s %d" % (tu, n)
            ctx.guard("cell", lab, f.where(), lambda: cell(ctx, prog, f, lab), 100)
    for prog, rx, tu in ((P, r"^Serial::Simulation::ComputeL2Residual$", "serial"), (Q, r"^OMPISimulation::ComputeL2Residual$", "ompi")):
        n = 0
        for f in prog.find_re(rx):
            n += 1
            lab = "%s %d" % (tu, n)
            ctx.guard("sum", lab, f.where(), lambda: total(ctx, prog, f, lab, tu == "ompi"), 100)
