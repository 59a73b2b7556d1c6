"""P13: a stage that leaves an undefined value in the solution stops the run."""
from .. import terms as t, sched
from ..effects import last
from ..spec import Run, X
from .p09 import names, who, scope, csig, local_conds
from .p11 import cond
from ..evalt import Ev, NoEval


def run(ctx):
    ctx.rule("watched", "after the last change of a stage to the solution every element is examined, under no condition, before the stage ends", 5)
    ctx.rule("stops", "the run is ended exactly when the examination finds an undefined value", 3)
    ctx.rule("finds", "the examination reports an undefined value in any component and any coefficient of the current state, and nothing else", 2)
    for tu in ("serial", "ompi"):
        P = ctx.prog(tu, "stepper")
        S = sched.Sched(ctx, P)
        for fn in P.find_re(r"SWE::\w+::Problem::stage_%s$" % tu):
            ctx.guard("watched", tu + " " + who(fn), fn.where(), lambda: watched(ctx, P, S, tu, fn), 120)
        for fn in P.find_re(r"SWE::scrutinize_solution$"):
            ctx.guard("finds", "%s %s" % (tu, fn.psig[:70]), fn.where(), lambda: finds(ctx, P, fn, "%s %s" % (tu, fn.psig[:70])), 60)


def watched(ctx, P, S, tu, fn):
    r, items = S.run(fn, names(fn))
    w = tu + " " + who(fn)
    writes = [(n, i) for n, i in enumerate(items) if i.kind == "leaf" and i.ent == "element" and any(o in "WA" and str(g).endswith("State::q") for o, g, *_ in i.eff[0])]
    watch = [(n, i) for n, i in enumerate(items) if i.kind == "leaf" and i.ent == "element" and any(o == "X" and g == "abort" for o, g, *_ in i.eff[0]) and any(o == "R" and str(g).endswith("State::q") for o, g, *_ in i.eff[0])]
    tick = [n for n, i in enumerate(items) if i.kind == "tick"]
    if not writes:
        ctx.ob("watched", w, None, fn.where(), "no change of the solution found")
        return
    bad = ""
    good = [(n, i) for n, i in watch if n > writes[-1][0] and n > tick[-1]] if tick else []
    if not good:
        bad = "the solution is changed at %s and no element is examined afterwards" % (writes[-1][1].fn.where(),)
    else:
        g = good[0][1]
        c = cond(g.occ)
        if c:
            bad = "elements are examined only if %s" % (c,)
        if tu == "ompi" and scope(g) not in ("own", "all"):
            bad = "elements of an irregular range of sub-domains are examined"
    ctx.ob("watched", w, not bad, good[0][1].fn.where() if good else fn.where(), bad)
    for n, i in good[:1]:
        ctx.guard("stops", w, i.fn.where(), lambda: stops(ctx, P, i, w), 60)


def stops(ctx, P, it, w):
    """the examining routine ends the program iff scrutinize_solution returned true"""
    from .. import events as E
    fn = it.fn
    ab = ("abort", "exit", "_Exit", "quick_exit", "terminate", "MPI_Abort")
    r, evs = E.tree(ctx, P, fn, opaque=lambda n, g: last(n) == "scrutinize_solution")
    oc = [o for o in E.occs(evs) if last(o.name) in ab]
    bad = ""
    if not oc:
        ctx.ob("stops", w, None, fn.where(), "no end of the program found")
        return
    cs = {tuple((str(c), s) for c, s in o.conds) for o in oc}
    def plain(c, side):
        if c.op == "not":
            c, side = c.args[0], not side
        return side and c.op == "app" and last(str(c.args[0])) == "scrutinize_solution"
    ok = any(len(o.conds) == 1 and plain(*o.conds[0]) and not o.loops for o in oc) and all(any(plain(c, x) for c, x in o.conds) for o in oc)
    ctx.ob("stops", w, ok, oc[0].where(), "" if ok else "the run is ended under %s" % sorted(cs))


def finds(ctx, P, fn, inst):
    r = Run(P, fn, ["stepper", "elt"], ctx=ctx)
    v = r.retval()
    ctx.count("scrutiny routines")
    from .. import terms as tt
    nan = [x for x in tt.subterms(v) if x.op == "app" and last(str(x.args[0])) in ("isnan", "isfinite")]
    if not nan:
        ctx.ob("finds", inst, False, fn.where(), "the result does not depend on any value being undefined: %s" % str(v)[:200])
        return
    sizes = {x: 3 for x in tt.subterms(v) if x.op == "fld" and x.args[1] in ("ndof", "#cols")}
    sizes.update({x: 3 for x in tt.subterms(v) if x.op == "fld" and x.args[1] == "#rows"})

    class N(Ev):
        bad = None

        def app(self, x, env):
            f = last(str(x.args[0]))
            if f in ("isnan", "isfinite"):
                p = x.args[1]
                if p.op == "poly" or len(p.args) < 3:
                    raise NoEval("isnan")
                base, i, j = str(p.args[0]), self.num(p.args[1], env), self.num(p.args[2], env)
                bases.add(base)
                hit = (int(i), int(j)) == self.bad
                return hit if f == "isnan" else not hit
            return Ev.app(self, x, env)
    bases = set()
    msg = ""
    for b in [None] + [(i, j) for i in range(3) for j in range(3)]:
        e = N(1, fixed=sizes)
        e.bad = b
        try:
            got = bool(e.ev(v, {}))
        except NoEval as ex:
            ctx.ob("finds", inst, None, fn.where(), "not evaluated: %s" % ex)
            return
        if got != (b is not None) and not msg:
            msg = "reports an undefined value where there is none" if b is None else "misses an undefined value of component %d, coefficient %d" % b
    want = "elt.data.state[stepper.stage].q"
    if bases != {want} and not msg:
        msg = "examines %s, not the state of the current stage" % sorted(bases)
    ctx.ob("finds", inst, not msg, fn.where(), msg)
