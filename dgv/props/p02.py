"""P02 time advance: stages, steps, time, ramp, split stepping"""
from .. import terms as t
from ..spec import *
from ..interp import TRUE, FALSE
from .. import events as E

EPS = num(t.Fraction(1, 2 ** 52))


def conc(x, this, dur):
    """fix the ramp duration (symbolic conditions on it fold away)"""
    return t.subst(term(x), {t.app("epsilon"): EPS, this.ramp_duration.p: num(dur)})


def ramp(time, dur):
    return tanh(dv(tm(num(2), dv(time, num(86400))), num(dur)))


def run(ctx):
    ctx.rule("start", "a fresh stepper is at time 0, step 0, stage 0, with full ramp if no ramp is requested and zero ramp otherwise", 12)
    ctx.rule("tick", "one advance moves to the next stage; after the last stage time grows by exactly one step size and the step count by one; the ramp follows tanh(2 days/ramp duration) of the current stage's time", 16)
    ctx.rule("combine", "the next stage state is the tabulated convex combination of the stored stage states and their time derivatives, and after the last stage it becomes the current state", 4)
    ctx.rule("split", "split stepping halves the first stepper's step, runs it before and after a full step of the second, and reports the second's step and time", 5)
    ctx.rule("stages", "every time step runs each stage of the stepper exactly once, unconditionally", 8)
    ctx.rule("advance", "every stage advances the stepper exactly once", 8)
    ctx.rule("steps", "a run executes ceil(run time / step size) steps", 8)
    steppers(ctx)
    split(ctx)
    drivers(ctx)


def steppers(ctx):
    P = ctx.prog("serial", "stepper")
    for cls in ("ESSPRKStepper", "ImplicitStepper"):
        imp = cls[0] == "I"
        for fn in P.find(cls + "::" + cls, psig=lambda s: "StepperInput" in s)[:1]:
            W = fn.where()

            def start():
                op = lambda n, f: n.endswith("InitializeCoefficients")
                r = Run(P, fn, ["in"], ctx=ctx, opaque=op)
                i = X(mk("param", 0, "in"))
                for k in ("stage", "step", "timestamp", "t"):
                    ctx.eq("start", "%s %s" % (cls, k), r[getattr(r.this, k)], ZERO, W, k)
                for k in ("dt", "ramp_duration") + (() if imp else ("order", "nstages")):
                    ctx.eq("start", "%s %s" % (cls, k), r[getattr(r.this, k)], getattr(i, k), W, k)
                for dur in (0, 2):
                    c = lambda x: conc(x, i, dur)
                    ctx.eq("start", "%s ramp, duration %d" % (cls, dur), c(r[r.this.ramp]), ONE if dur == 0 else ZERO, W, "ramp")
                    if imp:
                        ctx.eq("start", "%s next ramp, duration %d" % (cls, dur), c(r[r.this.ramp_next]), ONE if dur == 0 else ramp(i.dt, dur), W, "next ramp")
                if imp:
                    for o, n, th, ns in ((1, 1, 0, 1), (2, 1, t.Fraction(1, 2), 1), (2, 2, t.Fraction(1, 2), 1)):
                        s = lambda x: t.subst(term(x), {i.order.p: num(o), i.nstages.p: num(n)})
                        ctx.eq("start", "%s (%d,%d) weight" % (cls, n, o), s(r[r.this.theta]), num(th), W, "theta")
                        ctx.eq("start", "%s (%d,%d) stages" % (cls, n, o), s(r[r.this.nstages]), num(ns), W, "stages")
            ctx.guard("start", cls, W, start)
        for fn in P.find(cls + "::operator++")[:1]:
            W = fn.where()

            def tick():
                for last in (False, True):
                    for ns in (1, 3):
                        st = State()
                        th = X(mk("this"))
                        s0 = ns - 1 if last else 0
                        if not last and ns == 1:
                            continue
                        write(st, th.stage.p, num(s0))
                        write(st, th.nstages.p, num(ns))
                        r = Run(P, fn, [], state=st, ctx=ctx)
                        tag = "%s %s of %d" % (cls, "last stage" if last else "stage", ns)
                        s1 = num(0 if last else s0 + 1)
                        t1 = pl(th.t, th.dt) if last else th.t.p
                        ctx.eq("tick", tag + " stage", r[th.stage], s1, W, "stage")
                        ctx.eq("tick", tag + " step", r[th.step], pl(th.step, ONE if last else ZERO), W, "step")
                        ctx.eq("tick", tag + " time", r[th.t], t1, W, "time")
                        ctx.eq("tick", tag + " timestamp", r[th.timestamp], pl(th.timestamp, ONE), W, "timestamp")
                        tc = t1 if imp else pl(t1, tm(th.dt, th.drk[s1]))
                        for dur in (0, 2):
                            c = lambda x: conc(x, th, dur)
                            old = th.ramp_next if imp else None
                            want = th.ramp if dur == 0 else (old if imp else ramp(tc, dur))
                            ctx.eq("tick", "%s ramp, duration %d" % (tag, dur), c(r[th.ramp]), want, W, "ramp")
                            if imp:
                                ctx.eq("tick", "%s next ramp, duration %d" % (tag, dur), c(r[th.ramp_next]), th.ramp_next if dur == 0 else ramp(pl(t1, th.dt), dur), W, "next ramp")
            ctx.guard("tick", cls, W, tick)
        for nm, w in (("GetTimeAtCurrentStage", lambda h: h.t.p if imp else pl(h.t, tm(h.dt, h.drk[h.stage]))), ("GetTimeAtNextStage", lambda h: pl(h.t, h.dt)),
                      ("GetRamp", lambda h: h.ramp), ("GetRampNext", lambda h: h.ramp_next), ("GetStep", lambda h: h.step), ("GetStage", lambda h: h.stage),
                      ("GetNumStages", lambda h: h.nstages), ("GetDT", lambda h: h.dt), ("GetTheta", lambda h: h.theta)):
            for fn in P.find(cls + "::" + nm)[:1]:
                ctx.guard("tick", cls + " " + nm, fn.where(), lambda: ctx.eq("tick", cls + " " + nm, Run(P, fn, [], ctx=ctx).retval(), w(X(mk("this"))), fn.where(), nm))
    for fn in P.find("ESSPRKStepper::UpdateState"):
        W = fn.where()

        def upd():
            e = X(mk("param", 0, "elt"))
            th = X(mk("this"))
            for ns in (1, 2, 3, 5, 8):
                for s in range(ns):
                    st = State()
                    write(st, th.stage.p, num(s))
                    write(st, th.nstages.p, num(ns))
                    r = Run(P, fn, ["elt"], state=st, ctx=ctx)
                    sd = e.data.state
                    for i in range(3):
                        want = pl(*[pl(tm(th.ark[s][k], sd[k].q(i, D)), tm(th.dt, th.brk[s][k], sd[k].solution(i, D))) for k in range(s + 1)])
                        last = s + 1 == ns
                        dst = sd[0] if last else sd[s + 1]
                        ctx.eq("combine", "%s stage %d of %d var %d" % (fn.psig[:1] and ("GN" if "GN::" in fn.psig else "SWE"), s, ns, i), r[dst.q(i, D)], want, W, "state handed to the next stage")
                        if not last:
                            for k in range(s + 1):
                                ctx.eq("combine", "%s stage %d of %d keeps stored stage %d var %d" % ("GN" if "GN::" in fn.psig else "SWE", s, ns, k, i), r[sd[k].q(i, D)], sd[k].q(i, D), W, "stored stage state")
        ctx.guard("combine", fn.psig[:60], W, upd, 120)


def split(ctx):
    P = ctx.prog("serial", "stepper")
    i = X(mk("param", 0, "in"))
    for fn in P.find("SecondStrangStepper::SecondStrangStepper", psig=lambda s: "StepperInput" in s)[:1]:
        W = fn.where()

        def f():
            op = lambda n, g: n.endswith("InitializeCoefficients")
            r = Run(P, fn, ["in"], ctx=ctx, opaque=op)
            ctx.eq("split", "first step size", r[r.this.first.dt], dv(i.dt, num(2)), W, "step size of the first stepper")
            ctx.eq("split", "second step size", r[r.this.second.dt], i.dt, W, "step size of the second stepper")
        ctx.guard("split", "constructor", W, f)
    for nm, w in (("GetStep", lambda h: h.second.step), ("GetTimeAtCurrentStage", None)):
        for fn in P.find("SecondStrangStepper::" + nm)[:1]:
            def f():
                h = X(mk("this"))
                imp = "t" in nm
                v = Run(P, fn, [], ctx=ctx).retval()
                want = w(h) if w else pl(h.second.t, tm(h.second.dt, h.second.drk[h.second.stage]))
                ctx.eq("split", nm, v, want, fn.where(), nm)
            ctx.guard("split", nm, fn.where(), f)


STAGE = ("stage_serial", "stage_ompi", "dispersive_correction_serial", "dispersive_correction_ompi")


def last(n):
    return n.split("::")[-1]


def drivers(ctx):
    for tu in ("serial", "ompi"):
        P = ctx.prog(tu)
        stp_pos = 2
        # ---- stages per step
        for fn in P.find_re(r"::step_(serial|ompi)$"):
            W = fn.where()
            who = "%s %s" % (tu, "::".join(fn.name.split("::")[:2]))

            def f():
                r, evs = E.tree(ctx, P, fn, opaque=lambda n, g: last(n) in STAGE or last(n) in ("ParseInput", "WriteOutput", "ParsingInput", "WritingOutput"),
                                event=lambda n: last(n) in STAGE)
                oc = [o for o in E.occs(evs) if last(o.name) in STAGE]
                got = []
                for o in oc:
                    lp = [l for l in o.loops]
                    if len(lp) != 1 or o.conds or E.is_search(lp[0]) or any(m.name == "master" or m.name == "single" for m in o.omp):
                        got.append((last(o.name), "irregular", str(o)))
                        continue
                    n = t.sub(lp[0].args[1], lp[0].args[0])
                    # the stepper the stage works with
                    stp = o.args[2]
                    ok = str(n) == str(stp) + ".nstages"
                    got.append((last(o.name).rsplit("_", 1)[0], "all" if ok else str(n), str(stp)))
                stpn = str(r.args[2].p)
                if "GN" in fn.name:
                    want = [("stage", "all", stpn + ".first"), ("dispersive_correction", "all", stpn + ".second"), ("stage", "all", stpn + ".first")]
                    rule = "split"
                else:
                    want = [("stage", "all", stpn)]
                    rule = "stages"
                ctx.ob("stages", who, got == want, W, "stages run per time step: %s, must be %s" % (got, want))
                if rule == "split":
                    ctx.ob("split", who + " order", got == want, W, "sub-steps per time step: %s, must be %s" % (got, want))
            ctx.guard("stages", who, W, f)
        # ---- one advance per stage
        for fn in P.find_re(r"::(stage|dispersive_correction)_(serial|ompi)$"):
            W = fn.where()
            who = "%s %s%s" % (tu, fn.name, " (GN)" if "GN::" in fn.psig and "GN" not in fn.name else "")

            def f():
                adv = lambda n: last(n) == "operator++" and "Stepper" in n
                r, evs = E.tree(ctx, P, fn, opaque=lambda n, g: adv(n) or (g is not fn and not P.reaches(g, adv, "adv")), event=adv)
                oc = [o for o in E.occs(evs) if last(o.name) == "operator++"]
                ok = len(oc) == 1 and not oc[0].loops and not oc[0].conds and str(oc[0].args[0]) == str(r.args[2].p)
                ctx.ob("advance", who, ok, oc[0].where() if oc else W, "advances of the stepper in one stage: %s" % ([(str(o), [str(l.args) for l in o.loops], [str(c[0])[:60] for c in o.conds]) for o in oc],))
            ctx.guard("advance", who, W, f)
        # ---- number of steps
        for fn in P.find_re(r"Simulation::Run$"):
            W = fn.where()
            cls = fn.d.get("cls") or ""
            who = "%s %s #%d" % (tu, fn.name, fn.line) + " " + str(fn.cls)[-60:]

            def f():
                r, evs = E.tree(ctx, P, fn, opaque=lambda n, g: last(n) in ("preprocessor_serial", "preprocessor_ompi", "step_serial", "step_ompi", "WriteFirstStep"),
                                event=lambda n: last(n) in ("step_serial", "step_ompi"))
                oc = [o for o in E.occs(evs) if last(o.name) in ("step_serial", "step_ompi")]
                n = str(t.sub(oc[0].loops[0].args[1], oc[0].loops[0].args[0])) if len(oc) == 1 and len(oc[0].loops) == 1 else None
                ok = n == "this.n_steps" and not oc[0].conds and not E.is_search(oc[0].loops[0]) and not any(m.name in ("master", "single") for m in oc[0].omp)
                ctx.ob("steps", who + " loop", ok, W, "steps executed: %s" % (n,))
            ctx.guard("steps", who, W, f)
        for fn in P.find_re(r"Simulation::(Simulation|OMPISimulation)$"):
            if not fn.params:
                continue
            W = fn.where()
            who = "%s ctor %s" % (tu, str(fn.cls)[-60:])

            def f():
                op = lambda n, g: g is not None and g is not fn and not last(n).startswith("operator") and not n.startswith("std::")
                r = Run(P, fn, ["input"], ctx=ctx, opaque=op)
                v = r[r.this.n_steps]
                s = str(v)
                import re
                while True:
                    m = re.fullmatch(r"(?:toint|cast<[^>]*>)\((.*)\)", s)
                    if not m:
                        break
                    s = m.group(1)
                m = re.fullmatch(r"ceil\((.*)\)", s)
                x = m and (re.fullmatch(r"(.*)\.run_time\*(.*)\.dt\^-1", m.group(1)) or re.fullmatch(r"(.*)\.dt\^-1\*(.*)\.run_time", m.group(1)))
                ok = bool(x) and x.group(1) == x.group(2) and x.group(1).endswith("stepper_input")
                ctx.ob("steps", who + " count", ok, W, "number of steps is %s" % s[:200])
            ctx.guard("steps", who, W, f)

