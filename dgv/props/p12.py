"""P12: thread teams of the distributed drivers: shared state, barriers, collectives, division of work."""
import re
from .. import terms as t, sched
from ..effects import last
from ..evalt import Ev, NoEval
from .p09 import names, who, simloops, scope
from .p11 import fields

DRIVERS = r"::(stage_ompi|dispersive_correction_ompi|preprocessor_ompi|step_ompi)$"
BENIGN = re.compile(r"^(PetscLog|PetscPrintf|MPI_Comm_(rank|size)|omp_)")
COLL = re.compile(r"^(MPI_(Barrier|I?Bcast|I?Gatherv?|I?Scatterv?|I?All\w+|I?Reduce\w*|I?Ex?[Ss]can)|KSP(Solve|Create|SetUp|Destroy)|Mat(Create\w*|Assembly\w+|ZeroEntries|Destroy|SetUp)|Vec(Create\w*|Assembly\w+|Norm|Scatter(Begin|End|Create|Destroy)|Destroy|ZeroEntries|Dot|Sum))$")
RANKY = re.compile(r"locality_id|rank|MPI_Comm_rank|sim_units\[|thread|begin_sim_id|end_sim_id")
SHAREDCLS = re.compile(r"(GlobalData|Stepper)$")


def under(it):
    return any(x.name in ("master", "single", "critical") or str(x.name) in ("master", "single", "#omp:master", "#omp:single") for x in it.occ.omp)


def touches(it):
    """(reads, writes) of an item, over fields, the clock and shared objects; None if unknown"""
    R, W = set(), set()
    if it.kind == "tick":
        return {"#clock"}, {"#clock"}
    if it.kind == "comm":
        return {"comm"}, {"comm"}
    if it.kind == "leaf":
        for op, tag, ln, f in it.eff[0]:
            x = tag if isinstance(tag, str) else None
            if isinstance(tag, tuple) and tag[0] == "V":
                p = it.eff[3].get(tag[1])
                x = "path " + str(p) if p is not None and sched.shared(p) else None
            if x is None:
                continue
            if re.match(r".*Stepper::(stage|t|step)$", x):
                x = "#clock"
            if op == "R":
                R.add(x)
            elif op in "WA":
                W.add(x)
        return R, W
    return None


def at(it):
    return it.fn.where() if it.kind == "leaf" and it.fn is not None else it.occ.where()


def run(ctx):
    ctx.rule("shared", "state shared by the threads is changed by one thread only", 8)
    ctx.rule("own", "every other piece of work is done by each thread for its own range of sub-domains only", 8)
    ctx.rule("barrier", "the team meets at a barrier before the one-thread section and again before anyone goes on", 12)
    ctx.rule("meet", "barriers and collective operations are reached by every thread and every rank alike", 12)
    ctx.rule("divide", "the ranges of sub-domains of the threads are disjoint and cover all sub-domains", 1)
    P = ctx.prog("ompi", "stepper")
    S = sched.Sched(ctx, P)
    for fn in P.find_re(DRIVERS):
        ctx.guard("shared", who(fn), fn.where(), lambda: driver(ctx, P, S, fn), 180)
    ctx.guard("divide", "ranges", "", lambda: divide(ctx), 60)


def driver(ctx, P, S, fn):
    w = who(fn)
    r, items = S.run(fn, names(fn))
    bad_s, bad_o, n_own = [], [], 0
    for it in items:
        if it.kind == "omp":
            continue
        if it.kind in ("leaf", "comm"):
            sc = scope(it)
            if it.ent or it.kind == "comm":
                n_own += 1
                if sc is None:
                    ls = simloops(it)
                    bad_o.append((it, "%s at %s covers %s" % ("communication" if it.kind == "comm" else "work on the mesh", at(it),
                                  "every sub-domain but is not restricted to one thread" if ls and "size" in str(ls[0].args[1]) and not under(it) else "the range of one thread inside a one-thread section" if under(it) and ls else "an irregular range of sub-domains")))
        if under(it):
            continue
        if it.kind == "tick":
            bad_s.append((it, "the time stepper is advanced by every thread at %s" % it.occ.where()))
        elif it.kind == "capi" and not BENIGN.search(last(it.name)):
            bad_s.append((it, "%s is called by every thread at %s" % (last(it.name), it.occ.where())))
        elif it.kind == "write":
            p = str(it.args[0])
            if p.startswith("sim_units[it<") and scopeof(it) == "own":
                continue
            if p.startswith("sim_units["):
                bad_o.append((it, "%s is changed at %s by %s" % (p[:80], it.occ.where(), "every thread for all sub-domains" if not under(it) else "")))
            else:
                bad_s.append((it, "%s is changed by every thread at %s" % (p[:80], it.occ.where())))
        elif it.kind == "leaf":
            for op, tag, ln, f in it.eff[0]:
                if op not in "WA":
                    continue
                if isinstance(tag, str):
                    cls = tag.rsplit("::", 1)[0]
                    if SHAREDCLS.search(cls):
                        bad_s.append((it, "%s is changed by every thread at %s:%d" % (tag, f, ln)))
                    elif cls == "" and not re.search(r"cerr|cout|clog|mpi_comm|mpi_", tag):
                        bad_s.append((it, "global %s is changed by every thread at %s:%d" % (tag[2:], f, ln)))
                elif isinstance(tag, tuple) and tag[0] == "V":
                    p = it.eff[3].get(tag[1])
                    if p is not None and sched.shared(p) and not str(p).lstrip("*").startswith("sim_units[it<") and ".data" not in str(p):
                        bad_s.append((it, "%s is changed by every thread at %s:%d" % (str(p)[:80], f, ln)))
    # resizing and the like appear as plain calls on members of sim_units
    for it in items:
        if it.kind == "leaf" and not it.ent and not under(it):
            ls = simloops(it)
            if ls and scope(it) is None and "sim_units" in " ".join(str(a) for a in it.args) and any(o in "WA" for o, *_ in it.eff[0]):
                bad_o.append((it, "work on all sub-domains by every thread at %s" % it.occ.where()))
    ctx.ob("shared", w, not bad_s, at(bad_s[0][0]) if bad_s else fn.where(), "; ".join(dict.fromkeys(b for _, b in bad_s[:3])))
    ctx.ob("own", w, not bad_o, at(bad_o[0][0]) if bad_o else fn.where(), "; ".join(dict.fromkeys(b for _, b in bad_o[:3])))
    barriers(ctx, fn, w, items)


def scopeof(it):
    return scope(it)


def barriers(ctx, fn, w, items):
    """between two barriers, work of the team and a one-thread section must not depend on each other"""
    bad, nb, nm, w0 = [], 0, 0, None
    team, one = [], []
    # loops: a second pass over the body of an iteration appears as a repetition of its items
    for it in items:
        if it.kind == "omp":
            if "barrier" in it.name:
                nb += 1
                team, one = [], []
            continue
        if it.kind == "capi" and BENIGN.search(last(it.name)):
            continue
        if it.kind == "other":
            continue
        k = touches(it)
        m = under(it)
        if m:
            nm += 1
        against = team if m else one
        for p in against:
            if collide(p, it):
                bad.append("%s at %s and %s at %s are not separated by a barrier" % ("one-thread section" if not m else "work of the team", at(p), "one-thread section" if m else "work of the team", at(it)))
                w0 = w0 or at(it)
                break
        (one if m else team).append(it)
        if len(bad) > 2:
            break
    ctx.ob("barrier", w, not bad, w0 or fn.where(), "; ".join(bad))
    ctx.count("barriers", nb)
    bad = []
    for it in items:
        if it.kind == "omp" and "barrier" in it.name:
            if under(it):
                bad.append((it, "barrier at %s inside a one-thread section" % it.occ.where()))
            ls = [l for l in it.occ.loops if len(l.args) > 1 and RANKY.search(str(l.args[0]) + str(l.args[1])) or "sim_units" in str(l.args[1:2])]
            if ls:
                bad.append((it, "barrier at %s inside a loop over the sub-domains of a thread" % it.occ.where()))
        elif it.kind == "capi" and COLL.match(last(it.name)) or it.kind == "capi" and last(it.name) == "MPI_Barrier":
            ls = [l for l in it.occ.loops if len(l.args) > 1 and ("sim_units" in str(l.args[1]) or RANKY.search(str(l.args[0]) + str(l.args[1])))]
            if ls:
                bad.append((it, "%s at %s inside a loop over sub-domains" % (last(it.name), it.occ.where())))
        else:
            continue
        for c, s in it.occ.conds:
            if "ball_ex" in str(c) or "search" in str(c):
                # leaving an iteration early: the deciding value must be shared
                continue
            if RANKY.search(str(c)):
                bad.append((it, "%s at %s only if %s" % (last(it.name), it.occ.where(), str(c)[:100])))
    ctx.ob("meet", w, not bad, bad[0][0].occ.where() if bad else fn.where(), "; ".join(b for _, b in bad[:3]))


def collide(a, b):
    x, y = touches(a), touches(b)
    if x is None or y is None:
        # calls of the solver library and writes to shared objects: assume they depend on all work with effects
        o = y if x is None else x
        if o is None:
            return True
        return bool(o[1])
    return bool(x[1] & (y[0] | y[1]) or y[1] & (x[0] | x[1]))


def divide(ctx):
    from .. import events as E
    P = ctx.prog("ompi", "stepper")
    work = ("preprocessor_ompi", "step_ompi", "WriteFirstStep")
    for fn in P.find_re(r"OMPISimulation::Run$"):
        W = fn.where()
        inst = "%s" % (str(fn.cls) if fn.cls is not None else "")[-50:] + " " + str(next((n for n, g, x in P.callees(fn) if "::step_ompi" in n), ""))
        r, evs = E.tree(ctx, P, fn, opaque=lambda n, g: last(n) in work, event=lambda n: last(n) in work)
        oc = E.occs(evs)
        rng = set()
        for o in oc:
            if last(o.name) in ("preprocessor_ompi", "step_ompi"):
                if not any("parallel" in m.name for m in o.omp) or any(m.name in ("master", "single") for m in o.omp):
                    ctx.ob("divide", inst + " " + last(o.name), False, o.where(), "not executed by the whole team")
                rng.add((o.args[3], o.args[4]))
            elif last(o.name) == "WriteFirstStep":
                for l in o.loops:
                    rng.add((l.args[0], l.args[1]))
        if len({last(o.name) for o in oc} & set(work)) < 3:
            ctx.ob("divide", inst, None, W, "drivers not found")
            continue
        bad = ""
        if len(rng) != 1:
            bad = "different ranges for different pieces of work: %s" % sorted(map(str, rng))
        else:
            b, e = list(rng)[0]
            at = {}
            for x in t.subterms(b) + t.subterms(e):
                sx = str(x)
                if sx in ("omp_get_num_threads()", "omp_get_thread_num()") or sx.endswith("sim_units.#size"):
                    at[sx.split(".")[-1]] = x
            for T in range(1, 10):
                for n in range(0, 25):
                    got = []
                    for k in range(T):
                        m = {}
                        for nm, x in at.items():
                            m[x] = (T if "threads" in nm else k if "thread_num" in nm else n)
                        v = Ev(1, fixed=m)
                        try:
                            bb, ee = v.ev(b, {}), v.ev(e, {})
                        except NoEval:
                            bb = ee = None
                        if not (isinstance(bb, int) and isinstance(ee, int)):
                            ctx.ob("divide", inst, None, W, "range not evaluated: %s .. %s" % (b, e))
                            return
                        got += list(range(bb, ee))
                    if got != list(range(n)) and sorted(got) != list(range(n)) and not bad:
                        bad = "%d sub-domains over %d threads are worked on as %s" % (n, T, got)
        ctx.ob("divide", inst, not bad, W, bad)
