"""P09: the message exchange protocol in the distributed drivers."""
from .. import terms as t, sched
from ..effects import last

DRIVERS = r"::(stage_ompi|dispersive_correction_ompi|preprocessor_ompi)$"


def who(fn):
    return "%s%s" % ("::".join(fn.name.split("::")[:2]), " (within GN)" if "GN::" in fn.psig and not fn.name.startswith("GN") else "") + " " + last(fn.name)


def local_conds(o):
    """conditions that differ between ranks or sub-domains"""
    return [c for c, side in o.conds if "sim_units[" in str(c) or "discretization" in str(c)]


def csig(o):
    return tuple(sorted((str(c), s) for c, s in o.conds))


def simloops(it):
    """loops over sub-domains around an item: those whose counter selects the element of sim_units used"""
    out = []
    for l in it.occ.loops:
        if len(l.args) < 2:
            continue
        hi = str(l.args[1])
        if hi.endswith("end_sim_id") or "sim_units.#size" in hi:
            out.append(l)
    return out


def scope(it):
    """('own', ) the thread's own sub-domains, ('all',) every sub-domain, or None"""
    ls = simloops(it)
    if len(ls) != 1:
        return None
    lo, hi = str(ls[0].args[0]), str(ls[0].args[1])
    m = any(x.name in ("master", "single") for x in it.occ.omp)
    if lo == "begin_sim_id" and hi == "end_sim_id":
        return "own" if not m else None
    if lo == "0" and hi.endswith("sim_units.#size"):
        return "all" if m else None
    return None


NAMES = ["sim_units", "global_data", "stepper", "begin_sim_id", "end_sim_id"]


def names(fn):
    """canonical names for the arguments of a driver"""
    out = []
    ints = 0
    for pid, nm, ty in fn.params:
        s = fn.tu.types[ty]
        if s.startswith("std::vector") or "vector" in s:
            out.append("sim_units")
        elif "unsigned int" in s:
            out.append("begin_sim_id" if ints == 0 else "end_sim_id")
            ints += 1
        elif "Stepper" in s:
            out.append("stepper")
        elif "GlobalData" in s:
            out.append("global_data")
        else:
            out.append(nm)
    return out


def run(ctx):
    ctx.rule("pairs", "receives are posted, messages sent and both completed in matching rounds, for every sub-domain of the thread, under identical rank-independent conditions", 14)
    ctx.rule("deadlock", "no sub-domain waits for messages before all sub-domains of the thread have sent theirs", 7)
    ctx.rule("filled", "the send buffer of every rank boundary is filled before the send of its round and left alone until the send completed", 7)
    ctx.rule("read", "received data are read only between completion of the receive and the next posting, by every rank boundary", 7)
    P = ctx.prog("ompi", "stepper")
    S = sched.Sched(ctx, P)
    for fn in P.find_re(DRIVERS):
        W = fn.where()
        ctx.guard("pairs", who(fn), W, lambda: driver(ctx, P, S, fn), 120)


def driver(ctx, P, S, fn):
    W = fn.where()
    w = who(fn)
    r, items = S.run(fn, names(fn))
    ctx.count("schedule items", len(items))
    comms = {}
    nd = len({dkey(i) for i in items if i.ent == "distributed" or i.ent == "edge_distributed"})
    for pos, it in enumerate(items):
        if it.kind == "comm":
            c = str(it.args[1])
            comms.setdefault(c, []).append((pos, last(it.name), it))
        elif it.kind == "leaf":
            for op, c, ln, f in it.eff[1]:
                comms.setdefault(str(c), []).append((pos, op, it))
    kinds = {}
    for it in items:
        if it.kind == "leaf" and it.ent in ("distributed", "edge_distributed"):
            kinds.setdefault(it.ent, set()).add(dkey(it))
    for c, ev in sorted(comms.items()):
        inst = "%s exchange %s" % (w, c)
        get = lambda n: [x for x in ev if x[1] == n]
        R, SA, WR, WS = get("ReceiveAll"), get("SendAll"), get("WaitAllReceives"), get("WaitAllSends")
        # ---------------- pairing
        bad = []
        n = len(SA)
        if not (len(R) == len(WR) == len(WS) == n and n > 0):
            bad.append("%d receives posted, %d sends started, %d receives completed, %d sends completed" % (len(R), n, len(WR), len(WS)))
        else:
            for k in range(n):
                pr, ps, pw, pq = R[k][0], SA[k][0], WR[k][0], WS[k][0]
                nxt = min(R[k + 1][0], SA[k + 1][0]) if k + 1 < n else 1 << 30
                if not pr < pw:
                    bad.append("round %d: receives are completed at %s before they are posted at %s" % (k, WR[k][2].occ.where(), R[k][2].occ.where()))
                if not ps < pq:
                    bad.append("round %d: sends are completed before they are started" % k)
                if not ps < pw:
                    bad.append("round %d: waits for messages before sending its own (%s)" % (k, WR[k][2].occ.where()))
                if not max(pw, pq) < nxt:
                    bad.append("round %d: the next round starts before this one is complete" % k)
                sc = {scope(x[2]) for x in (R[k], SA[k], WR[k], WS[k])}
                if len(sc) != 1 or None in sc:
                    bad.append("round %d: not performed for every sub-domain alike: %s" % (k, [(x[1], scope(x[2]), [str(l.args[1]) for l in x[2].occ.loops if len(l.args) > 1]) for x in (R[k], SA[k], WR[k], WS[k])]))
                cs = [set(csig(x[2].occ)) for x in (R[k], SA[k], WR[k], WS[k])]
                if cs[0] != cs[1] or not cs[2] <= cs[0] or not cs[3] <= cs[1]:
                    bad.append("round %d: posted, sent and completed under different conditions" % k)
                for x in (R[k], SA[k], WR[k], WS[k]):
                    if local_conds(x[2].occ):
                        bad.append("round %d: %s depends on a condition of the sub-domain: %s" % (k, x[1], str(local_conds(x[2].occ)[0])[:120]))
        ctx.ob("pairs", inst, not bad, SA[0][2].occ.where() if SA else W, "; ".join(bad))
        # ---------------- deadlock
        bad = []
        for s in SA:
            for x in WR:
                cl = [l for l in s[2].occ.loops if any(l is m for m in x[2].occ.loops) and (l in simloops(s[2]))]
                if cl:
                    bad.append("%s waits inside the loop over sub-domains that still has to send for later sub-domains" % x[2].occ.where())
        ctx.ob("deadlock", inst, not bad, WR[0][2].occ.where() if WR else W, "; ".join(bad))
        # ---------------- filled
        bad = []
        Sx, Gx = get("S"), get("G")
        lo = -1
        for k, s in enumerate(SA):
            rd = [y for y in Gx if k < len(WR) and WR[k][0] < y[0] < (R[k + 1][0] if k + 1 < len(R) else 1 << 30)]
            mine = [x for x in Sx if lo < x[0] < s[0]]
            ent = {x[2].ent for x in mine}
            need = set()
            for e in ent:
                need |= {(e, y) for y in kinds.get(e, ())}
            have = {(x[2].ent, dkey(x[2])) for x in mine}
            if not mine or need - have:
                bad.append("round %d: buffers of %s are not filled before the send at %s" % (k, "every rank boundary" if not mine else sorted(str(z) for z in need - have), s[2].occ.where()))
            for x in mine:
                more = set(csig(x[2].occ)) - set(csig(s[2].occ))
                # an option may switch writing and reading off together
                free = more and not local_conds(x[2].occ) and rd and all(more <= set(csig(y[2].occ)) for y in rd)
                if more and not free or scope(x[2]) != scope(s[2]):
                    bad.append("round %d: buffer filled under a condition or for a range the send does not have (%s)" % (k, x[2].occ.where()))
                if any(l in simloops(x[2]) for l in s[2].occ.loops) is False and scope(x[2]) is None:
                    bad.append("round %d: irregular loop" % k)
            end = WS[k][0] if k < len(WS) else s[0]
            for x in Sx:
                if s[0] < x[0] < end:
                    bad.append("round %d: %s refills the buffer while it is being sent" % (k, x[2].occ.where()))
            lo = end
        if not SA and Sx:
            bad.append("buffers are filled but never sent")
        tail = [x for x in Sx if x[0] > lo]
        if SA and tail:
            bad.append("%s fills the buffer after the last send" % tail[0][2].occ.where())
        ctx.ob("filled", inst, not bad, Sx[0][2].occ.where() if Sx else W, "; ".join(bad))
        # ---------------- read
        bad = []
        for k, x in enumerate(WR):
            end = R[k + 1][0] if k + 1 < len(R) else 1 << 30
            mine = [y for y in Gx if x[0] < y[0] < end]
            ent = {y[2].ent for y in mine}
            need = set()
            for e in ent:
                need |= {(e, z) for z in kinds.get(e, ())}
            have = {(y[2].ent, dkey(y[2])) for y in mine}
            if not mine or need - have:
                bad.append("round %d: messages of %s are not used after completion at %s" % (k, "any rank boundary" if not mine else sorted(str(z) for z in need - have), x[2].occ.where()))
        for y in Gx:
            ok = any(WR[k][0] < y[0] < (R[k + 1][0] if k + 1 < len(R) else 1 << 30) for k in range(len(WR)))
            if not ok:
                bad.append("%s reads the buffer outside a completed receive" % y[2].occ.where())
        for y in Gx:
            # the wait must dominate the read: same or weaker conditions, the same scope
            cw = [x for x in WR if x[0] < y[0]]
            if cw and (set(csig(cw[-1][2].occ)) - set(csig(y[2].occ))):
                bad.append("%s reads under weaker conditions than the receive" % y[2].occ.where())
            if cw and scope(cw[-1][2]) != scope(y[2]):
                bad.append("%s reads for other sub-domains than were completed" % y[2].occ.where())
        ctx.ob("read", inst, not bad, Gx[0][2].occ.where() if Gx else W, "; ".join(dict.fromkeys(bad)))


def dkey(it):
    """which of the container's types"""
    import re
    for a in it.args:
        m = re.search(r"get<(?:.*?), (\d+)>\[", str(a))
        if m:
            return int(m.group(1))
    return None
