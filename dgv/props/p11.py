"""P11: the distributed drivers do the serial drivers' work, in an order no dependency can tell apart."""
import re
from collections import Counter
from .. import terms as t, sched
from ..effects import last
from .p09 import names, who, dkey, simloops

PAIRS = r"::(stage|dispersive_correction|preprocessor)_%s$"
SUB = re.compile(r"\*?sim_units\[[^\]]*\](\.discretization|\.problem_input|)")


def cond(occ):
    out = set()
    for c, s in occ.conds:
        x = str(c)
        if "ball_ex" in x or "search" in x:
            continue            # leaving an iteration early
        x = re.sub(r"\*?sim_units\[[^\]]*\]\.problem_input", "problem_specific_input", x)
        out.add((x, s))
    return tuple(sorted(out))


def fam(ent):
    return {"edge_interface": "interface", "edge_boundary": "boundary", "edge_distributed": "distributed"}.get(ent, ent)


def iters(it):
    """loops that are neither over sub-domains nor over the entity itself"""
    return tuple(str(l.args[1]) for l in it.occ.loops if len(l.args) > 1 and not any(l is m for m in simloops(it)) and ".data" not in str(l.args[1]) and "get<" not in str(l.args[1]))


def fields(items):
    """field -> list of (op, family, entity, index, item number, condition, item)"""
    d = {}
    for n, i in enumerate(items):
        if i.kind == "leaf" and i.ent:
            for op, tag, ln, f in i.eff[0]:
                if op in "RWA" and isinstance(tag, str) and not tag.startswith("::"):
                    d.setdefault(tag, []).append((op, fam(i.ent), i.ent, dkey(i), n, cond(i.occ), i, ln, f))
        elif i.kind == "tick":
            d.setdefault("#clock", []).append(("W", "element", "element", 0, n, cond(i.occ), i, i.occ.ev.line, i.occ.ev.file))
    # what depends on the clock
    for f in list(d):
        if re.match(r"(ESSPRK|Implicit|SecondStrang)Stepper::(stage|t|step)$", f):
            for x in d.pop(f):
                d.setdefault("#clock", []).append(x)
    if "#clock" in d:
        d["#clock"].sort(key=lambda x: x[4])
    return d


def clash(a, b):
    if a[0] == "R" and b[0] == "R" or a[0] == "A" and b[0] == "A":
        return False
    return a[1] == "element" or b[1] == "element" or (a[2], a[3]) == (b[2], b[3])


def normal(ops):
    """Foata normal form of the sequence of accesses to one field (reads in one step as a set)"""
    lev, seq = [], []
    out = set()
    for o in ops:
        l = 0
        for p, m in zip(seq, lev):
            if m >= l and clash(p, o):
                l = m + 1
        if seq and any(m == l and (p[0], p[2], p[3], p[5]) == (o[0], o[2], o[3], o[5]) for p, m in zip(seq, lev)) and o[0] == "R":
            continue
        seq.append(o)
        lev.append(l)
        out.add((l, o[0], o[2], o[3], o[5]))
    return out


def near(ops):
    return "%s:%d" % (ops[0][8], ops[0][7]) if ops else ""


def isindex(P, field):
    """an integer or a container of integers: numbering, not part of the solution"""
    cls, nm = field.rsplit("::", 1)
    for tu in P.tus.values():
        for f in tu.fns.values():
            for x in P.nodes(f):
                if x[0] == "mem" and x[4] == nm and x[7] == cls:
                    ty = tu.types[x[2]]
                    return bool(re.search(r"\b(unsigned int|int|unsigned long|long)\b", ty)) and not re.search(r"\bdouble\b", ty)
    return False


def run(ctx):
    ctx.rule("same", "the distributed and the serial driver change the same fields of elements, interfaces and boundaries, equally often and under the same options", 200)
    ctx.rule("order", "every field is read, changed and accumulated in an equivalent order in both drivers", 100)
    ctx.rule("sum", "a quantity of an element that its edges add to is cleared before, and not used until all of them have added", 20)
    ctx.rule("fresh", "no stage uses a value before computing it, unless the preprocessor or the previous stage left it there", 10)
    PS, PO = ctx.prog("serial", "stepper"), ctx.prog("ompi", "stepper")
    out = {}
    for P, tag in ((PS, "serial"), (PO, "ompi")):
        S = sched.Sched(ctx, P)
        for fn in P.find_re(PAIRS % tag):
            k = who(fn).replace("_" + tag, "")
            def go(fn=fn, k=k, S=S):
                out[(tag, k)] = (fn, S.run(fn, names(fn))[1])
            ctx.guard("same", k + " " + tag, fn.where(), go, 120)
    fl = {k: (fn, fields(items)) for k, (fn, items) in out.items()}
    for (tag, k), (fn, A) in sorted(fl.items(), key=lambda x: x[0]):
        if tag == "serial":
            if ("ompi", k) not in fl:
                ctx.ob("same", k, None, fn.where(), "no distributed counterpart found")
                continue
            ctx.guard("same", k, fn.where(), lambda: compare(ctx, PO, k, fn, A, fl[("ompi", k)]), 120)
        if "preprocessor" not in k:
            ctx.guard("sum", k + " " + tag, fn.where(), lambda: sums(ctx, k + " " + tag, fn, A), 60)
            ctx.guard("fresh", k + " " + tag, fn.where(), lambda: fresh(ctx, k, tag, fn, A, fl, out), 60)


def compare(ctx, P, k, fn, A, other):
    gn, B = other
    pre = "preprocessor" in k
    for f in sorted(set(A) | set(B)):
        a = [x for x in A.get(f, ()) if x[1] != "distributed"]
        b = [x for x in B.get(f, ()) if x[1] != "distributed"]
        wa = [x for x in a if x[0] != "R"]
        wb = [x for x in b if x[0] != "R"]
        if not wa and not wb:
            continue
        # working storage only one of the two drivers has
        if not a and not (wa and f in B) or not b and not (wb and f in A):
            continue
        key = lambda x: (x[0], x[2], x[3], x[5], iters(x[6]))
        ca, cb = Counter(map(key, wa)), Counter(map(key, wb))
        if pre:
            ca, cb = Counter(set(ca)), Counter(set(cb))
        if ca != cb and isindex(P, f):
            continue
        d1, d2 = ca - cb, cb - ca
        msg = ""
        w = fn.where()
        if d1:
            x = sorted(d1, key=str)[0]
            w = next((near([y]) for y in wa if key(y) == x), w)
            msg += "%s %s %s only in the serial driver%s; " % (f, {"W": "changed by", "A": "accumulated by"}[x[0]], x[1], " (under %s)" % (x[3],) if x[3] else "")
        if d2:
            x = sorted(d2, key=str)[0]
            w = next((near([y]) for y in wb if key(y) == x), w)
            msg += "%s %s %s only in the distributed driver%s; " % (f, {"W": "changed by", "A": "accumulated by"}[x[0]], x[1], " (under %s)" % (x[3],) if x[3] else "")
        ctx.ob("same", "%s %s" % (k, f), not msg, w, msg)
        if msg or pre:
            continue
        na, nb = normal(a), normal(b)
        if na != nb:
            x = sorted(na ^ nb, key=str)[0]
            src = next((y for y in (b if x in nb else a) if (y[0], y[2], y[3], y[5]) == x[1:]), None)
            msg = "%s is %s by %s at another point of the sequence in the %s driver" % (f, {"W": "changed", "A": "accumulated", "R": "read"}[x[1]], x[2], "distributed" if x in nb else "serial")
            w = near([src]) if src else w
        ctx.ob("order", "%s %s" % (k, f), not msg, w, msg)


def sums(ctx, k, fn, A):
    for f, ops in sorted(A.items()):
        if f == "#clock" or not any(o[0] == "A" and o[1] != "element" for o in ops) or not any(o[0] == "W" and o[1] == "element" for o in ops):
            continue
        bad, state, w = "", "stale", fn.where()
        for o in ops:
            if o[1] == "element":
                if o[0] == "W":
                    if state == "open" and bad == "" and not any(p[0] == "R" and p[1] == "element" and p[4] == o[4] for p in ops):
                        bad, w = "overwritten by an element routine although edges have added to it and nobody has used it", near([o])
                    state = "clear"
                elif o[0] == "R" and state in ("clear", "open"):
                    # read within the routine that cleared it
                    if any(p[0] == "W" and p[4] == o[4] for p in ops):
                        continue
                    if any(p[0] == "A" and p[1] != "element" and p[4] > o[4] and not any(q[0] == "W" and q[1] == "element" and o[4] < q[4] < p[4] for q in ops) for p in ops):
                        bad, w = "used before all edges have added to it", near([o])
                    state = "used"
            elif o[0] == "A":
                if state == "stale" and not bad:
                    bad, w = "added to by %s before it was cleared" % o[2], near([o])
                elif state == "used" and not bad:
                    bad, w = "added to by %s after it was used" % o[2], near([o])
                else:
                    state = "open"
        if state == "open" and not bad:
            bad, w = "edges add to it but no element routine uses the sum", near([o for o in ops if o[0] == "A"])
        ctx.ob("sum", "%s %s" % (k, f), not bad, w, bad and "%s is %s" % (f, bad))


def fresh(ctx, k, tag, fn, A, fl, out):
    root = k.rsplit(" ", 1)[0]
    pk = [v for (tg, kk), v in fl.items() if tg == tag and kk.rsplit(" ", 1)[0] == root and "preprocessor" in kk]
    if not pk:
        ctx.ob("fresh", k, None, fn.where(), "no preprocessor found")
        return
    pw = {f for p, F in pk for f, x in F.items() if any(o[0] in "WA" for o in x)}
    n = 0
    for f, ops in sorted(A.items()):
        ws = [o for o in ops if o[0] in "WA" and o[1] != "distributed"]
        if f == "#clock" or not ws:
            continue
        n += 1
        if f in pw:
            continue
        first = min(o[4] for o in ws)
        early = [o for o in ops if o[0] == "R" and o[4] < first and o[1] != "distributed"]
        if early:
            ctx.ob("fresh", "%s %s %s" % (k, tag, f), False, near(early), "%s is read by %s before this stage computes it at %s, and nothing initialised it" % (f, early[0][2], near(ws)))
    ctx.count("fields", n)
    ctx.ob("fresh", "%s %s" % (k, tag), True, fn.where(), "")
