"""The schedule of a driver routine: the abstract evaluation of the routine with
every work routine replaced by its effect summary.  A work routine is any
function or lambda that (transitively) contains no mesh traversal, no
communication phase, no OpenMP construct and no advance of the time stepper."""
import re
from . import terms as t
from .interp import Interp, Ev, Lam, Loc, T, Undecided, num, mk
from .effects import Effects, COMM, last
from .spec import Run
from . import events as E

TRAV = re.compile(r"(^|::)CallForEach\w*$")
CAPI = re.compile(r"^(MPI_|Mat[A-Z]|Vec[A-Z]|KSP|IS[A-Z]|Petsc|PC[A-Z])")
PETSCLOG = re.compile(r"^(PetscLog|MPI_Barrier|MPI_Wtime|PetscError|PetscPush|PetscPop)")


class Item(object):
    """one unit of the schedule"""
    __slots__ = ("kind", "name", "ent", "eff", "occ", "args", "fn")

    def __init__(self, kind, name, ent, eff, occ, args, fn):
        self.kind, self.name, self.ent, self.eff, self.occ, self.args, self.fn = kind, name, ent, eff, occ, args, fn

    def __repr__(self):
        return "%s %s(%s)" % (self.kind, last(self.name), self.ent)


class Sched(object):
    def __init__(self, ctx, prog):
        self.ctx, self.P = ctx, prog
        self.E = Effects(prog)
        self._st = {}

    def struct(self, fn):
        k = (fn.tu.name, fn.id)
        if k in self._st:
            return self._st[k]
        r = bool(TRAV.search(fn.name))
        for f in self.P.closure(fn):
            if r:
                break
            for n, g, node in self.P.callees(f):
                l = last(n)
                if TRAV.search(n) or (l in COMM and "ommunicator" in n) or (l == "operator++" and "Stepper" in n):
                    r = True
                    break
            if not r:
                for x in self.P.nodes(f):
                    if x[0] in ("omp", "ostmt"):
                        r = True
                        break
        self._st[k] = r
        return r

    def relay(self, I, st, fn, frame):
        """a lambda that calls or hands on a function object it captured"""
        if frame is None:
            return False
        own, ns, todo = set(), [], [fn]
        while todo:
            f = todo.pop()
            own |= {p[0] for p in f.params}
            for x in self.P.nodes(f):
                ns.append(x)
                if x[0] == "decl":
                    own |= {d[0] for d in x[2]}
                elif x[0] == "lambda":
                    todo.extend(f.tu.lambdas.get(x[3], ()))
        for x in ns:
            if x[0] == "ref" and x[3] not in own:
                b = frame.look(x[3])
                if b is not None and islam(I, b, st):
                    return True
        return False

    def run(self, fn, names=None, **kw):
        S = self

        def hook(I, e, fr, st, name, g, obj, this, argn):
            l = last(name)
            if l == "operator++" and "Stepper" in name:
                ts = [this if this is not None else tmq(I, obj, st)]
                st.events.append(Ev("ev", name, tuple(ts), fr.fn.file, e[1], extra=("tick", None, None)))
                return I.opaque_result(e, fr, st, name, ts)
            if l in COMM and "ommunicator" in name:
                vals = [I.ev(a, fr, st) for a in argn]
                ts = [this] + [v.path if isinstance(v, Loc) else tmq(I, v, st) for v in vals]
                # constants held in variables
                if isinstance(vals[0], Loc):
                    ts[1] = tmq(I, I.rv(vals[0], st), st)
                st.events.append(Ev("ev", name, tuple(ts), fr.fn.file, e[1], extra=("comm", None, None)))
                return I.opaque_result(e, fr, st, name, ts)
            if g is None:
                l = last(name)
                if CAPI.search(name):
                    vals = [I.ev(a, fr, st) for a in argn]
                    ts = [v.path if isinstance(v, Loc) else tmq(I, v, st) for v in vals]
                    st.events.append(Ev("ev", name, tuple(ts), fr.fn.file if fr.fn else "", e[1], extra=("capi", None, None)))
                    return NotImplemented
                return NotImplemented
            if S.struct(g):
                return NotImplemented
            if g.lam:
                lv = I.rv(obj, st) if isinstance(obj, Loc) else obj
                if isinstance(lv, Lam) and S.relay(I, st, g, lv.frame):
                    return NotImplemented
            else:
                for a in argn:
                    if any(isinstance(x, list) and x and x[0] == "lambda" for x in flatn(a)):
                        return NotImplemented
                    if a and a[0] in ("ref", "cast", "copy", "call"):
                        refs = [x for x in flatn(a) if x[0] == "ref" and x[5] != "g"]
                        if len(refs) == 1 and islam(I, fr.look(refs[0][3]), st):
                            return NotImplemented
            vals = [I.ev(a, fr, st) for a in argn]
            lv = I.rv(obj, st) if isinstance(obj, Loc) else obj
            lfr = lv.frame if isinstance(lv, Lam) else None
            ts = [] if obj is None or lfr is not None else [this if this is not None else tmq(I, obj, st)]
            ts += [v.path if isinstance(v, Loc) else tmq(I, v, st) for v in vals]
            S.leaf(I, g, name, fr, lfr, st, vals, ts, fr.fn.file, e[1])
            return I.opaque_result(e, fr, st, name, ts)

        def lamhook(I, g, lam, fr, st, line):
            if S.struct(g) or S.relay(I, st, g, lam.frame):
                return False
            loc = fr.env.get(g.params[0][0])
            if not isinstance(loc, Loc):
                return False
            S.leaf(I, g, g.name, fr, lam.frame, st, [loc], [loc.path], g.file, g.line)
            return True

        class I2(Interp):
            def __init__(self, *a, **k):
                Interp.__init__(self, *a, **k)
                self.lamhook = lamhook

            def assign(self, l, r, st, fr, line):
                if isinstance(l, Loc) and shared(l.path):
                    st.events.append(Ev("ev", "#write", (l.path,), fr.fn.file if fr.fn else "", line, extra=("write", None, None)))
                return Interp.assign(self, l, r, st, fr, line)

        r = SRun(self.P, fn, names, I2, ctx=self.ctx, hook=hook, **kw)
        if r.st is None:
            return r, []
        out = []
        for o in E.occs(r.st.events):
            ex = o.ev.extra
            if o.name.startswith("#omp"):
                out.append(Item("omp", o.name[5:], None, [], o, o.args, None))
            elif isinstance(ex, tuple) and ex and ex[0] in ("leaf", "comm", "tick", "capi", "write"):
                if ex[0] == "leaf":
                    g = ex[1]
                    cm, no, cap = ex[2]
                    eff = self.E.of(g)
                    out.append(Item("leaf", g.name, entity(o.args), (eff, cm, no, cap), o, o.args, g))
                else:
                    out.append(Item(ex[0], o.name, None, None, o, o.args, None))
            elif o.name != "<<":
                out.append(Item("other", o.name, None, None, o, o.args, None))
        return r, out

    def leaf(self, I, g, name, fr, lfr, st, vals, ts, file, line):
        eff = self.E.of(g)
        if not any(x[0] in ("W", "A", "S", "G", "C", "X") for x in eff):
            return
        cm, cap = [], {}
        for op, tag, ln, f in eff:
            if op in ("S", "G"):
                v = None
                if tag[0] == "c":
                    v = num(tag[1])
                elif tag[0] == "P" and tag[1] < len(vals):
                    v = tmq(I, I.rv(vals[tag[1]], st), st)
                elif tag[0] == "V":
                    b = (lfr or fr).look(tag[1])
                    v = tmq(I, I.rv(b, st), st) if b is not None else None
                cm.append((op, v, ln, f))
            elif isinstance(tag, tuple) and tag[0] == "V" and tag[1] not in cap:
                b = (lfr or fr).look(tag[1])
                cap[tag[1]] = b.path if isinstance(b, Loc) else None
        st.events.append(Ev("ev", name, tuple(ts), file, line, extra=("leaf", g, (cm, len(ts) - len(vals), cap))))


def flatn(a):
    out, todo = [], [a]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                out.append(x)
            todo.extend(y for y in x if isinstance(y, list))
    return out


def islam(I, b, st):
    for k in range(4):
        if isinstance(b, Lam):
            return True
        if not isinstance(b, Loc):
            return False
        try:
            n = I.rv(b, st)
        except Undecided:
            return False
        if n is b:
            return False
        b = n
    return False


class SRun(Run):
    def __init__(self, prog, fn, names, cls, ctx=None, **kw):
        import dgv.spec as sp
        old = sp.Interp
        sp.Interp = cls
        try:
            Run.__init__(self, prog, fn, names, ctx=ctx, **kw)
        finally:
            sp.Interp = old


def tmq(I, v, st):
    try:
        return I.tm(v, st)
    except Undecided:
        return mk("unknown")


def shared(p):
    """a location outside the routine's own locals"""
    x = p
    while x.op not in ("param", "this", "glob", "local", "bound", "new") and x.args and isinstance(x.args[0], T):
        x = x.args[0]
    return x.op in ("param", "this", "glob")


KINDS = (("edge_interfaces", "edge_interface"), ("edge_boundaries", "edge_boundary"), ("edge_distributeds", "edge_distributed"),
         ("distributed_boundaries", "distributed"), ("interfaces", "interface"), ("boundaries", "boundary"), ("elements", "element"))


def entity(args):
    for a in args:
        s = str(a)
        for k, v in KINDS:
            if ".%s" % k in s and "[" in s.split("." + k, 1)[1]:
                return v
    return None
