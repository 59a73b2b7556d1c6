"""Structured call trees: occurrences of calls with the loops, conditions and
OpenMP regions around them, and the order between two of them."""
from . import terms as t
from .interp import Interp, Ev


class Occ(object):
    __slots__ = ("name", "args", "loops", "conds", "omp", "pos", "ev")

    def __init__(self, name, args, loops, conds, omp, pos, ev):
        self.name, self.args, self.loops, self.conds, self.omp, self.pos, self.ev = name, args, loops, conds, omp, pos, ev

    def where(self):
        return self.ev.where()

    def short(self):
        return self.name.split("::")[-1]

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(str(a)[:60] for a in self.args))


NORETURN = ("throw", "MPI_Abort", "abort", "std::abort", "exit", "std::exit", "std::terminate", "_exit")


def fatal(kids):
    """does this branch end the program?"""
    if not kids:
        return False
    e = kids[-1]
    if e.kind == "ev":
        return e.name in NORETURN
    if e.kind == "if":
        return fatal(e.kids[0]) and fatal(e.kids[1])
    return False


def occs(evs, loops=(), conds=(), omp=(), pos=()):
    """every call event; pos records the way through the tree:
    (k,) position among siblings, ("if", side) branch, ("loop"|"omp", k)"""
    out = []
    for k, e in enumerate(evs):
        if e.kind == "ev":
            out.append(Occ(e.name, e.args, loops, conds, omp, pos + ((k, e),), e))
        elif e.kind == "if":
            f0, f1 = fatal(e.kids[0]), fatal(e.kids[1])
            out += occs(e.kids[0], loops, conds + (((e.args[0], True),) if not f1 else ()), omp, pos + ((k, e), ("then", e)))
            out += occs(e.kids[1], loops, conds + (((e.args[0], False),) if not f0 else ()), omp, pos + ((k, e), ("else", e)))
        elif e.kind == "loop":
            out += occs(e.kids, loops + (e,), conds, omp, pos + ((k, e),))
        elif e.kind == "omp":
            out.append(Occ("#omp " + e.name, e.args, loops, conds, omp, pos + ((k, e),), e))
            out += occs(e.kids, loops, conds, omp + (e,), pos + ((k, e),))
        else:
            out += occs(e.kids, loops, conds, omp, pos + ((k, e),))
    return out


def exclusive(a, b):
    """the two lie on different sides of one branch"""
    for x, y in zip(a.pos, b.pos):
        if x[0] != y[0]:
            return x[0] in ("then", "else") and y[0] in ("then", "else") and x[1] is y[1]
        if x[1] is not y[1]:
            return False
    return False


def common_loops(a, b):
    return [l for l in a.loops if any(l is m for m in b.loops)]


def before(a, b):
    """a comes before b in (one iteration of) the innermost common loop; None if exclusive"""
    for x, y in zip(a.pos, b.pos):
        if x[0] != y[0]:
            if x[0] in ("then", "else"):
                return None
            return x[0] < y[0]
    return False


def is_search(l):
    return l.name in ("search", "while")


def search_loops(o):
    return [l for l in o.loops if is_search(l)]


def tree(ctx, prog, fn, names=None, opaque=None, event=None, **kw):
    from .spec import Run
    r = Run(prog, fn, names, ctx=ctx, opaque=opaque, event=event, **kw)
    if r.st is None:
        return r, []
    return r, r.st.events
