"""Value-graph dataflow over the resolved program.

A structured forward dataflow analysis: every storage location is mapped to a
hash-consed term (gated SSA: joins are phi terms, loops are summarised as
pointwise maps, sums or folds), calls inside the repository are inlined, calls
outside it are interpreted terms or opaque applications.  Nothing of the
program is executed and no solver is used; the product is (a) a store of value
terms at function exit and (b) a structured tree of the calls ("events") made.
"""
import math
import re
from fractions import Fraction

from . import terms as t
from .terms import T, mk, num, ZERO, ONE, TRUE, FALSE
from .load import AnalysisBroken, rel

class Undecided(Exception):
    pass

_uid = [0]

def uid():
    _uid[0] += 1
    return _uid[0]

# ------------------------------------------------------------------ values
class Loc(object):
    __slots__ = ("path", "ty")

    def __init__(self, path, ty=""):
        self.path = path
        self.ty = ty

    def __repr__(self):
        return "Loc(%s)" % self.path

class Mat(object):
    __slots__ = ("rows", "cols", "f")

    def __init__(self, rows, cols, f):
        self.rows = rows
        self.cols = cols
        self.f = f

    def isvec(self):
        return self.rows is ONE or self.cols is ONE

    def at(self, k):
        if self.cols is ONE:
            return self.f(k, ZERO)
        if self.rows is ONE:
            return self.f(ZERO, k)
        return self.f(k, ZERO)

class Lam(object):
    __slots__ = ("lid", "frame", "opid")

    def __init__(self, lid, frame, opid):
        self.lid = lid
        self.frame = frame
        self.opid = opid

def targs(s):
    """the template arguments of a class name"""
    i = s.index("<") + 1
    out, d, cur = [], 0, ""
    for c in s[i:]:
        if c == "<":
            d += 1
        elif c == ">":
            if d == 0:
                break
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out


def constant(x):
    """value of a term without variables, or None"""
    v = t.numval(x)
    if v is not None:
        return float(v)
    bad = []

    def g(y):
        if y.op not in ("poly", "P", "num") and not (y.op == "app" and y.args[0] in ("sqrt", "abs", "max", "min", "ceil", "floor")):
            bad.append(y)
    t.walk(x, g)
    if bad:
        return None
    from . import evalt
    try:
        v = evalt.Ev(0).num(x, {})
    except Exception:
        return None
    return float(v)

class Struct(object):
    """by-value snapshot of a class object"""
    __slots__ = ("state", "path")

    def __init__(self, state, path):
        self.state = state
        self.path = path

class W(object):
    __slots__ = ("accs", "val", "pats")

    def __init__(self, accs, val, pats=()):
        self.accs = accs
        self.val = val
        self.pats = pats  # tuple of (it term, lo, hi)

class State(object):
    __slots__ = ("logs", "events")

    def __init__(self):
        self.logs = {}
        self.events = []

    def copy(self):
        s = State()
        s.logs = dict(self.logs)
        s.events = list(self.events)
        return s

    def freeze(self):
        s = State()
        s.logs = dict(self.logs)
        return s

class Frame(object):
    __slots__ = ("tu", "env", "parent", "this", "thisty", "fn", "depth")

    def __init__(self, tu, parent=None, this=None, fn=None, depth=0):
        self.tu = tu
        self.env = {}
        self.parent = parent
        self.this = this
        self.fn = fn
        self.depth = depth

    def look(self, i):
        f = self
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = f.parent
        return None

class Ev(object):
    """event tree node: kind in ev/if/loop/omp"""
    __slots__ = ("kind", "name", "args", "file", "line", "kids", "extra")

    def __init__(self, kind, name="", args=(), file="", line=0, kids=(), extra=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.file = file
        self.line = line
        self.kids = kids
        self.extra = extra

    def where(self):
        return "%s:%s" % (rel(self.file), self.line)

    def __repr__(self):
        if self.kind == "ev":
            return "%s(%s)" % (self.name, ", ".join(map(str, self.args)))
        if self.kind == "if":
            return "if(%s){%s}else{%s}" % (self.args[0], "; ".join(map(repr, self.kids[0])), "; ".join(map(repr, self.kids[1])))
        return "%s %s{%s}" % (self.kind, self.name, "; ".join(map(repr, self.kids)))

def dump_events(evs, ind=0, out=None, skip=()):
    out = [] if out is None else out
    p = "  " * ind
    for e in evs:
        if e.kind == "ev":
            out.append(p + "%s(%s) @%s" % (e.name, ", ".join(str(a)[:110] for a in e.args), e.where()))
        elif e.kind == "if":
            out.append(p + "if %s" % str(e.args[0])[:160])
            dump_events(e.kids[0], ind + 1, out)
            if e.kids[1]:
                out.append(p + "else")
                dump_events(e.kids[1], ind + 1, out)
        else:
            out.append(p + "%s %s %s" % (e.kind, e.name, " ".join(str(a)[:80] for a in e.args)))
            dump_events(e.kids, ind + 1, out)
    return out

# ------------------------------------------------------------------ paths
ROOTS = ("param", "this", "local", "glob", "call", "app", "lc", "new", "init", "bound", "out", "read", "phi", "str")

def decompose(p):
    accs = []
    while True:
        op = p.op
        if op == "fld":
            accs.append(("f", p.args[1]))
        elif op == "elem":
            accs.append(("i", p.args[1]))
        elif op == "elem2":
            accs.append(("m", p.args[1], p.args[2]))
        elif op == "deref":
            accs.append(("*",))
        elif op == "get":
            accs.append(("g", p.args[1]))
        else:
            break
        p = p.args[0]
    accs.reverse()
    return p, tuple(accs)

def compose(root, accs):
    p = root
    for a in accs:
        k = a[0]
        if k == "f":
            p = fld(p, a[1])
        elif k == "i":
            p = at1(p, a[1])
        elif k == "m":
            p = at2(p, a[1], a[2])
        elif k == "*":
            p = deref(p)
        else:
            p = mk("get", p, a[1])
    return p

def fld(p, n):
    if p.op == "phi":
        return t.phi(p.args[0], fld(p.args[1], n), fld(p.args[2], n))
    if p.op == "app" and len(p.args) == 3 and p.args[0] == "ctor:std::pair::pair" and n in ("first", "second"):
        return p.args[1 if n == "first" else 2]
    return mk("fld", p, n)

def deref(p):
    if p.op == "addr":
        return p.args[0]
    if p.op == "iter":
        return iterpath(p)
    if p.op == "phi":
        return t.phi(p.args[0], deref(p.args[1]), deref(p.args[2]))
    return mk("deref", p)

def iterpath(p):
    c, i = p.args
    if i.op == "app" and i.args[0] == "find":
        return mk("mapent", c, i.args[2])
    return at1(c, i)

def at1(p, k):
    op = p.op
    if op == "row":
        return at2(p.args[0], p.args[1], k)
    if op == "col":
        return at2(p.args[0], k, p.args[1])
    if op == "seg":
        return at1(p.args[0], t.add(p.args[1], k))
    if op == "tr":
        return at1(p.args[0], k)
    if op == "map":
        # a Map with one column
        return at1(p.args[0], k)
    if op == "arr":
        return at1(p.args[0], k)
    if op == "list":
        v = t.numval(k)
        if v is not None and v.denominator == 1 and 0 <= v < len(p.args[0]):
            return p.args[0][int(v)]
    if op == "phi":
        return t.phi(p.args[0], at1(p.args[1], k), at1(p.args[2], k))
    if op == "addr" and p.args[0].op == "elem":
        return at1(p.args[0].args[0], t.add(p.args[0].args[1], k))
    return mk("elem", p, k)

def at2(p, i, j):
    op = p.op
    if op == "blk":
        return at2(p.args[0], t.add(p.args[1], i), t.add(p.args[2], j))
    if op == "map":
        base, m, n, order = p.args
        k = t.add(t.mul(i, n), j) if order == "r" else t.add(t.mul(j, m), i)
        return at1(base, k)
    if op == "tr":
        return at2(p.args[0], j, i)
    if op == "arr":
        return at2(p.args[0], i, j)
    if op == "row":
        return at2(p.args[0], p.args[1], j)
    if op == "col":
        return at2(p.args[0], i, p.args[1])
    if op == "seg":
        return at1(p, i)
    if op == "phi":
        return t.phi(p.args[0], at2(p.args[1], i, j), at2(p.args[2], i, j))
    if op == "list":
        # a vector addressed as a matrix with one row or one column
        a, b = t.numval(i), t.numval(j)
        if a is not None and b is not None and 0 in (a, b) and (a + b).denominator == 1 and 0 <= a + b < len(p.args[0]):
            return p.args[0][int(a + b)]
    if op == "list2":
        a, b, c, d = str(i), str(j), str(p.args[0]), str(p.args[1])
        if a.isdigit() and b.isdigit() and c.isdigit() and d.isdigit() and int(a) < int(c) and int(b) < int(d):
            return p.args[2][int(a) * int(d) + int(b)]
    return mk("elem2", p, i, j)

t.hooks["elem"] = at1
t.hooks["elem2"] = at2
t.hooks["fld"] = fld
t.hooks["deref"] = deref

def definitely_distinct(d):
    """index difference d is provably non-zero (index atoms are naturals)"""
    p = t.poly(d)
    c = p.get((), Fraction(0))
    rest = [x for m, x in p.items() if m != ()]
    if not rest:
        return c != 0
    if all(x > 0 for x in rest) and c > 0:
        return True
    if all(x < 0 for x in rest) and c < 0:
        return True
    if all(x.denominator == 1 for x in rest) and c.denominator == 1:
        from math import gcd
        g = 0
        for x in rest:
            g = gcd(g, abs(int(x)))
        if g > 1 and int(c) % g != 0:
            return True
    return False

def unify_idx(p, e, pats, bind):
    if p.op == "poly" and e.op == "poly" and t.is_num(p) and t.is_num(e):
        return TRUE if p is e else FALSE
    if bind:
        p = t.subst(p, bind)
    if p is e:
        # pattern variable identical to the query (inside the same loop)
        pass
    free = [q for q in pats if q[0] not in bind and t.has(p, q[0])]
    if not free:
        if p is e:
            return TRUE
        if p.op in ("str", "enumv") or e.op in ("str", "enumv"):
            return t.eq(p, e)
        d = t.sub(p, e)
        v = t.numval(d)
        if v is not None:
            return TRUE if v == 0 else FALSE
        if definitely_distinct(d):
            return FALSE
        return t.eq0(d)
    if len(free) == 1:
        pv, lo, hi = free[0]
        pp = t.poly(p)
        a = pp.get(((pv, Fraction(1)),))
        rest = t.frompoly({m: c for m, c in pp.items() if m != ((pv, Fraction(1)),)})
        if a is not None and not t.has(rest, pv):
            sol = t.mul(num(Fraction(1) / a), t.sub(e, rest))
            for m, c in t.poly(sol).items():
                if c.denominator != 1:
                    if m == ():
                        others = [x for mm, x in t.poly(sol).items() if mm != ()]
                        if all(x.denominator == 1 for x in others):
                            return FALSE
                    else:
                        return mk("alias", p, e)
            # range
            dl = t.sub(sol, lo)
            if neg_for_sure(dl):
                return FALSE
            if hi is not None:
                dh = t.sub(hi, sol)
                if nonpos_for_sure(dh):
                    return FALSE
            bind[pv] = sol
            return rangegate(sol, lo, hi)
    else:
        # several pattern variables in one index: match coefficient-wise
        pp, pe = t.poly(p), t.poly(e)
        b2 = {}
        ok = True
        remaining = dict(pe)
        # sort strides: larger (symbolic) first
        for pv, lo, hi in free:
            ms = [(m, c) for m, c in pp.items() if any(a is pv for a, _ in m)]
            if len(ms) != 1:
                ok = False
                break
            m, c = ms[0]
            stride = tuple((a, x) for a, x in m if a is not pv)
            b2[pv] = (stride, c)
        if ok:
            # choose the unique query atom appearing with the same stride
            sol = {}
            for pv, (stride, c) in b2.items():
                cand = []
                for m, ce in remaining.items():
                    base = [(a, x) for a, x in m]
                    for a, x in base:
                        if x != 1 or ce != c:
                            continue
                        rest = tuple((b, y) for b, y in base if b is not a)
                        if rest == stride and a.op in ("it", "bv", "free"):
                            cand.append(a)
                if len(cand) == 1:
                    sol[pv] = cand[0]
                else:
                    ok = False
                    break
            if ok and t.subst(p, sol) is e:
                bind.update(sol)
                return TRUE
    return mk("alias", p, e)

ITRANGE = {}   # loop index term -> (lo, hi)
HIS = []       # (query index, upper bound) pairs met while reading at a query index

def rangegate(sol, lo, hi):
    """is the index inside the range a loop wrote?  Ranges bounded by a plain
    extent are taken to cover every index in use; a range that starts late or
    stops short of an extent is not."""
    g = TRUE
    v = t.numval(lo)
    rng = ITRANGE.get(sol)
    if v is not None and v > 0 and t.numval(sol) is None:
        p = t.poly(sol)
        c = p.get((), Fraction(0))
        if rng is not None and t.numval(rng[0]) is not None:
            c = t.numval(rng[0])
        if not (c >= v and all(x > 0 for m, x in p.items() if m != ())):
            g = t.bnot(t.lt(sol, lo))
    if hi is None:
        return g
    if sol.op == "q":
        HIS.append((sol, hi))
    p = t.poly(hi)
    short = p.get((), Fraction(0)) < 0 or t.contains(hi, lambda y: y.op == "idiv") or any(c.denominator != 1 for c in p.values())
    if short and len(p) > 1 or (short and t.numval(hi) is None):
        if rng is not None and rng[1] is not None:
            d = t.numval(t.sub(hi, rng[1]))
            if d is not None and d >= 0:
                return g
        d = t.poly(t.sub(hi, sol))
        if all(x > 0 for m, x in d.items()):
            return g
        g = t.band(g, t.lt(sol, hi))
    return g

def neg_for_sure(d):
    p = t.poly(d)
    c = p.get((), Fraction(0))
    return c < 0 and all(x < 0 for m, x in p.items() if m != ())

def nonpos_for_sure(d):
    p = t.poly(d)
    c = p.get((), Fraction(0))
    return c <= 0 and all(x < 0 for m, x in p.items() if m != ())

def unify(waccs, accs, pats):
    """alias condition between a write prefix and a read path; binding"""
    bind = {}
    conds = []
    for a, b in zip(waccs, accs):
        if a[0] != b[0]:
            return FALSE, bind
        if a[0] in ("f", "g"):
            if a[1] != b[1]:
                return FALSE, bind
        elif a[0] == "*":
            continue
        else:
            for x, y in zip(a[1:], b[1:]):
                c = unify_idx(x, y, pats, bind)
                if c is FALSE:
                    return FALSE, bind
                if c is not TRUE:
                    conds.append(c)
    return t.band(*conds), bind

def substval(v, m):
    if not m:
        return v
    if isinstance(v, T):
        return t.subst(v, m)
    if isinstance(v, Mat):
        f = v.f
        return Mat(t.subst(v.rows, m) if v.rows is not None else None, t.subst(v.cols, m) if v.cols is not None else None,
                   lambda i, j: t.subst(f(i, j), m))
    return v

def project(v, accs):
    """read sub-path accs inside value v"""
    if not accs:
        return v
    a = accs[0]
    if isinstance(v, Mat):
        if a[0] == "m":
            return project(v.f(a[1], a[2]), accs[1:])
        if a[0] == "i":
            return project(v.at(a[1]), accs[1:])
        if a[0] == "f" and a[1] == "#size":
            return t.mul(v.rows or mk("dim", 0), v.cols or mk("dim", 1))
        if a[0] == "f" and a[1] == "#rows" and v.rows is not None:
            return v.rows
        if a[0] == "f" and a[1] == "#cols" and v.cols is not None:
            return v.cols
        return mk("app", "matprop", a[1] if len(a) > 1 else "")
    if isinstance(v, Struct):
        r, ac = decompose(v.path)
        w = read_accs(v.state, r, ac + accs)
        if isinstance(w, T):
            p = v.path
            for b in accs:
                p = fld(p, b[1]) if b[0] == "f" else at1(p, b[1]) if b[0] == "i" else None
                if p is None:
                    break
            if w is p and under_strict(v.state, p):
                return Struct(v.state, p)
        return w
    if isinstance(v, T):
        p = v
        for i, b in enumerate(accs):
            if b[0] == "f":
                if p.op == "list" and b[1] == "#size":
                    p = num(len(p.args[0]))
                else:
                    p = fld(p, b[1])
            elif b[0] == "i":
                p = at1(p, b[1])
            elif b[0] == "m":
                p = at2(p, b[1], b[2])
            elif b[0] == "*":
                p = deref(p)
            else:
                p = mk("get", p, b[1])
        return p
    if isinstance(v, Lam):
        return v
    return mk("app", "proj")

def substruct(b, acc):
    """member or element of a returned object; itself an object if only its parts are known"""
    return project(b, (acc,))

def joinval(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T):
        return t.phi(c, a, b)
    if isinstance(a, Mat) or isinstance(b, Mat):
        fa, fb = elt(a), elt(b)
        m = a if isinstance(a, Mat) else b
        return Mat(m.rows, m.cols, lambda i, j: t.phi(c, fa(i, j), fb(i, j)))
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.path is b.path and a.state.logs == b.state.logs:
            return a
        s = a.state.copy()
        tmp = mk("local", "phi", uid())
        return Join(c, a, b)
    return a if not isinstance(a, T) else b

class Join(object):
    """phi of two struct snapshots"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

_project0 = project

def project(v, accs):  # noqa: F811
    if isinstance(v, Join):
        return joinval(v.c, project(v.a, accs), project(v.b, accs)) if accs else v
    return _project0(v, accs)

def elt(v):
    if isinstance(v, Mat):
        return v.f
    if isinstance(v, T):
        return lambda i, j: at2(v, i, j)
    raise Undecided("not a matrix value")

def read_accs(state, root, accs):
    log = state.logs.get(root)
    if log:
        pend = []
        res = None
        for w in reversed(log):
            n = len(w.accs)
            if n > len(accs):
                continue
            c, bind = unify(w.accs, accs, w.pats)
            if c is FALSE:
                continue
            v = w.val
            if bind:
                v = substval(v, bind)
            v = project(v, accs[n:])
            if c is TRUE:
                res = v
                break
            pend.append((c, v))
        if res is None:
            res = compose(root, accs)
        for c, v in reversed(pend):
            res = joinval(c, v, res)
        return res
    return compose(root, accs)

def read(state, path):
    if path.op == "phi":
        return joinval(path.args[0], read(state, path.args[1]), read(state, path.args[2]))
    if path.op in ("row", "col", "seg", "blk", "map", "tr", "arr"):
        return path
    root, accs = decompose(path)
    return read_accs(state, root, accs)

def write(state, path, val, pats=()):
    if path.op == "phi":
        c = path.args[0]
        a, b = path.args[1], path.args[2]
        va, vb = read(state, a), read(state, b)
        write(state, a, joinval(c, val, va), pats)
        write(state, b, joinval(c, vb, val), pats)
        return
    root, accs = decompose(path)
    write_accs(state, root, accs, val, pats)

def write_accs(state, root, accs, val, pats=()):
    log = state.logs.get(root, ())
    keep = []
    n = len(accs)
    for w in log:
        if len(w.accs) >= n and (not pats or w.accs == accs):
            if w.accs[:n] == accs or (not w.pats and not pats and unify(accs, w.accs, ())[0] is TRUE):
                continue
        keep.append(w)
    keep.append(W(accs, val, pats))
    state.logs[root] = tuple(keep)

def under(state, path):
    """writes recorded at or below path"""
    root, accs = decompose(path)
    out = []
    for w in state.logs.get(root, ()):
        if len(w.accs) >= len(accs):
            c, _ = unify(accs, w.accs, ())
            if c is not FALSE:
                out.append(w)
    return out

def join_states(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    s = State()
    for root in list(a.logs) + [r for r in b.logs if r not in a.logs]:
        la, lb = a.logs.get(root, ()), b.logs.get(root, ())
        if la is lb or la == lb:
            s.logs[root] = la
            continue
        inb = set(map(id, lb))
        ina = set(map(id, la))
        common = [w for w in la if id(w) in inb]
        # keep only the part of the common writes that forms the base
        new = list(common)
        done = []
        for w in [w for w in la if id(w) not in inb] + [w for w in lb if id(w) not in ina]:
            if any(x.accs == w.accs and x.pats == w.pats for x in done):
                continue
            done.append(w)
            va = read_accs(a, root, w.accs)
            vb = read_accs(b, root, w.accs)
            new.append(W(w.accs, joinval(c, va, vb), w.pats))
        s.logs[root] = tuple(new)
    k = 0
    while k < len(a.events) and k < len(b.events) and a.events[k] is b.events[k]:
        k += 1
    s.events = a.events[:k]
    ra, rb = a.events[k:], b.events[k:]
    if ra or rb:
        s.events.append(Ev("if", "", (c,), kids=(ra, rb)))
    return s

# ------------------------------------------------------------------ types
_matre = re.compile(r"^(?:const )?Eigen::(Matrix|Array)<[^,]+,(-?\d+),(-?\d+)")
_mapre = re.compile(r"^(?:const )?Eigen::Map<(?:const )?Eigen::Matrix<[^,]+,(-?\d+),(-?\d+),(\d+)")
_eig = re.compile(r"^(?:const )?Eigen::(?!aligned_allocator|internal)")

def strip(ty):
    ty = ty.rstrip("&").strip()
    if ty.startswith("const "):
        ty = ty[6:]
    return ty

def ismat(ty):
    return bool(_eig.match(ty)) and not ty.lstrip("const ").startswith(("Eigen::SparseMatrix", "Eigen::FullPivLU", "Eigen::SparseLU", "Eigen::Triplet", "Eigen::Stride"))

def matdims(ty):
    m = _matre.match(ty)
    if m:
        r, c = int(m.group(2)), int(m.group(3))
        return r, c
    return None

def isint(ty):
    return strip(ty) in ("int", "unsigned int", "long", "unsigned long", "unsigned char", "char", "short", "unsigned short", "long long", "unsigned long long", "signed char")

SCALARS = ("int", "unsigned int", "long", "unsigned long", "double", "float", "bool", "char", "unsigned char", "long double", "short", "unsigned short", "long long", "unsigned long long", "signed char")

def isscalar(ty):
    s = strip(ty)
    return s in SCALARS or s.startswith("enum ") or s.endswith("*")

def intval(x):
    v = t.numval(x) if isinstance(x, T) else None
    if v is not None and v.denominator == 1:
        return int(v)
    return None

def bheight(x):
    h = [-1]

    def g(y):
        if y.op == "bv" and isinstance(y.args[0], int):
            h[0] = max(h[0], y.args[0])
    t.walk(x, g)
    return h[0]

def mksum(it, lo, hi, body):
    """sum over it in [lo,hi) of body, canonical"""
    if t.numval(body) == 0:
        return ZERO
    if not t.has(body, it):
        return t.mul(t.sub(hi, lo), body)
    p = t.poly(body)
    # split monomials: pull factors independent of it
    groups = {}
    for m, c in p.items():
        dep = tuple((a, e) for a, e in m if t.has(a, it))
        ind = tuple((a, e) for a, e in m if not t.has(a, it))
        groups.setdefault(dep, []).append((ind, c))
    acc = []
    for dep, l in groups.items():
        outer = t.frompoly({ind: c for ind, c in l})
        if not dep:
            acc.append(t.mul(outer, t.sub(hi, lo)))
            continue
        inner = t.frompoly({dep: Fraction(1)})
        h = bheight(inner) + 1
        acc.append(t.mul(outer, mk("sum", lo, hi, t.subst(inner, {it: mk("bv", h)}))))
    return t.add(*acc)

def mkfold(lo, hi, vs, fs, h):
    """first component of the recurrence x_k := fs_k(i, x), i in [lo,hi), x = vs initially"""
    f = fs[0]
    if f.op == "acc" and f.args == (h, 0):
        return vs[0]
    if not t.contains(f, lambda y: y.op == "acc" and y.args[0] == h):
        # only the last iteration matters
        last = t.subst(f, {mk("bv", h): t.sub(hi, ONE)})
        return t.phi(t.lt(lo, hi), last, vs[0])
    if f.op == "phi":
        c = f.args[0]
        if not t.contains(c, lambda y: (y.op == "acc" and y.args[0] == h) or (y.op == "bv" and y.args[0] == h)):
            return t.phi(c, mkfold(lo, hi, vs, (f.args[1],) + fs[1:], h), mkfold(lo, hi, vs, (f.args[2],) + fs[1:], h))
    return mk("fold", lo, hi, vs, fs, h)

MAXDEPTH = 60
UNROLL = 24

class Exit(object):
    __slots__ = ("kind", "cond", "state", "val")

    def __init__(self, kind, cond, state, val=None):
        self.kind = kind
        self.cond = cond
        self.state = state
        self.val = val

class Interp(object):
    def __init__(self, prog, opaque=None, event=None, hook=None, unroll=UNROLL, pure=None, decide=None, alias=None):
        self.alias = alias or {}   # what reference members stand for
        self.prog = prog
        self.opaque = opaque or (lambda n, f: False)
        self.event = event or (lambda n: False)
        self.hook = hook
        self.unroll = unroll
        self.decide = decide
        self.loopwatch = []
        self.calls_inlined = 0
        self.sites = 0
        self.inlined = set()
        self.readlog = None

    # ---------------------------------------------------------------- entry
    def run(self, fn, this=None, args=None, state=None):
        """abstractly evaluate fn; returns (state, retval)"""
        st = state or State()
        fr = Frame(fn.tu, None, this if this is not None else mk("this"), fn)
        for k, (pid, name, ty) in enumerate(fn.params):
            a = args[k] if args and k < len(args) and args[k] is not None else None
            tys = fn.tu.types[ty]
            if a is None:
                a = Loc(mk("param", k, name or "arg%d" % k), tys)
            self.bindparam(fr, st, pid, name, tys, a)
        ex = self.body(fn, fr, st)
        s, v = self.finish(ex, fn)
        if s is not None:
            self.ended([x for x in ex if x.kind == "throw"], s)
        return s, v

    def ended(self, thr, s):
        """branches that end the program leave their events"""
        for x in thr:
            if len(x.state.events) > 0:
                k = 0
                while k < len(x.state.events) and k < len(s.events) and x.state.events[k] is s.events[k]:
                    k += 1
                s.events = s.events[:k] + [Ev("if", "", (x.cond,), kids=(x.state.events[k:], []))] + s.events[k:]

    def body(self, fn, fr, st):
        if fn.inits:
            for m, written, init in fn.inits:
                if m.startswith("base:") or m == "delegating":
                    if init is not None:
                        tag = init[0]
                        if tag == "ctor":
                            self.construct_into(fr, st, fr.this, init)
                    continue
                p = fld(fr.this, m)
                self.init_into(fr, st, p, init, "")
        return self.stmt(fn.body, fr, st)

    def finish(self, exits, fn):
        outs = [e for e in exits if e.kind in ("norm", "ret")]
        thr = [e for e in exits if e.kind == "throw"]
        if not outs:
            if not thr:
                raise Undecided("no exit in %s" % fn.name)
            return None, None
        cur = outs[-1]
        st, val = cur.state, cur.val
        for e in reversed(outs[:-1]):
            st = join_states(e.cond, e.state, st)
            if e.val is not None or val is not None:
                val = joinval(e.cond, e.val, val) if (e.val is not None and val is not None) else (e.val if e.val is not None else val)
        return st, val

    # ---------------------------------------------------------------- statements
    def stmt(self, s, fr, st):
        """returns list of Exit; 'norm' exits first-class"""
        if s is None:
            return [Exit("norm", TRUE, st)]
        k = s[0]
        if k == "{":
            ex = self.seq(s[2], fr, st)
            gone = [d[0] for x in s[2] if x and x[0] == "decl" for d in x[2] if "fstream" in fr.tu.types[d[2]]] if self.event("std::basic_ofstream") else ()
            for did in gone:
                for x in ex:
                    if isinstance(fr.env.get(did), Loc):
                        x.state.events.append(Ev("ev", "#gone", (fr.env[did].path,), fr.fn.file, s[1]))
            return ex
        if k == "null":
            return [Exit("norm", TRUE, st)]
        if k == "decl":
            for d in s[2]:
                self.declare(d, fr, st)
            return [Exit("norm", TRUE, st)]
        if k == "if":
            c = self.cond(s[2], fr, st)
            if c is TRUE:
                return self.stmt(s[3], fr, st)
            if c is FALSE:
                return self.stmt(s[4], fr, st)
            sa, sb = st.copy(), st.copy()
            ea = self.stmt(s[3], fr, sa)
            eb = self.stmt(s[4], fr, sb)
            return self.merge(c, ea, eb)
        if k in ("for", "while", "do", "rfor"):
            return self.loop(s, fr, st)
        if k == "ret":
            v = None
            if s[2] is not None:
                v = self.ev(s[2], fr, st)
                retty = fr.tu.types[fr.fn.d["ret"]] if fr.fn is not None else ""
                if not retty.endswith("&") and not self.isview(v):
                    v = self.rv(v, st) if not (isinstance(v, Loc) and not isscalar(v.ty) and not ismat(v.ty)) else self.snap(v, st)
            return [Exit("ret", TRUE, st, v)]
        if k == "break":
            return [Exit("break", TRUE, st)]
        if k == "cont":
            return [Exit("cont", TRUE, st)]
        if k == "switch":
            return self.switch(s, fr, st)
        if k in ("case", "default"):
            return self.stmt(s[-1], fr, st)
        if k == "try":
            ex = self.stmt(s[2], fr, st)
            outs = [e for e in ex if e.kind != "throw"]
            thr = [e for e in ex if e.kind == "throw"]
            if thr and s[3]:
                for e in thr:
                    for h in self.stmt(s[3][0], fr, e.state):
                        outs.append(Exit(h.kind, t.band(e.cond, h.cond), h.state, h.val))
            return outs or ex
        if k == "omp":
            return self.omp(s, fr, st)
        if k == "ostmt":
            return [Exit("norm", TRUE, st)]
        # expression statement
        if k == "throw":
            v = self.ev(s[3], fr, st) if s[3] is not None else None
            st.events.append(Ev("ev", "throw", (self.tm(v, st),) if v is not None else (), fr.fn.file, s[1]))
            return [Exit("throw", TRUE, st)]
        self.dead = False
        self.ev(s, fr, st)
        if self.dead:
            self.dead = False
            return [Exit("throw", TRUE, st)]
        return [Exit("norm", TRUE, st)]

    def seq(self, ss, fr, st):
        done = []
        cond = TRUE
        cur = st
        for s in ss:
            ex = self.stmt(s, fr, cur)
            norm = [e for e in ex if e.kind == "norm"]
            oth = [e for e in ex if e.kind != "norm"]
            for e in oth:
                done.append(Exit(e.kind, t.band(cond, e.cond), e.state, e.val))
            if not norm:
                return done
            # merge norms
            n = norm[-1]
            ns, nc = n.state, n.cond
            for e in reversed(norm[:-1]):
                ns = join_states(e.cond, e.state, ns)
                nc = t.bor(nc, e.cond)
            cur = ns
            cond = t.band(cond, nc)
        done.append(Exit("norm", cond, cur))
        return done

    def merge(self, c, ea, eb):
        out = []
        kinds = ["throw", "ret", "break", "cont", "norm"]
        for k in kinds:
            la = [e for e in ea if e.kind == k]
            lb = [e for e in eb if e.kind == k]
            if k in ("throw",):
                for e in la:
                    out.append(Exit(k, t.band(c, e.cond), e.state, e.val))
                for e in lb:
                    out.append(Exit(k, t.band(t.bnot(c), e.cond), e.state, e.val))
                continue
            a = self.fold1(la)
            b = self.fold1(lb)
            if a and b:
                val = None
                if a.val is not None and b.val is not None:
                    val = joinval(c, a.val, b.val)
                elif a.val is not None or b.val is not None:
                    val = a.val if a.val is not None else b.val
                out.append(Exit(k, t.bor(t.band(c, a.cond), t.band(t.bnot(c), b.cond)), join_states(c, a.state, b.state), val))
            elif a:
                out.append(Exit(k, t.band(c, a.cond), a.state, a.val))
            elif b:
                out.append(Exit(k, t.band(t.bnot(c), b.cond), b.state, b.val))
        return out

    def fold1(self, l):
        if not l:
            return None
        cur = l[-1]
        for e in reversed(l[:-1]):
            val = joinval(e.cond, e.val, cur.val) if e.val is not None and cur.val is not None else None
            cur = Exit(cur.kind, t.bor(e.cond, cur.cond), join_states(e.cond, e.state, cur.state), val)
        return cur

    def switch(self, s, fr, st):
        v = self.rv(self.ev(s[2], fr, st), st)
        body = s[3][2] if s[3] and s[3][0] == "{" else [s[3]]
        # flatten labels
        items = []   # (labels, stmts)
        for x in body:
            labs = []
            while x is not None and x[0] in ("case", "default"):
                labs.append(x[2] if x[0] == "case" else None)
                x = x[-1]
            if labs:
                items.append((labs, [x] if x is not None else []))
            elif items:
                items[-1][1].append(x)
        exits = []
        pre = TRUE
        deflt = None
        branches = []
        for n, (labs, _) in enumerate(items):
            cs = [t.eq(v, self.rv(self.ev(l, fr, st), st)) for l in labs if l is not None]
            if None in labs:
                deflt = n
            branches.append(t.bor(*cs) if cs else FALSE)
        anyc = t.bor(*branches) if branches else FALSE

        def runfrom(n, s0):
            ss = []
            for _, b in items[n:]:
                ss.extend(b)
            return self.seq(ss, fr, s0)
        if deflt is not None:
            res = runfrom(deflt, st.copy())
        else:
            res = [Exit("norm", TRUE, st.copy())]
        for n in reversed(range(len(items))):
            if branches[n] is FALSE:
                continue
            res = self.merge(branches[n], runfrom(n, st.copy()), res)
        out = []
        norm = []
        for e in res:
            if e.kind in ("break", "norm"):
                norm.append(Exit("norm", e.cond, e.state))
            else:
                out.append(e)
        n = self.fold1(norm)
        if n:
            out.append(n)
        return out

    def omp(self, s, fr, st):
        name = s[2]
        if s[4] is None:
            st.events.append(Ev("omp", name, (), fr.fn.file, s[1], kids=()))
            return [Exit("norm", TRUE, st)]
        k = len(st.events)
        base = st.events
        st.events = []
        ex = self.stmt(s[4], fr, st)
        for e in ex:
            e.state.events = base + [Ev("omp", name, tuple(c[0] for c in s[3]), fr.fn.file, s[1], kids=tuple(e.state.events), extra=s[3])]
        return ex

    # ---------------------------------------------------------------- loops
    def loop(self, s, fr, st):
        k = s[0]
        if k == "rfor":
            vid, vname, vty = s[2]
            c = self.ev(s[3], fr, st)
            tys = fr.tu.types[vty]
            elems = None
            if isinstance(c, T) and c.op == "list":
                elems = list(c.args[0])
            if isinstance(c, Loc):
                v = read(st, c.path)
                if isinstance(v, T) and v.op == "list":
                    elems = list(v.args[0])
            if elems is not None and len(elems) <= 64:
                def item(f, s_, e):
                    if isinstance(e, T) and e.op == "param" and tys.endswith("&") and not isscalar(strip(tys)):
                        f.env[vid] = Loc(e, strip(tys))     # the list names the places of its entries
                    else:
                        self.bindlocal(f, s_, vid, vname, tys, e)
                return self.unrolled(fr, st, [lambda f, s_, e=e: item(f, s_, e) for e in elems], s[4])
            path = c.path if isinstance(c, Loc) else self.tm(c, st)
            if self.hook is not None:
                r = self.hook(self, s, fr, st, "#range", None, None, path, [])
                if r is not NotImplemented:
                    # the places of the entries of a container the hook keeps
                    def entry(f, s_, p_):
                        if tys.endswith("&"):
                            f.env[vid] = Loc(p_, strip(tys))
                        else:
                            self.bindlocal(f, s_, vid, vname, tys, Loc(p_, tys))
                    return self.unrolled(fr, st, [lambda f, s_, p_=p_: entry(f, s_, p_) for p_ in r], s[4])
            hi = self.size_of(path, st)
            n = intval(hi)

            def setup(f, s_, it):
                e = Loc(at1(path, it), tys)
                if tys.endswith("&"):
                    f.env[vid] = Loc(at1(path, it), strip(tys))
                else:
                    self.bindlocal(f, s_, vid, vname, tys, e)
            if n is not None and n <= self.unroll:
                return self.unrolled(fr, st, [lambda f, s_, i=i: setup(f, s_, num(i)) for i in range(n)], s[4])
            return self.summarise(fr, st, ZERO, hi, setup, s[4], None, s[1])
        if k == "for":
            init, cond, inc, body = s[2], s[3], s[4], s[5]
            if init is not None:
                ex = self.stmt(init, fr, st)
                st = ex[-1].state
        elif k == "while":
            cond, inc, body = s[2], None, s[3]
        else:
            body, cond, inc = s[2], s[3], None
            # do { b } while (c)  ==  b ; while (c) b
            ex = self.stmt(body, fr, st)
            out = []
            norm = []
            for e in ex:
                if e.kind in ("norm", "cont"):
                    norm.append(e)
                elif e.kind == "break":
                    out.append(Exit("norm", e.cond, e.state))
                else:
                    out.append(e)
            n = self.fold1(norm)
            if n is None:
                return out
            return out + self.general_loop(fr, n.state, cond, inc, body, s[1])
        return self.general_loop(fr, st, cond, inc, body, s[1])

    def unrolled(self, fr, st, setups, body):
        cur = st
        cond = TRUE
        outs = []
        brk = []
        for f in setups:
            f(fr, cur)
            ex = self.stmt(body, fr, cur)
            norm = []
            for e in ex:
                if e.kind in ("norm", "cont"):
                    norm.append(Exit("norm", e.cond, e.state))
                elif e.kind == "break":
                    brk.append(Exit("norm", t.band(cond, e.cond), e.state))
                else:
                    outs.append(Exit(e.kind, t.band(cond, e.cond), e.state, e.val))
            n = self.fold1(norm)
            if n is None:
                cur = None
                break
            cur = n.state
            cond = t.band(cond, n.cond)
        norms = brk + ([Exit("norm", cond, cur)] if cur is not None else [])
        n = self.fold1(norms)
        if n:
            outs.append(n)
        return outs

    def general_loop(self, fr, st, cond, inc, body, line):
        # 1. concrete unrolling when the trip count is a small constant
        probe = self.try_unroll(fr, st, cond, inc, body)
        if probe is not None:
            return probe
        # 2. find the induction variable: evaluate one iteration with
        #    loop-carried placeholders
        entry = st.freeze()
        written = self.discover(fr, st, cond, inc, body)
        ph = {}
        s1 = st.copy()
        s1.events = []
        for root, accs in written:
            if any(self.loopdep(a) for a in accs):
                continue
            v = read_accs(entry, root, accs)
            p = self.placeholder(v, len(ph))
            if p is None:
                continue
            ph[(root, accs)] = (p, v)
            write_accs(s1, root, accs, p)
        try:
            c = self.cond(cond, fr, s1) if cond is not None else TRUE
        except Undecided:
            c = TRUE
        ex = self.iteration(fr, s1, inc, body)
        n = self.fold1([e for e in ex if e.kind in ("norm", "cont")])
        lcmap = {p if isinstance(p, T) else None: k for k, (p, v) in ph.items()}
        ivs = {}
        if n is not None:
            for key, (p, v) in ph.items():
                if not isinstance(p, T):
                    continue
                f = read_accs(n.state, *key)
                if not isinstance(f, T):
                    continue
                d = self.delta(f, p)
                if d is not None and t.numval(d) is not None and t.numval(d) != 0:
                    ivs[key] = (p, v, d)
        prim = None
        for key, (p, v, d) in ivs.items():
            b = self.bound(c, p, d)
            if b is not None:
                prim = (key, p, v, d, b)
                break
        if prim is None:
            return self.havoc_loop(fr, st, cond, inc, body, line, written)
        key, p, v, d, b = prim
        # index range [lo,hi) for step +1, otherwise a 0-based count
        ent = self.ivterm(v)
        if t.numval(d) == 1:
            lo, hi = ent, b
            fn = lambda it: it
        elif t.numval(d) > 1:
            lo, hi = ZERO, mk("app", "ceildiv", t.sub(b, ent), d) if t.numval(t.sub(b, ent)) is None else num(-(-t.numval(t.sub(b, ent)) // t.numval(d)))
            fn = lambda it: t.add(ent, t.mul(d, it))
        else:
            lo, hi = ZERO, t.sub(ent, b)
            if t.numval(d) != -1:
                hi = mk("app", "ceildiv", hi, t.neg(d))
            fn = lambda it: t.add(ent, t.mul(d, it))

        def setup(f, s_, it):
            write_accs(s_, key[0], key[1], self.ivwrap(v, fn(it)))

        def post(s_):
            # value after the loop
            fin = hi if t.numval(d) == 1 else t.add(ent, t.mul(d, hi))
            write_accs(s_, key[0], key[1], self.ivwrap(v, fin))
        return self.summarise(fr, st, lo, hi, setup, body, inc, line, skip=key, post=post)

    def ivterm(self, v):
        return v.args[1] if v.op == "iter" else v

    def ivwrap(self, v, x):
        return mk("iter", v.args[0], x) if v.op == "iter" else x

    def delta(self, f, p):
        if f.op == "iter" and p.op == "iter":
            if f.args[0] is not p.args[0]:
                return None
            f, p = f.args[1], p.args[1]
        if f.op in ("phi", "not", "and", "lt0", "eq0", "iter", "str", "true", "false") or p.op in ("iter",):
            return None
        d = t.sub(f, p)
        return d if not t.has(d, p) else None

    def bound(self, c, p, d):
        """upper bound b such that the loop runs while p < b (step>0) / p > b (step<0)"""
        q = p.args[1] if p.op == "iter" else p
        cs = list(c.args) if c.op == "and" else [c]
        if len(cs) > 1:
            return None
        c = cs[0]
        neg = False
        if c.op == "not":
            neg = True
            c = c.args[0]
        if c.op == "eqt" and neg:
            return None
        if c.op == "eq0" and neg:
            # p != b
            a = c.args[0]
            co = t.poly(a).get(((q, Fraction(1)),))
            if co is None:
                return None
            rest = t.sub(a, t.mul(num(co), q))
            if t.has(rest, q):
                return None
            return t.mul(num(Fraction(-1) / co), rest)
        if c.op != "lt0":
            return None
        a = c.args[0]
        co = t.poly(a).get(((q, Fraction(1)),))
        if co is None:
            return None
        rest = t.sub(a, t.mul(num(co), q))
        if t.has(rest, q):
            return None
        b = t.mul(num(Fraction(-1) / co), rest)
        up = t.numval(d) > 0
        # not neg: co*q + rest < 0
        if not neg:
            if co > 0 and up:
                return b          # q < b
            if co < 0 and not up:
                return b          # q > b
            return None
        # !(co*q+rest<0): co*q + rest >= 0
        if co < 0 and up:
            return t.add(b, ONE)  # q <= b
        if co > 0 and not up:
            return t.sub(b, ONE)  # q >= b
        return None

    def loopdep(self, a):
        return False

    def try_unroll(self, fr, st, cond, inc, body):
        """unroll while the condition stays constant"""
        if cond is None:
            return None
        c = self.cond(cond, fr, st.copy())
        if c is FALSE:
            return [Exit("norm", TRUE, st)]
        if c is not TRUE:
            return None
        save = st.copy()
        cur = st.copy()
        base_events = list(st.events)
        outs, brk = [], []
        pc = TRUE
        for n in range(self.unroll + 1):
            c = self.cond(cond, fr, cur)
            if c is FALSE:
                break
            if c is not TRUE or n == self.unroll:
                return None
            ex = self.iteration(fr, cur, inc, body)
            norm = []
            for e in ex:
                if e.kind in ("norm", "cont"):
                    norm.append(Exit("norm", e.cond, e.state))
                elif e.kind == "break":
                    brk.append(Exit("norm", t.band(pc, e.cond), e.state))
                else:
                    outs.append(Exit(e.kind, t.band(pc, e.cond), e.state, e.val))
            m = self.fold1(norm)
            if m is None:
                cur = None
                break
            cur = m.state
            pc = t.band(pc, m.cond)
        norms = brk + ([Exit("norm", pc, cur)] if cur is not None else [])
        m = self.fold1(norms)
        if m:
            m.kind = "norm"
            outs.append(m)
        return outs

    def iteration(self, fr, st, inc, body):
        ex = self.stmt(body, fr, st)
        out = []
        norm = [Exit("norm", e.cond, e.state) for e in ex if e.kind in ("norm", "cont")]
        out = [e for e in ex if e.kind not in ("norm", "cont")]
        n = self.fold1(norm)
        if n is not None:
            if inc is not None:
                self.ev(inc, fr, n.state)
            out.append(n)
        return out

    def discover(self, fr, st, cond, inc, body):
        """locations written by one iteration (syntactic effect pass)"""
        s = st.copy()
        s.events = []
        if cond is not None:
            self.cond(cond, fr, s)
        ex = self.iteration(fr, s, inc, body)
        out = []
        for e in ex:
            for root, log in e.state.logs.items():
                old = st.logs.get(root, ())
                if log is old:
                    continue
                ids = set(map(id, old))
                for w in log:
                    if id(w) not in ids and (root, w.accs) not in out:
                        if root.op == "local" and root not in st.logs and root.args[-1] > self.mark(st):
                            pass
                        out.append((root, w.accs))
        return [(r, a) for r, a in out if not (r.op == "local" and r not in st.logs and r not in self.declared)]

    declared = set()

    def mark(self, st):
        return 0

    def placeholder(self, v, k):
        if isinstance(v, T):
            if v.op == "iter":
                return mk("iter", v.args[0], mk("lc", uid()))
            if v.op in ("list",):
                return None
            return mk("lc", uid())
        if isinstance(v, Mat):
            q = mk("lc", uid())
            if v.isvec():
                return Mat(v.rows, v.cols, lambda i, j: at1(q, j if v.rows is ONE and v.cols is not ONE else i))
            return Mat(v.rows, v.cols, lambda i, j: at2(q, i, j))
        return None

    def summarise(self, fr, st, lo, hi, setup, body, inc, line, skip=None, post=None):
        """for it in [lo,hi): body, with no other exit condition known"""
        it = mk("it", uid())
        if lo is not None:
            ITRANGE[it] = (lo, hi)
        entry = st.freeze()
        n = intval(t.sub(hi, lo)) if lo is not None else None
        if n is not None and 0 <= n <= self.unroll:
            l = intval(lo)
            if l is not None:
                r = self.unrolled(fr, st, [lambda f, s_, i=i: setup(f, s_, num(i)) for i in range(l, l + n)], body)
                if post:
                    for e in r:
                        if e.kind == "norm":
                            post(e.state)
                return r
        # pass A: discover writes with the index symbolic
        sA = st.copy()
        sA.events = []
        setup(fr, sA, it)
        exA = self.iteration(fr, sA, None if post else inc, body)
        writes = self.diffwrites(st, exA)
        scal, patt = [], []
        for root, accs in writes:
            if skip is not None and (root, accs) == skip:
                continue
            if any(isinstance(x, T) and t.has(x, it) for a in accs for x in a[1:]):
                patt.append((root, accs))
            else:
                scal.append((root, accs))
        # pass B: loop-carried placeholders for scalars
        ph = {}
        closed = {}
        for rnd in range(3):
            sB = st.copy()
            sB.events = []
            ph = {}
            for key in scal:
                v = read_accs(entry, *key)
                if key in closed:
                    continue
                p = self.placeholder(v, 0)
                if p is None:
                    continue
                ph[key] = (p, v)
            setup(fr, sB, it)
            for key, (p, v) in ph.items():
                write_accs(sB, key[0], key[1], p)
            for key, f in closed.items():
                write_accs(sB, key[0], key[1], f(it))
            exB = self.iteration(fr, sB, None if post else inc, body)
            nB = self.fold1([e for e in exB if e.kind in ("norm",)])
            new = False
            # new scalar/pattern locations discovered with placeholders
            for root, accs in self.diffwrites(st, exB):
                if (root, accs) == skip or (root, accs) in scal or (root, accs) in patt:
                    continue
                if any(isinstance(x, T) and t.has(x, it) for a in accs for x in a[1:]):
                    patt.append((root, accs))
                elif not any(isinstance(x, T) and t.contains(x, lambda y: y.op == "lc") for a in accs for x in a[1:]):
                    scal.append((root, accs))
                    new = True
            if nB is not None:
                for key, (p, v) in list(ph.items()):
                    if not isinstance(p, T) or key in closed:
                        continue
                    f = read_accs(nB.state, *key)
                    if not isinstance(f, T) or not isinstance(v, T):
                        continue
                    d = self.delta(f, p)
                    if d is not None and t.numval(d) is not None and t.numval(d) != 0:
                        # secondary induction variable: v + d*(it-lo)
                        vv = self.ivterm(v)
                        closed[key] = (lambda i, v=v, vv=vv, d=d: self.ivwrap(v, t.add(vv, t.mul(d, t.sub(i, lo)))))
                        new = True
            if not new:
                break
        # patterns written in the final pass
        exs = exB
        others = [e for e in exs if e.kind in ("break", "ret")]
        thr = [e for e in exs if e.kind == "throw"]
        if nB is None and not others:
            return thr or [Exit("norm", TRUE, st)]
        out = st.copy()
        base = nB if nB is not None else others[-1]
        if others:
            return self.search_loop(fr, st, it, lo, hi, ph, closed, exs, nB, others, skip, post, line, patt)
        fin = nB.state
        pats = [(it, lo, hi)]
        self.apply_summary(out, entry, fin, ph, closed, patt, scal, it, lo, hi)
        evs = fin.events
        if evs:
            out.events.append(Ev("loop", "", (lo, hi), fr.fn.file if fr.fn else "", line, kids=tuple(evs), extra=it))
        if post:
            post(out)
        res = []
        for e in thr:
            # the throw happens in some iteration
            res.append(Exit("throw", mk("ex", lo, hi, e.cond), e.state))
        res.append(Exit("norm", TRUE, out))
        return res

    def apply_summary(self, out, entry, fin, ph, closed, patt, scal, it, lo, hi):
        seen = set()
        lcs = {}
        for key, (p, v) in ph.items():
            if key in closed:
                continue
            lcs[key] = p
        # pattern writes: closed-form values
        for root, log in fin.logs.items():
            old = entry.logs.get(root, ())
            if log is old:
                continue
            ids = set(map(id, old))
            for w in log:
                if id(w) in ids:
                    continue
                key = (root, w.accs)
                dep = any(isinstance(x, T) and t.has(x, it) for a in w.accs for x in a[1:])
                if dep:
                    if root.op == "local" and root not in entry.logs:
                        pass
                    val = self.unplace(w.val, ph, closed, fin, it, lo, hi)
                    val = self.recurse(val, root, w.accs, it, lo)
                    write_accs(out, root, w.accs, val, w.pats + ((it, lo, hi),))
        # scalars
        for key, (p, v) in ph.items():
            if key in closed:
                continue
            f = read_accs(fin, *key)
            write_accs(out, key[0], key[1], self.fold(p, v, f, it, lo, hi, ph, fin))
        for key, f in closed.items():
            write_accs(out, key[0], key[1], f(hi))

    def recurse(self, val, root, accs, it, lo):
        return val

    def unplace(self, val, ph, closed, fin, it, lo, hi):
        """pattern value that depends on a loop-carried scalar: express the
        carried value at the start of iteration `it`"""
        m = {}

        def prep(x):
            for key, (p, v) in ph.items():
                if key in closed or not isinstance(p, T):
                    continue
                q = p.args[1] if p.op == "iter" else p
                if q in m:
                    continue
                if t.has(x, q):
                    f = read_accs(fin, *key)
                    m[q] = None
                    m[q] = self.ivterm(self.fold(p, v, f, it, lo, it, ph, fin)) if isinstance(f, T) else mk("app", "carried")
        if isinstance(val, T):
            prep(val)
            mm = {k: v for k, v in m.items() if v is not None}
            return t.subst(val, mm) if mm else val
        if isinstance(val, Mat):
            f = val.f

            def g(i, j):
                x = f(i, j)
                prep(x)
                mm = {k: v for k, v in m.items() if v is not None}
                return t.subst(x, mm) if mm else x
            return Mat(val.rows, val.cols, g)
        return val

    def fold(self, p, v, f, it, lo, hi, ph, fin):
        """value of a carried location after iterations [lo,hi)"""
        if isinstance(p, Mat):
            vf = elt(v)
            pf = elt(p)
            try:
                ff = elt(f)
            except Undecided:
                return f
            return Mat(p.rows, p.cols, lambda i, j: self.fold1v(pf(i, j), vf(i, j), ff(i, j), it, lo, hi, ph, fin))
        if not isinstance(f, T):
            # e.g. struct or matrix assigned inside the loop
            if isinstance(f, Mat):
                ff = f.f
                return Mat(f.rows, f.cols, lambda i, j: self.last(ff(i, j), at2(v, i, j) if isinstance(v, T) else ZERO, it, lo, hi))
            return f
        if p.op == "iter":
            return f
        return self.fold1v(p, v, f, it, lo, hi, ph, fin)

    def last(self, f, v, it, lo, hi):
        if t.has(f, it):
            f = t.subst(f, {it: t.sub(hi, ONE)})
        return t.phi(t.lt(lo, hi), f, v)

    def lcs_of(self, ph):
        s = set()
        for key, (p, v) in ph.items():
            if isinstance(p, T):
                s.add(p.args[1] if p.op == "iter" else p)
        return s

    def fold1v(self, p, v, f, it, lo, hi, ph, fin):
        if f is p:
            return v
        lcs = self.lcs_of(ph)

        def haslc(x):
            return t.contains(x, lambda y: y in lcs or (y.op == "lc"))
        if not haslc(f):
            return self.last(f, v, it, lo, hi)
        # additive
        d = self.minus(f, p)
        if d is not None and not haslc(d):
            return t.add(v, self.mksum(it, lo, hi, d))
        # max/min accumulation
        if f.op == "app" and f.args[0] in ("max", "min") and p in f.args[1:]:
            rest = [x for x in f.args[1:] if x is not p]
            r = rest[0] if len(rest) == 1 else t.app(f.args[0], *rest)
            if not haslc(r):
                h = bheight(r) + 1
                return t.app(f.args[0], v, mk("app", "red" + f.args[0], lo, hi, t.subst(r, {it: mk("bv", h)})))
        # conditional max/min:  phi(p < x, x, p)
        if f.op == "phi" and f.args[0].op == "lt0":
            a, b = f.args[1], f.args[2]
            for x, y, flip in ((a, b, False), (b, a, True)):
                if y is p and not haslc(x):
                    # x chosen when ...
                    c = f.args[0].args[0]
                    dxp = t.sub(p, x)
                    mx = None
                    if t.is_zero(t.sub(c, dxp)):
                        mx = not flip          # p-x<0 -> x  : max
                    elif t.is_zero(t.add(c, dxp)):
                        mx = flip              # x-p<0 -> x  : min
                    if mx is not None:
                        h = bheight(x) + 1
                        nm = "max" if mx else "min"
                        return t.app(nm, v, mk("app", "red" + nm, lo, hi, t.subst(x, {it: mk("bv", h)})))
        # boolean or/and accumulation: phi(c, TRUE, p) etc.
        if t.isbool(f) or f.op == "phi" or v in (TRUE, FALSE):
            f1 = t.subst(f, {p: TRUE})
            f0 = t.subst(f, {p: FALSE})
            if f1 is TRUE and not haslc(f0) and v in (TRUE, FALSE):
                # p | c(it)
                h = bheight(f0) + 1
                return t.bor(v, mk("ball_ex", lo, hi, t.subst(f0, {it: mk("bv", h)})))
            if f0 is FALSE and not haslc(f1) and v in (TRUE, FALSE):
                h = bheight(t.bnot(t.tobool(f1))) + 1
                return t.band(v, t.bnot(mk("ball_ex", lo, hi, t.subst(t.bnot(t.tobool(f1)), {it: mk("bv", h)}))))
        # product
        if f.op == "poly" or True:
            q = t.div(f, p) if f.op not in ("phi", "not", "and", "lt0", "eq0") else None
            if q is not None and not haslc(q):
                h = bheight(q) + 1
                return t.mul(v, mk("prod", lo, hi, t.subst(q, {it: mk("bv", h)})))
        # general fold (mutually recursive carried scalars)
        return self.genfold(p, v, f, it, lo, hi, ph, fin)

    def genfold(self, p, v, f, it, lo, hi, ph, fin):
        # close over all carried scalars reachable from f
        order = [p]
        fs = {p: f}
        vs = {p: v}
        byp = {}
        for key, (q, qv) in ph.items():
            if isinstance(q, T):
                byp[q.args[1] if q.op == "iter" else q] = (key, q, qv)
        i = 0
        while i < len(order):
            def g(y):
                if y in byp and y not in fs:
                    key, q, qv = byp[y]
                    ff = read_accs(fin, *key)
                    if isinstance(ff, T) and isinstance(qv, T):
                        fs[y] = self.ivterm(ff)
                        vs[y] = self.ivterm(qv)
                        order.append(y)
            t.walk(fs[order[i]], g)
            i += 1
        h = max([bheight(x) for x in fs.values()]) + 1
        m = {it: mk("bv", h)}
        for n, q in enumerate(order):
            m[q] = mk("acc", h, n)
        return mkfold(lo, hi, tuple(vs[q] for q in order), tuple(t.subst(fs[q], m) for q in order), h)

    def minus(self, f, p):
        if f.op == "phi":
            a, b = self.minus(f.args[1], p), self.minus(f.args[2], p)
            if a is None or b is None:
                return None
            return t.phi(f.args[0], a, b)
        if f.op in ("not", "and", "lt0", "eq0", "true", "false", "str", "eqt"):
            return None
        return t.sub(f, p)

    def mksum(self, it, lo, hi, d):
        return mksum(it, lo, hi, d)

    def diffwrites(self, st, exits):
        out = []
        for e in exits:
            if e.kind == "throw":
                continue
            for root, log in e.state.logs.items():
                old = st.logs.get(root, ())
                if log is old:
                    continue
                ids = set(map(id, old))
                for w in log:
                    if id(w) not in ids and (root, w.accs) not in out:
                        if root.op == "local" and root not in st.logs and root not in self.live:
                            continue
                        out.append((root, w.accs))
        return out

    live = ()

    def search_loop(self, fr, st, it, lo, hi, ph, closed, exs, nB, others, skip, post, line, patt):
        """loop with break/return: summarise as first-match search"""
        out = st.copy()
        entry = st.freeze()
        outs = []
        allx = [e for e in exs if e.kind in ("break", "ret")]
        c = t.bor(*[e.cond for e in allx])
        canon = bheight(c) + 1
        if nB is not None and not t.contains(c, lambda y: y.op == "lc"):
            found = mk("ball_ex", lo, hi, t.subst(c, {it: mk("bv", canon)}))
            first = mk("app", "first", lo, hi, t.subst(c, {it: mk("bv", canon)}))
        else:
            found = mk("ball_ex", lo, hi, t.subst(c, {it: mk("bv", canon)}))
            first = mk("app", "first", lo, hi, t.subst(c, {it: mk("bv", canon)}))
        m = {it: first}
        # not found: all iterations ran normally
        nf = st.copy()
        if nB is not None:
            self.apply_summary(nf, entry, nB.state, ph, closed, patt, None, it, lo, hi)
            if post:
                post(nf)
        # found: state of the exiting iteration (carried values up to `first`)
        res = []
        br = self.fold1([Exit("norm", e.cond, e.state) for e in allx if e.kind == "break"])
        rt = self.fold1([e for e in allx if e.kind == "ret"])
        if nB is not None:
            evs = tuple(nB.state.events)
        else:
            evs = ()
        lev = []
        for e in [x for x in (br, rt) if x is not None]:
            s2 = st.copy()
            if nB is not None:
                self.apply_summary(s2, entry, nB.state, ph, closed, patt, None, it, lo, first)
            for root, log in e.state.logs.items():
                old = entry.logs.get(root, ())
                if log is old:
                    continue
                ids = set(map(id, old))
                for w in log:
                    if id(w) in ids:
                        continue
                    val = self.unplace(w.val, ph, closed, nB.state if nB is not None else e.state, it, lo, hi)
                    accs = tuple((a[0],) + tuple(t.subst(x, m) if isinstance(x, T) else x for x in a[1:]) for a in w.accs)
                    write_accs(s2, root, accs, substval(val, m), w.pats)
            e2 = e.state.events
            s2.events = list(st.events) + [Ev("loop", "search", (lo, hi), fr.fn.file if fr.fn else "", line, kids=tuple(join_ev(e.cond, e2, evs)), extra=it)]
            val = e.val
            if isinstance(val, T):
                val = t.subst(val, m)
            elif isinstance(val, Loc):
                val = Loc(t.subst(val.path, m), val.ty)
            cnd = found if (br is None or rt is None) else t.band(found, t.subst(e.cond, m))
            res.append(Exit("norm" if e is br else "ret", cnd, s2, val))
        if evs:
            nf.events.append(Ev("loop", "", (lo, hi), fr.fn.file if fr.fn else "", line, kids=evs, extra=it))
        brn = [e for e in res if e.kind == "norm"]
        rets = [e for e in res if e.kind == "ret"]
        outl = list(rets)
        normal = Exit("norm", t.bnot(found), nf)
        if brn:
            b = brn[0]
            outl.append(Exit("norm", TRUE if not rets else t.bnot(rets[0].cond), join_states(b.cond, b.state, nf)))
        else:
            outl.append(normal)
        for e in exs:
            if e.kind == "throw":
                outl.insert(0, Exit("throw", mk("ex", lo, hi, e.cond), e.state))
        return outl

    def havoc_loop(self, fr, st, cond, inc, body, line, written):
        """loop without a recognised induction variable: least fixpoint term"""
        entry = st.freeze()
        s1 = st.copy()
        s1.events = []
        ph = {}
        for root, accs in written:
            v = read_accs(entry, root, accs)
            p = self.placeholder(v, 0)
            if p is None:
                continue
            ph[(root, accs)] = (p, v)
            write_accs(s1, root, accs, p)
        c = self.cond(cond, fr, s1) if cond is not None else TRUE
        ex = self.iteration(fr, s1, inc, body)
        n = self.fold1([e for e in ex if e.kind == "norm"])
        exitc = t.bor(*[e.cond for e in ex if e.kind in ("break", "ret")])
        out = st.copy()
        lcs = []
        fs = []
        vs = []
        for key, (p, v) in ph.items():
            if isinstance(p, T) and n is not None:
                q = p.args[1] if p.op == "iter" else p
                f = read_accs(n.state, *key)
                if isinstance(f, T):
                    lcs.append((key, q, p))
                    fs.append(self.ivterm(f))
                    vs.append(self.ivterm(v))
        h = max([bheight(x) for x in fs] + [bheight(c), -1]) + 1
        m = {q: mk("acc", h, i) for i, (key, q, p) in enumerate(lcs)}
        body_t = tuple(t.subst(f, m) for f in fs)
        ct = t.subst(c, m)
        for i, (key, q, p) in enumerate(lcs):
            val = mk("wfold", i, ct, t.subst(exitc, m), tuple(vs), body_t)
            if p.op == "iter":
                val = mk("iter", p.args[0], val)
            write_accs(out, key[0], key[1], val)
        for key, (p, v) in ph.items():
            if not isinstance(p, T):
                qq = mk("wloop", uid())
                write_accs(out, key[0], key[1], Mat(p.rows, p.cols, lambda i, j, qq=qq: at2(qq, i, j)))
        evs = n.state.events if n is not None else []
        for e in ex:
            if e.kind in ("break", "ret"):
                evs = join_ev(e.cond, e.state.events + [Ev("ev", "#break", (), "", line)], evs)
        if evs:
            out.events.append(Ev("loop", "while", (c,), fr.fn.file if fr.fn else "", line, kids=tuple(evs)))
        res = [Exit("throw", e.cond, e.state) for e in ex if e.kind == "throw"]
        for e in ex:
            if e.kind == "ret":
                res.append(Exit("ret", mk("app", "loopret", uid()), e.state, e.val))
        res.append(Exit("norm", TRUE, out))
        return res

    # ---------------------------------------------------------------- declarations
    def declare(self, d, fr, st):
        did, name, ty, init, static = d
        tys = fr.tu.types[ty]
        p = mk("local", name, uid())
        if static and not tys.startswith("const ") and not tys.endswith("&") and self.changed(fr, did, tys):
            # keeps what an earlier call left: any value
            fr.env[did] = Loc(mk("glob", "static:%s:%s" % (fr.fn.name if fr.fn is not None else "", name)), strip(tys))
            return
        if tys.endswith("&"):
            v = self.ev(init, fr, st) if init is not None else None
            if isinstance(v, Loc):
                fr.env[did] = Loc(v.path, strip(tys) if not v.ty else v.ty)
                return
            fr.env[did] = Loc(p, strip(tys))
            if v is not None:
                self.store(st, p, v)
            return
        fr.env[did] = Loc(p, strip(tys))
        self.init_into(fr, st, p, init, strip(tys), local=True)

    def changed(self, fr, did, tys):
        """may a static local change after its first initialisation?"""
        if not isscalar(strip(tys)) or fr.fn is None:
            return True
        for n in self.prog.nodes(fr.fn):
            if n[0] == "bin" and n[3].endswith("=") and n[3] not in ("==", "!=", "<=", ">=") or n[0] == "un" and n[3] in ("++", "--", "p++", "p--"):
                x = n[4]
                while isinstance(x, list) and x and x[0] == "cast":
                    x = x[-1]
                if isinstance(x, list) and x and x[0] == "ref" and x[3] == did:
                    return True
        return any(n[0] == "un" and n[3] == "&" for n in self.prog.nodes(fr.fn))

    def init_into(self, fr, st, p, init, ty, local=False):
        if init is None:
            if local:
                st.logs.setdefault(p, ())
            return
        tag = init[0]
        if tag == "ctor":
            self.construct_into(fr, st, p, init)
            st.logs.setdefault(decompose(p)[0], ())
            return
        if tag == "zero":
            write(st, p, ZERO)
            return
        v = self.ev(init, fr, st)
        self.store(st, p, v, ty)

    def construct_into(self, fr, st, p, e):
        # ["ctor", line, ty, fid, name, args, listinit]
        tys = fr.tu.types[e[2]]
        fid, name, args = e[3], e[4], e[5]
        fn = fr.tu.fns.get(fid)
        if fn is None:
            ex = fr.tu.ext.get(fid)
            if ex:
                fn = self.prog.index.get((name, ex["psig"].replace(";", ",")))
        if fn is not None and not self.opaque(fn.name, fn):
            vals = [self.ev(a, fr, st) for a in args]
            self.defaults(fn, p, st)
            self.inline(fn, fr, st, p, vals, e[1])
            return
        s = strip(tys)
        if s.startswith("std::array") or s.startswith("std::vector"):
            if len(args) == 0:
                write(st, fld(p, "#size"), ZERO) if s.startswith("std::vector") else None
                return
            vals = [self.rv(self.ev(a, fr, st), st) for a in args]
            a0 = vals[0]
            if isinstance(a0, T) and a0.op == "list":
                write(st, p, a0)
                return
            aty = fr.tu.types[args[0][2]] if len(args[0]) > 2 and isinstance(args[0][2], int) else ""
            if isint(aty) and isinstance(a0, T):
                write(st, fld(p, "#size"), a0)
                if len(vals) > 1 and isinstance(vals[1], (T, Mat)) and len(args) > 1:
                    aty1 = fr.tu.types[args[1][2]] if isinstance(args[1][2], int) else ""
                    if not aty1.startswith("std::allocator") and "allocator" not in aty1:
                        pv = mk("it", uid())
                        write(st, at1(p, pv), vals[1], ((pv, ZERO, a0),))
                return
            write(st, p, mk("app", "ctor:" + name, *[self.tm(v, st) for v in vals]))
            return
        if ismat(s):
            vals = [self.rv(self.ev(a, fr, st), st) for a in args]
            d = matdims(s)
            if len(vals) == 1 and isinstance(vals[0], T) and vals[0].op == "list":
                write(st, p, vals[0])
                return
            if len(vals) == 1 and d and d[0] == 1 and d[1] == 1 and isinstance(vals[0], T) and isscalar(strip(fr.tu.types[args[0][2]]) if isinstance(args[0][2], int) else ""):
                write(st, p, mk("list", (vals[0],)))
                return
            if len(vals) == 1 and (isinstance(vals[0], Mat) or not isint(fr.tu.types[args[0][2]] if isinstance(args[0][2], int) else "")):
                self.store(st, p, vals[0], s)
                return
            if d and d[1] == 1 and len(vals) == d[0] and d[0] > 2:
                write(st, p, mk("list", tuple(self.tm(v, st) for v in vals)))
                return
            # size constructors
            if len(vals) == 1:
                write(st, fld(p, "#size"), vals[0])
            elif len(vals) == 2:
                if d and d[0] == 2 and d[1] == 1 and not isint(fr.tu.types[args[0][2]]):
                    write(st, p, mk("list", tuple(self.tm(v, st) for v in vals)))
                else:
                    write(st, fld(p, "#rows"), vals[0])
                    write(st, fld(p, "#cols"), vals[1])
            return
        if s.startswith("std::basic_string"):
            if not args:
                write(st, p, mk("str", ""))
                return
            v = self.ev(args[0], fr, st)
            rest = [a for a in args[1:] if not (len(a) > 2 and isinstance(a[2], int) and "allocator" in fr.tu.types[a[2]]) and a[0] != "nodefault"]
            if not s.startswith("std::basic_string<"):
                rest = []
            if rest and isstr(fr.tu.types[args[0][2]] if isinstance(args[0][2], int) else ""):
                # part of a string
                b = self.tm(v, st)
                n = [t.numval(self.tm(self.rv(self.ev(a, fr, st), st), st)) for a in rest]
                if b.op != "str" or n[0] is None:
                    raise Undecided("part of a string")
                b = b.args[0][int(n[0]):]
                if len(n) > 1 and n[1] is not None:
                    b = b[:int(n[1])]
                write(st, p, mk("str", b))
                return
            if rest:
                raise Undecided("a string of several parts")
            write(st, p, self.tm(v, st))
            return
        vals = [self.ev(a, fr, st) for a in args if a[0] not in ("nodefault",)]
        vals = [v for v in vals]
        if self.event(name):
            st.events.append(Ev("ev", name, tuple([p] + [self.tm(v, st) for v in vals]), fr.fn.file, e[1]))
        if not vals:
            # default construction: members with defaults
            self.record_defaults(fr, st, p, s)
            if s.startswith("std::pair<"):
                for f, a in zip(("first", "second"), targs(s)):
                    if a.startswith(("std::vector", "AlignedVector")):
                        write(st, fld(fld(p, f), "#size"), ZERO)
            st.logs.setdefault(decompose(p)[0], ())
            return
        if s.startswith("std::") and len(vals) == 1 and isinstance(vals[0], (Lam,)):
            write(st, p, vals[0])
            return
        write(st, p, mk("app", "ctor:" + name, *[self.tm(v, st) for v in vals]))

    def record_defaults(self, fr, st, p, s, depth=0):
        r = fr.tu.recs.get(s)
        if r is None or depth > 4:
            return
        for b in r["bases"]:
            self.record_defaults(fr, st, p, b, depth + 1)
        for name, ty, init, line in r["fields"]:
            fp = fld(p, name)
            if init is not None:
                f2 = Frame(fr.tu, None, p, fr.fn)
                self.init_into(f2, st, fp, init, fr.tu.types[ty])
            elif fr.tu.types[ty].startswith(("std::vector<", "std::deque<")):
                write(st, fld(fp, "#size"), ZERO)
            else:
                self.record_defaults(fr, st, fp, fr.tu.types[ty], depth + 1)

    def defaults(self, fn, p, st):
        return

    # ---------------------------------------------------------------- storing
    def store(self, st, p, v, ty=""):
        if isinstance(v, Loc):
            v = self.rvcopy(v, st)
        if p.op in ("row", "col", "seg", "blk", "map", "tr", "arr"):
            self.store_view(st, p, v)
            return
        if isinstance(v, T) and v.op in ("row", "col", "seg", "blk", "map", "tr"):
            v = self.viewmat(v, st)
        if v is None:
            v = mk("app", "void")
        write(st, p, v)

    def store_view(self, st, p, v):
        f = elt(v) if not (isinstance(v, T) and v.op == "list") else None
        op = p.op
        if f is None:
            f = lambda i, j: at1(v, t.add(i, j))
        if isinstance(v, T) and t.numval(v) is not None:
            f = lambda i, j: v
        if op in ("arr", "tr") and p.args[0].op in ("row", "col", "seg", "blk", "map", "arr", "tr"):
            if op == "arr":
                return self.store_view(st, p.args[0], v)
            g = f
            return self.store_view(st, p.args[0], Mat(None, None, lambda i, j: g(j, i)))
        if op == "row":
            pv = mk("it", uid())
            val = v.at(pv) if isinstance(v, Mat) else f(ZERO, pv)
            write(st, at1(p, pv), val, ((pv, ZERO, self.dimof(p.args[0], 1, st)),))
        elif op == "col":
            base = p.args[0]
            pv = mk("it", uid())
            val = v.at(pv) if isinstance(v, Mat) else f(pv, ZERO)
            write(st, at1(p, pv), val, ((pv, ZERO, None),))
        elif op == "seg":
            n = intval(p.args[2])
            if n is not None and n <= 9:
                for k in range(n):
                    write(st, at1(p, num(k)), v.at(num(k)) if isinstance(v, Mat) else at1(v, num(k)))
                return
            pv = mk("it", uid())
            val = v.at(pv) if isinstance(v, Mat) else at1(v, pv)
            write(st, at1(p, pv), val, ((pv, ZERO, p.args[2]),))
        elif op in ("blk", "map"):
            if op == "blk":
                nr, nc = p.args[3], p.args[4]
            else:
                nr, nc = p.args[1], p.args[2]
            n1, n2 = intval(nr), intval(nc)
            r1 = [num(i) for i in range(n1)] if n1 is not None and n1 <= 9 else None
            r2 = [num(i) for i in range(n2)] if n2 is not None and n2 <= 9 else None
            pats = []
            if r1 is None:
                pi = mk("it", uid())
                pats.append((pi, ZERO, nr))
                r1 = [pi]
            if r2 is None:
                pj = mk("it", uid())
                pats.append((pj, ZERO, nc))
                r2 = [pj]
            for i in r1:
                for j in r2:
                    write(st, at2(p, i, j), f(i, j), tuple(pats))
        else:
            raise Undecided("store to view " + op)

    def dimof(self, p, k, st):
        return None

    def viewmat(self, p, st):
        """Mat reading a view path in the current state"""
        snap = st.freeze()
        op = p.op
        rd = lambda q: self.sc(read(snap, q))
        if op == "row":
            return Mat(ONE, self.dim(p.args[0], 1, snap), lambda i, j: rd(at1(p, j)))
        if op == "col":
            return Mat(self.dim(p.args[0], 0, snap), ONE, lambda i, j: rd(at1(p, i)))
        if op == "seg":
            return Mat(p.args[2], ONE, lambda i, j: rd(at1(p, i if j is ZERO else j)))
        if op == "blk":
            return Mat(p.args[3], p.args[4], lambda i, j: rd(at2(p, i, j)))
        if op == "map":
            return Mat(p.args[1], p.args[2], lambda i, j: rd(at2(p, i, j)))
        if op == "arr":
            m = self.viewmat(p.args[0], st) if p.args[0].op in ("row", "col", "seg", "blk", "map", "tr", "arr") else self.locmat(p.args[0], "", st)
            return m
        if op == "tr":
            b = p.args[0]
            m = self.viewmat(b, st) if b.op in ("row", "col", "seg", "blk", "map", "tr", "arr") else self.locmat(b, "", st)
            f = m.f
            return Mat(m.cols, m.rows, lambda i, j: f(j, i))
        raise Undecided("view " + op)

    def sc(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, Mat):
            return v.f(ZERO, ZERO)
        raise Undecided("scalar expected")

    def dim(self, p, k, st):
        if p.op in ("blk",):
            return p.args[3 + k]
        if p.op == "map":
            return p.args[1 + k]
        if p.op == "tr":
            return self.dim(p.args[0], 1 - k, st)
        if p.op in ("row", "col", "seg"):
            if p.op == "row":
                return ONE if k == 0 else self.dim(p.args[0], 1, st)
            if p.op == "col":
                return ONE if k == 1 else self.dim(p.args[0], 0, st)
            return p.args[2] if k == 0 else ONE
        d = self.types_of.get(p)
        if d and d[k] >= 0:
            return num(d[k])
        v = read(st, fld(p, "#rows" if k == 0 else "#cols"))
        return v if isinstance(v, T) else None

    types_of = {}

    def locmat(self, p, ty, st):
        snap = st.freeze()
        d = matdims(ty) or self.types_of.get(p)
        if d:
            self.types_of[p] = d
        v = read(snap, p)
        if isinstance(v, Mat):
            if not under_strict(snap, p):
                return v
        r = num(d[0]) if d and d[0] >= 0 else self.dim(p, 0, snap)
        c = num(d[1]) if d and d[1] >= 0 else self.dim(p, 1, snap)
        if isinstance(v, Mat):
            r = r if r is not None and t.numval(r) is not None else v.rows
            c = c if c is not None and t.numval(c) is not None else v.cols
        rd = lambda q: self.sc(read(snap, q))
        if d and (d[1] == 1 and d[0] != 1):
            return Mat(self.vdim(r, p, snap), ONE, lambda i, j: rd(at1(p, i)))
        if d and d[0] == 1 and d[1] != 1:
            return Mat(ONE, self.vdim(c, p, snap), lambda i, j: rd(at1(p, j)))
        return Mat(r, c, lambda i, j: rd(at2(p, i, j)))

    def vdim(self, d, p, st):
        if d is not None and t.numval(d) is not None:
            return d
        v = read(st, fld(p, "#size"))
        return v if isinstance(v, T) else d

    def rv(self, v, st):
        """rvalue of v (scalar term, Mat, or path term for objects)"""
        if isinstance(v, Loc):
            if v.path.op in ("row", "col", "seg", "blk", "map", "tr", "arr"):
                return self.viewmat(v.path, st)
            if ismat(v.ty):
                r = read(st, v.path)
                if isinstance(r, T) and r.op == "list":
                    l = r
                    d = matdims(v.ty)
                    if d and d[0] == 1:
                        return Mat(ONE, num(len(l.args[0])), lambda i, j: at1(l, j))
                    return Mat(num(len(l.args[0])), ONE, lambda i, j: at1(l, i))
                return self.locmat(v.path, v.ty, st)
            r = read(st, v.path)
            return r
        return v

    def rvcopy(self, v, st):
        """value used when copying an object"""
        if isinstance(v, Loc):
            if ismat(v.ty) or v.path.op in ("row", "col", "seg", "blk", "map", "tr", "arr"):
                return self.rv(v, st)
            r = read(st, v.path)
            if isinstance(r, T) and r is v.path and not isscalar(v.ty):
                if under(st, v.path):
                    return Struct(st.freeze(), v.path)
                return r
            if not isscalar(v.ty) and under_strict(st, v.path):
                return Struct(st.freeze(), v.path)
            return r
        return v

    def snap(self, v, st):
        return self.rvcopy(v, st)

    def tm(self, v, st):
        """term for a value (reified)"""
        if v is None:
            return mk("app", "void")
        if isinstance(v, T):
            return v
        if isinstance(v, Loc):
            if v.path.op in ("row", "col", "seg", "blk", "map", "tr", "arr"):
                return self.tm(self.viewmat(v.path, st), st)
            if ismat(v.ty):
                r = self.rv(v, st)
                return self.tm(r, st)
            r = read(st, v.path)
            if isinstance(r, T):
                if r is v.path or isscalar(v.ty):
                    return r
                return r
            if isinstance(r, (Struct,)):
                return mk("obj", v.path) if not under(r.state, r.path) else v.path
            return self.tm(r, st) if r is not v else v.path
        if isinstance(v, Mat):
            return reify(v)
        if isinstance(v, Lam):
            return mk("lamfn", v.lid)
        if isinstance(v, Struct):
            return v.path
        if isinstance(v, Join):
            return t.phi(v.c, self.tm(v.a, st), self.tm(v.b, st))
        return mk("app", "?")

    # ---------------------------------------------------------------- params
    def bindparam(self, fr, st, pid, name, tys, a):
        if tys.endswith("&"):
            if isinstance(a, Loc):
                fr.env[pid] = Loc(a.path, a.ty or strip(tys))
                return
            if isinstance(a, (Lam,)):
                p = mk("local", name or "arg", uid())
                write(st, p, a)
                fr.env[pid] = Loc(p, strip(tys))
                return
            p = mk("local", name or "arg", uid())
            self.store(st, p, a)
            fr.env[pid] = Loc(p, strip(tys))
            return
        self.bindlocal(fr, st, pid, name, tys, a)

    def bindlocal(self, fr, st, pid, name, tys, a):
        if isinstance(a, Loc) and a.path.op == "param":
            fr.env[pid] = a
            return
        p = mk("local", name or "arg", uid())
        fr.env[pid] = Loc(p, strip(tys))
        self.store(st, p, a)

    # ---------------------------------------------------------------- expressions
    def cond(self, e, fr, st):
        if e is None:
            return TRUE
        v = self.rv(self.ev(e, fr, st), st)
        if not isinstance(v, T):
            return mk("app", "cond")
        c = t.tobool(v)
        if self.decide is not None and c is not TRUE and c is not FALSE:
            d = self.decide(c)
            if d is not None:
                return TRUE if d else FALSE
        return c

    def ev(self, e, fr, st):
        k = e[0]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Undecided("expression kind " + k)
        return m(e, fr, st)

    def e_int(self, e, fr, st):
        return num(e[3])

    def e_flt(self, e, fr, st):
        s = e[3].rstrip("fFlL").replace("'", "")
        try:
            return num(Fraction(s))
        except ValueError:
            return num(Fraction(e[4]))

    def e_bool(self, e, fr, st):
        return TRUE if e[3] else FALSE

    def e_chr(self, e, fr, st):
        return num(e[3])

    def e_str(self, e, fr, st):
        return mk("str", e[3])

    def e_nullptr(self, e, fr, st):
        return mk("nullptr")

    def e_zero(self, e, fr, st):
        return ZERO

    def e_enum(self, e, fr, st):
        return num(int(e[4]))

    def e_fref(self, e, fr, st):
        return mk("fn", e[4])

    def e_sizeof(self, e, fr, st):
        return num(e[3]) if e[3] is not None else mk("app", "sizeof")

    def e_this(self, e, fr, st):
        return mk("addr", fr.this)

    def e_throw(self, e, fr, st):
        st.events.append(Ev("ev", "throw", (), fr.fn.file, e[1]))
        self.dead = True
        return None

    def e_ref(self, e, fr, st):
        did, name, kind = e[3], e[4], e[5]
        ty = fr.tu.types[e[2]]
        if kind == "g":
            g = mk("glob", name)
            gv = fr.tu.vars.get(did)
            if gv is not None and g not in st.logs:
                if gv.get("cv") is not None and not name.startswith("std::"):
                    if isint(fr.tu.types[gv["type"]]) or "bool" in fr.tu.types[gv["type"]]:
                        return num(gv["cv"])
                pg = self.prog.globs.get(name)
                if pg is not None and self.const_globals(name, fr.tu.types[gv["type"]]):
                    return self.globval(pg, g, ty, st)
            return Loc(g, ty)
        b = fr.look(did)
        if b is None:
            return Loc(mk("bound", name), ty)
        return b

    def const_globals(self, name, ty):
        return ty.startswith("const ") and ("array" in ty or "initializer" in ty or ty.startswith("const std::"))

    def globval(self, pg, g, ty, st):
        tu, v = pg
        key = (tu.name, v["id"])
        if key not in self._gl:
            f2 = Frame(tu, None, None, None)
            s2 = State()
            try:
                self.init_into(f2, s2, g, v["init"], ty)
                self._gl[key] = s2
            except Undecided:
                self._gl[key] = None
        s2 = self._gl[key]
        if s2 is None:
            return Loc(g, ty)
        for r, l in s2.logs.items():
            if r not in st.logs and l:
                st.logs[r] = l
        return Loc(g, ty)

    _gl = {}

    def e_mem(self, e, fr, st):
        base, name, arrow = e[3], e[4], e[5]
        ty = fr.tu.types[e[2]]
        b = self.ev(base, fr, st)
        if arrow:
            bv = self.rv(b, st)
            if not isinstance(bv, T):
                raise Undecided("arrow on non pointer")
            p = deref(bv)
        elif isinstance(b, Loc):
            p = b.path
        elif isinstance(b, Struct):
            return substruct(b, ("f", name))
        elif isinstance(b, T):
            p = b
        else:
            raise Undecided("member of value")
        p = fld(p, name)
        return Loc(self.alias.get(p, p) if self.alias else p, ty)

    def e_idx(self, e, fr, st):
        b = self.ev(e[3], fr, st)
        i = self.rv(self.ev(e[4], fr, st), st)
        ty = fr.tu.types[e[2]]
        p = b.path if isinstance(b, Loc) else b
        if isinstance(b, Loc) and b.ty.endswith("*"):
            p = self.rv(b, st)
            if p.op == "addr":
                return Loc(at1(p, i) if p.args[0].op == "elem" else at1(p.args[0], i), ty)
        return Loc(at1(p, i), ty)

    def e_init(self, e, fr, st):
        items = [self.ev(x, fr, st) if x is not None else ZERO for x in e[3]]
        ty = fr.tu.types[e[2]]
        s = strip(ty)
        if s.startswith("std::array") and len(items) == 1:
            v = items[0]
            if isinstance(v, T) and v.op == "list":
                return v
        rec = fr.tu.recs.get(s)
        if rec is not None:
            p = mk("local", "agg", uid())
            for f, v in zip(rec["fields"], items):
                self.store(st, fld(p, f[0]), v)
            return Loc(p, s)
        if isscalar(s) and len(items) == 1:
            return items[0]
        vals = []
        for v in items:
            v = self.rv(v, st)
            vals.append(self.tm(v, st))
        return mk("list", tuple(vals))

    VIEWS = ("row", "col", "seg", "blk", "map", "tr", "arr")

    def isview(self, v):
        return isinstance(v, Loc) and v.path.op in self.VIEWS

    def e_copy(self, e, fr, st):
        v = self.ev(e[3], fr, st)
        if self.isview(v):
            return v
        if isinstance(v, Loc):
            return self.rvcopy(v, st)
        return v

    def e_cast(self, e, fr, st):
        kind = e[3]
        v = self.ev(e[4], fr, st)
        ty = fr.tu.types[e[2]]
        if kind in ("IntegralCast", "IntegralToFloating", "FloatingCast"):
            return self.rv(v, st)
        if kind == "FloatingToIntegral":
            x = self.rv(v, st)
            n = t.numval(x) if isinstance(x, T) else None
            if n is not None:
                return num(int(n))
            return t.app("toint", x)
        if kind in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            x = self.rv(v, st)
            return t.bnot(t.eq(x, ZERO)) if isinstance(x, T) and not t.isbool(x) and x.op not in ("phi",) else (t.tobool(x) if isinstance(x, T) else x)
        if kind in ("NoOp", "LValueToRValue", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "ToVoid", "BitCast", "LValueBitCast"):
            return v
        return v

    def e_cond(self, e, fr, st):
        c = self.cond(e[3], fr, st)
        if c is TRUE:
            return self.ev(e[4], fr, st)
        if c is FALSE:
            return self.ev(e[5], fr, st)
        sa, sb = st.copy(), st.copy()
        d0 = self.dead
        va = self.ev(e[4], fr, sa)
        da = self.dead
        self.dead = d0
        vb = self.ev(e[5], fr, sb)
        db = self.dead
        self.dead = d0
        if da and not db:
            # assert-like: continue with b
            js = sb
            st.logs, st.events = js.logs, js.events
            return vb
        if db and not da:
            st.logs, st.events = sa.logs, sa.events
            return va
        if isinstance(va, Loc) and isinstance(vb, Loc):
            ra = t.phi(c, va.path, vb.path)
            lv = Loc(ra, va.ty)
            js = join_states(c, sa, sb)
            st.logs, st.events = js.logs, js.events
            return lv
        va, vb = self.rv(va, sa), self.rv(vb, sb)
        js = join_states(c, sa, sb)
        st.logs, st.events = js.logs, js.events
        if va is None or vb is None:
            return None
        return joinval(c, va, vb)

    def e_lambda(self, e, fr, st):
        return Lam(e[3], fr, e[4])

    def e_new(self, e, fr, st):
        p = mk("new", uid())
        if e[3] is not None:
            self.init_into(fr, st, p, e[3], "")
        return mk("addr", p)

    def e_delete(self, e, fr, st):
        return None

    def e_opaque(self, e, fr, st):
        return mk("app", "opaque:" + e[3])

    def e_un(self, e, fr, st):
        op = e[3]
        if op in ("++", "--", "p++", "p--"):
            l = self.ev(e[4], fr, st)
            old = self.rv(l, st)
            d = ONE if "+" in op else num(-1)
            if isinstance(old, T) and old.op == "iter":
                new = mk("iter", old.args[0], t.add(old.args[1], d))
            elif isinstance(old, T):
                new = t.add(old, d)
            else:
                raise Undecided("++ on non scalar")
            self.store(st, l.path, new)
            return l if not op.startswith("p") else old
        if op == "*":
            v = self.rv(self.ev(e[4], fr, st), st)
            return Loc(deref(v), fr.tu.types[e[2]])
        if op == "&":
            v = self.ev(e[4], fr, st)
            if isinstance(v, Loc):
                return mk("addr", v.path)
            return mk("addr", self.tm(v, st))
        v = self.rv(self.ev(e[4], fr, st), st)
        if op == "-":
            return self.mapv(v, t.neg)
        if op in ("+", "__extension__"):
            return v
        if op == "!":
            return t.bnot(t.tobool(v)) if isinstance(v, T) else mk("app", "not")
        if op == "~":
            return t.app("bitnot", v)
        raise Undecided("unary " + op)

    def mapv(self, v, f):
        if isinstance(v, Mat):
            g = v.f
            return Mat(v.rows, v.cols, lambda i, j: f(g(i, j)))
        return f(v)

    def e_bin(self, e, fr, st):
        op = e[3]
        if op == "=":
            r = self.ev(e[5], fr, st)
            l = self.ev(e[4], fr, st)
            self.assign(l, r, st, fr, e[1])
            return l
        if op in ("+=", "-=", "*=", "/=", "%=", "|=", "&=", "<<=", ">>=", "^="):
            r = self.rv(self.ev(e[5], fr, st), st)
            l = self.ev(e[4], fr, st)
            old = self.rv(l, st)
            new = self.arith(op[:-1], old, r, fr.tu.types[e[2]])
            self.assign(l, new, st, fr, e[1])
            return l
        if op == "&&":
            a = self.cond(e[4], fr, st)
            if a is FALSE:
                return FALSE
            b = self.cond(e[5], fr, st)
            return t.band(a, b)
        if op == "||":
            a = self.cond(e[4], fr, st)
            if a is TRUE:
                return TRUE
            b = self.cond(e[5], fr, st)
            return t.bor(a, b)
        if op == ",":
            self.ev(e[4], fr, st)
            return self.ev(e[5], fr, st)
        a = self.rv(self.ev(e[4], fr, st), st)
        b = self.rv(self.ev(e[5], fr, st), st)
        return self.arith(op, a, b, fr.tu.types[e[2]])

    def assign(self, l, r, st, fr, line):
        if not isinstance(l, Loc):
            if isinstance(l, Mat):
                raise Undecided("assign to rvalue")
            l = Loc(l)
        self.store(st, l.path, r, l.ty)

    def arith(self, op, a, b, ty=""):
        if isinstance(a, Mat) or isinstance(b, Mat):
            return self.matarith(op, a, b)
        if not isinstance(a, T) or not isinstance(b, T):
            raise Undecided("arith on objects")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if a.op == "iter" and b.op == "iter":
                a, b = a.args[1], b.args[1]
            if op == "==":
                return t.eq(a, b)
            if op == "!=":
                return t.bnot(t.eq(a, b))
            if op == "<":
                return t.lt(a, b)
            if op == ">":
                return t.lt(b, a)
            if op == "<=":
                return t.le(a, b)
            return t.le(b, a)
        if op == "+":
            if a.op == "iter":
                return mk("iter", a.args[0], t.add(a.args[1], b))
            if a.op == "addr" and a.args[0].op == "elem":
                return mk("addr", at1(a.args[0].args[0], t.add(a.args[0].args[1], b)))
            return t.add(a, b)
        if op == "-":
            if a.op == "iter" and b.op == "iter":
                return t.sub(a.args[1], b.args[1])
            if a.op == "iter":
                return mk("iter", a.args[0], t.sub(a.args[1], b))
            return t.sub(a, b)
        if op == "*":
            return t.mul(a, b)
        if op == "/":
            if isint(ty):
                x, y = t.numval(a), t.numval(b)
                if x is not None and y not in (None, 0):
                    return num(int(x / y))
                return mk("idiv", a, b)
            return t.div(a, b)
        if op == "%":
            x, y = t.numval(a), t.numval(b)
            if x is not None and y not in (None, 0):
                return num(x % y)
            return t.app("mod", a, b)
        x, y = intval(a), intval(b)
        if op == "<<":
            if y is not None:
                return t.mul(a, num(2 ** y))
            if x is not None and y is not None:
                return num(x << y)
            return t.app("shl", a, b)
        if op == "|":
            return t.app("bitor", *sorted((a, b), key=lambda z: z.key))
        if op == "&":
            return t.app("bitand", *sorted((a, b), key=lambda z: z.key))
        if op == "^":
            return t.app("bitxor", *sorted((a, b), key=lambda z: z.key))
        return t.app("op" + op, a, b)

    def matarith(self, op, a, b):
        if op in ("+", "-"):
            fa, fb = elt(a), elt(b)
            if isinstance(a, T) and t.numval(a) is not None:
                fa = lambda i, j: a
            if isinstance(b, T) and t.numval(b) is not None:
                fb = lambda i, j: b
            m = a if isinstance(a, Mat) else b
            o = t.add if op == "+" else t.sub
            va, vb = isinstance(a, Mat) and a.isvec(), isinstance(b, Mat) and b.isvec()
            # orient: element access is identical for equal shapes
            rows = m.rows
            cols = m.cols
            if isinstance(a, Mat) and isinstance(b, Mat):
                rows = a.rows if (a.rows is not None and t.numval(a.rows) is not None) else (b.rows if b.rows is not None else a.rows)
                cols = a.cols if (a.cols is not None and t.numval(a.cols) is not None) else (b.cols if b.cols is not None else a.cols)
            return Mat(rows, cols, lambda i, j: o(fa(i, j), fb(i, j)))
        if op == "*":
            if isinstance(a, T):
                f = b.f
                return Mat(b.rows, b.cols, lambda i, j: t.mul(a, f(i, j)))
            if isinstance(b, T):
                f = a.f
                return Mat(a.rows, a.cols, lambda i, j: t.mul(f(i, j), b))
            return self.matmul(a, b)
        if op == "/":
            if isinstance(b, T):
                f = a.f
                return Mat(a.rows, a.cols, lambda i, j: t.div(f(i, j), b))
        raise Undecided("matrix op " + op)

    def matmul(self, a, b):
        n = None
        for x in (a.cols, b.rows):
            if x is not None and t.numval(x) is not None:
                n = int(t.numval(x))
        fa, fb = a.f, b.f
        if n is not None and n <= 12:
            def f(i, j):
                return t.add(*[t.mul(fa(i, num(k)), fb(num(k), j)) for k in range(n)])
            return Mat(a.rows, b.cols, f)
        dim = a.cols if a.cols is not None else b.rows
        if dim is None:
            dim = mk("dim", "?")

        def g(i, j):
            it = mk("it", uid())
            return mksum(it, ZERO, dim, t.mul(fa(i, it), fb(it, j)))
        return Mat(a.rows, b.cols, g)

    # ---------------------------------------------------------------- calls
    dead = False

    def e_call(self, e, fr, st):
        return self.call(e, fr, st, e[3], e[4], None, e[5])

    def e_mcall(self, e, fr, st):
        return self.call(e, fr, st, e[3], e[4], e[5], e[6])

    def e_ocall(self, e, fr, st):
        fid, name, op, args = e[3], e[4], e[5], e[6]
        fn = fr.tu.fns.get(fid)
        if fn is not None and fn.cls is not None:
            return self.call(e, fr, st, fid, name, args[0], args[1:])
        if fn is not None:
            return self.call(e, fr, st, fid, name, None, args)
        ex = fr.tu.ext.get(fid)
        if ex is not None and ex.get("cls"):
            fn = self.prog.index.get((name, ex["psig"].replace(";", ",")))
            if fn is not None:
                return self.call(e, fr, st, fid, name, args[0], args[1:])
        return self.op(e, fr, st, fid, name, op, args)

    def e_icall(self, e, fr, st):
        f = self.ev(e[3], fr, st)
        vals = [self.ev(a, fr, st) for a in e[4]]
        st.events.append(Ev("ev", "icall", (self.tm(f, st),), fr.fn.file, e[1]))
        return mk("app", "icall", self.tm(f, st))

    def e_ctor(self, e, fr, st):
        tys = fr.tu.types[e[2]]
        s = strip(tys)
        m = _mapre.match(s)
        if m and len(e[5]) >= 2:
            v = self.rv(self.ev(e[5][0], fr, st), st)
            ds = [self.rv(self.ev(a, fr, st), st) for a in e[5][1:3] if a[0] not in ("nodefault", "ctor")]
            r, c, o = int(m.group(1)), int(m.group(2)), int(m.group(3))
            if isinstance(v, T) and v.op == "addr" and v.args[0].op == "elem" and all(isinstance(d, T) for d in ds):
                base, k0 = v.args[0].args
                rows = num(r) if r >= 0 else ds[0]
                cols = num(c) if c >= 0 else (ds[1] if len(ds) > 1 else ds[0])
                if k0 is not ZERO:
                    base = mk("seg", base, k0, t.mul(rows, cols))
                return Loc(mk("map", base, rows, cols, "r" if o & 1 else "c"), s)
        p = mk("local", "tmp", uid())
        self.construct_into(fr, st, p, e)
        if isscalar(s):
            return self.rv(Loc(p, s), st)
        return Loc(p, s)

    def inline(self, fn, fr, st, this, vals, line, parent=None):
        if fr.depth > MAXDEPTH:
            raise Undecided("inlining depth")
        self.calls_inlined += 1
        self.inlined.add(fn.name)
        f2 = Frame(fn.tu, parent, this, fn, fr.depth + 1)
        if parent is not None and this is None:
            f2.this = parent.this
        for k, (pid, name, ty) in enumerate(fn.params):
            a = vals[k] if k < len(vals) else None
            if a is None:
                continue
            self.bindparam(f2, st, pid, name, fn.tu.types[ty], a)
        ex = self.body(fn, f2, st)
        thr = [x for x in ex if x.kind == "throw"]
        if not [x for x in ex if x.kind in ("norm", "ret")]:
            self.dead = True
            if thr:
                s = thr[-1].state
                st.logs, st.events = s.logs, s.events
            return None
        s, v = self.finish(ex, fn)
        self.ended(thr, s)
        st.logs, st.events = s.logs, s.events
        return v

    def call(self, e, fr, st, fid, name, objn, argn):
        self.sites += 1
        line = e[1]
        fn = fr.tu.fns.get(fid)
        ext = fr.tu.ext.get(fid)
        if fn is None and ext is not None:
            fn = self.prog.index.get((name, ext["psig"].replace(";", ",")))
        obj = self.ev(objn, fr, st) if objn is not None else None
        this = None
        if objn is not None:
            if isinstance(obj, Loc):
                this = obj.path
                if obj.ty.endswith("*"):
                    pv = self.rv(obj, st)
                    this = deref(pv)
                    obj = Loc(this, obj.ty[:-1])
            elif isinstance(obj, T) and obj.op == "addr":
                this = obj.args[0]
                obj = Loc(this)
        if self.hook is not None:
            r = self.hook(self, e, fr, st, name, fn, obj, this, argn)
            if r is not NotImplemented:
                return r
        if self.event(name):
            vals = [self.ev(a, fr, st) for a in argn]
            ts = ([self.tm(obj, st) if not isinstance(obj, Loc) else obj.path] if obj is not None else []) + [self.tm(v, st) for v in vals]
            st.events.append(Ev("ev", name, tuple(ts), fr.fn.file, line))
            if fn is not None and self.opaque(name, fn):
                return self.opaque_result(e, fr, st, name, ts)
            if fn is None:
                return self.opaque_call(e, fr, st, name, ext, obj, argn, vals=vals, ts=ts)
        if fn is not None and not self.opaque(name, fn):
            # lambda operator()
            vals = [self.ev(a, fr, st) for a in argn]
            if fn.lam:
                lv = self.rv(obj, st)
                if isinstance(lv, Lam):
                    return self.inline(fn, fr, st, None, vals, line, parent=lv.frame)
                return self.inline(fn, fr, st, None, vals, line, parent=fr)
            if objn is not None and this is None:
                p = mk("local", "tmpobj", uid())
                self.store(st, p, obj)
                this = p
            if fn.static or fn.cls is None:
                this = None
            return self.inline(fn, fr, st, this, vals, line)
        if fn is not None:
            vals = [self.ev(a, fr, st) for a in argn]
            ts = ([obj.path if isinstance(obj, Loc) else self.tm(obj, st)] if obj is not None else []) + [self.tm(v, st) for v in vals]
            return self.opaque_result(e, fr, st, name, ts)
        m = self.model(name, e, fr, st, obj, argn, ext)
        if m is not NotImplemented:
            return m
        return self.opaque_call(e, fr, st, name, ext, obj, argn)

    def opaque_result(self, e, fr, st, name, ts):
        ty = fr.tu.types[e[2]]
        a = mk("app", name, *ts)
        if ismat(strip(ty)):
            d = matdims(strip(ty))
            if d and d[1] == 1:
                return Mat(num(d[0]) if d[0] >= 0 else mk("fld", a, "#size"), ONE, lambda i, j: at1(a, i))
            if d and d[0] == 1:
                return Mat(ONE, num(d[1]) if d[1] >= 0 else mk("fld", a, "#size"), lambda i, j: at1(a, j))
            return Mat(num(d[0]) if d and d[0] >= 0 else mk("fld", a, "#rows"), num(d[1]) if d and d[1] >= 0 else mk("fld", a, "#cols"), lambda i, j: at2(a, i, j))
        if strip(ty) == "void":
            return None
        if isscalar(ty):
            return a
        return Loc(a, strip(ty))

    PUREOBJ = ("std::", "Eigen::", "YAML::")

    def opaque_call(self, e, fr, st, name, ext, obj, argn, vals=None, ts=None):
        if vals is None:
            vals = [self.ev(a, fr, st) for a in argn]
            ts = ([obj.path if isinstance(obj, Loc) else self.tm(obj, st)] if obj is not None else []) + [self.tm(v, st) for v in vals]
        a = mk("app", name, *ts)
        if name in ("exit", "abort", "std::terminate", "__assert_fail", "std::exit", "std::abort", "MPI_Abort", "_exit"):
            if name != "__assert_fail" and not self.event(name):
                st.events.append(Ev("ev", name, tuple(ts), fr.fn.file if fr.fn else "", e[1]))
            self.dead = True
            return None
        psig = ext["psig"].split(";") if ext and ext["psig"] else []
        if ext is not None:
            for k, (v, p) in enumerate(zip(vals, psig)):
                if isinstance(v, Loc) and p.endswith("&") and not p.startswith("const "):
                    write(st, v.path, mk("out", name, k, a)) if v.path.op not in ("row", "col", "seg", "blk", "map", "tr", "arr") else None
                elif p.endswith("*") and not p.startswith("const "):
                    pt = self.rv(v, st)
                    if isinstance(pt, T) and pt.op == "addr" and pt.args[0].op not in ("row", "col", "seg", "blk", "map", "tr", "arr"):
                        q = pt.args[0]
                        if q.op == "elem":
                            pv = mk("it", uid())
                            # a C buffer
                            continue
                        write(st, q, mk("out", name, k, a))
            if not ext["const"] and obj is not None and isinstance(obj, Loc) and not name.split("::")[-1].startswith("~"):
                if not self.event(name):
                    st.events.append(Ev("ev", name, tuple(ts), fr.fn.file if fr.fn else "", e[1]))
        return self.opaque_result(e, fr, st, name, ts)

    # ---------------------------------------------------------------- operators outside the repository
    def op(self, e, fr, st, fid, name, op, args):
        tu = fr.tu
        rty = tu.types[e[2]]
        if self.hook is not None:
            r = self.hook(self, e, fr, st, name + "#" + op, None, None, None, args)
            if r is not NotImplemented:
                return r
        if op == "[]":
            b = self.ev(args[0], fr, st)
            i = self.rv(self.ev(args[1], fr, st), st)
            if isinstance(b, Loc):
                if isinstance(i, T):
                    if name.startswith("YAML::"):
                        return Loc(mk("yaml", b.path, i), rty)
                    return Loc(at1(b.path, i), strip(rty))
            if isinstance(b, Mat):
                return b.at(i)
            if isinstance(b, T):
                return Loc(at1(b, i), strip(rty))
            if isinstance(b, Struct):
                return substruct(b, ("i", i))
            raise Undecided("[]")
        if op == "()":
            b = self.ev(args[0], fr, st)
            idx = [self.rv(self.ev(a, fr, st), st) for a in args[1:]]
            if isinstance(b, Loc) and (ismat(b.ty) or b.path.op in ("row", "col", "seg", "blk", "map", "tr", "arr") or name.startswith("Eigen")):
                if len(idx) == 1:
                    return Loc(at1(b.path, idx[0]), strip(rty))
                d = matdims(b.ty)
                if d and d[1] == 1:
                    return Loc(at1(b.path, idx[0]), strip(rty))
                return Loc(at2(b.path, idx[0], idx[1]), strip(rty))
            if isinstance(b, Mat):
                return b.at(idx[0]) if len(idx) == 1 else b.f(idx[0], idx[1])
            if isinstance(b, T):
                return at1(b, idx[0]) if len(idx) == 1 else at2(b, *idx)
            raise Undecided("()")
        if op == "=":
            r = self.ev(args[1], fr, st)
            l = self.ev(args[0], fr, st)
            if isinstance(l, Loc):
                if ismat(l.ty) or l.path.op in ("row", "col", "seg", "blk", "map", "tr", "arr"):
                    rv = self.rv(r, st)
                    if isinstance(rv, T) and rv.op == "list":
                        self.store(st, l.path, rv)
                    else:
                        self.store(st, l.path, rv, l.ty)
                else:
                    self.store(st, l.path, r, l.ty)
                return l
            if isinstance(l, T):
                self.store(st, l, r)
                return Loc(l)
            raise Undecided("= to rvalue")
        if op in ("+=", "-=", "*=", "/="):
            r = self.rv(self.ev(args[1], fr, st), st)
            l = self.ev(args[0], fr, st)
            if name.startswith("std::basic_string") or name.startswith("std::__cxx11"):
                old = self.rv(l, st)
                self.store(st, l.path, self.strcat(old, r))
                return l
            old = self.rv(l, st)
            if isinstance(old, T) and isinstance(r, Mat):
                p = l.path
                old = self.locmat(p, l.ty, st)
            self.store(st, l.path, self.arith(op[:-1], old, r), l.ty)
            return l
        if op in ("->", "*") and len(args) == 1:
            b = self.ev(args[0], fr, st)
            v = self.rv(b, st) if isinstance(b, Loc) else b
            if not isinstance(v, T):
                v = b.path
            if v.op == "iter":
                p = iterpath(v)
            else:
                p = deref(v)
            if op == "->":
                return mk("addr", p)
            return Loc(p, strip(rty))
        if op in ("++", "--"):
            l = self.ev(args[0], fr, st)
            old = self.rv(l, st)
            d = ONE if op == "++" else num(-1)
            if isinstance(old, T) and old.op == "iter":
                new = mk("iter", old.args[0], t.add(old.args[1], d))
            else:
                new = t.app("next", self.tm(old, st))
            self.store(st, l.path, new)
            return l
        if op in ("<<", ">>") and (name.startswith("std::") or "stream" in rty):
            l = self.ev(args[0], fr, st)
            r = self.ev(args[1], fr, st)
            lp = l.path if isinstance(l, Loc) else self.tm(l, st)
            if op == "<<":
                v = r.path if isinstance(r, Loc) and not isscalar(r.ty) and isinstance(read(st, r.path), T) and read(st, r.path) is r.path else self.tm(r, st)
                st.events.append(Ev("ev", "<<", (lp, v), fr.fn.file if fr.fn else "", e[1]))
            else:
                if isinstance(r, Loc):
                    st.events.append(Ev("ev", ">>", (lp, r.path), fr.fn.file if fr.fn else "", e[1]))
                    write(st, r.path, mk("read", lp, uid()))
            return l
        if op == "!" and len(args) == 1:
            v = self.rv(self.ev(args[0], fr, st), st)
            v = self.tm(v, st)
            return t.bnot(t.app("ok", v)) if not t.isbool(v) else t.bnot(v)
        if op == "-" and len(args) == 1:
            return self.mapv(self.rv(self.ev(args[0], fr, st), st), t.neg)
        if op == "," and len(args) == 2:
            self.ev(args[0], fr, st)
            return self.ev(args[1], fr, st)
        if len(args) == 2:
            a = self.rv(self.ev(args[0], fr, st), st)
            b = self.rv(self.ev(args[1], fr, st), st)
            if isinstance(a, (Struct, Join)):
                a = self.tm(a, st)
            if isinstance(b, (Struct, Join)):
                b = self.tm(b, st)
            if op in ("==", "!="):
                if isinstance(a, Mat) or isinstance(b, Mat):
                    c = t.eq(self.tm(a, st), self.tm(b, st))
                else:
                    return self.arith(op, a, b)
                return c if op == "==" else t.bnot(c)
            if op in ("<", ">", "<=", ">="):
                return self.arith(op, a, b)
            if op == "+" and (isstr(rty)):
                return self.strcat(a, b)
            if op in ("+", "-", "*", "/"):
                return self.arith(op, a, b, rty)
            return t.app("op" + op, self.tm(a, st), self.tm(b, st))
        vals = [self.tm(self.ev(a, fr, st), st) for a in args]
        return t.app("op" + op, *vals)

    def strcat(self, a, b):
        parts = []
        for x in (a, b):
            x = x if isinstance(x, T) else mk("app", "?")
            if x.op == "app" and x.args[0] == "strcat":
                parts.extend(x.args[1:])
            else:
                parts.append(x)
        out = []
        for p in parts:
            if p.op == "str" and out and out[-1].op == "str":
                out[-1] = mk("str", out[-1].args[0] + p.args[0])
            elif p.op == "str" and p.args[0] == "":
                continue
            else:
                out.append(p)
        if len(out) == 1:
            return out[0]
        return mk("app", "strcat", *out)

    def size_of(self, path, st):
        v = read(st, fld(path, "#size"))
        if isinstance(v, T):
            if v.op == "fld" and v.args[1] == "#size" and v.args[0].op == "list":
                return num(len(v.args[0].args[0]))
            n = self.array_len.get(path)
            return v
        return mk("fld", path, "#size")

    array_len = {}

    # ---------------------------------------------------------------- models of library functions
    def model(self, name, e, fr, st, obj, argn, ext):
        short = name.split("::")[-1]
        rty = fr.tu.types[e[2]]
        A = lambda k: self.ev(argn[k], fr, st)
        R = lambda k: self.rv(self.ev(argn[k], fr, st), st)
        if name in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof"):
            return A(0)
        if name in ("std::abs", "abs", "fabs", "std::fabs", "labs"):
            return t.app("abs", R(0))
        if name in ("std::pow", "pow"):
            return t.app("pow", R(0), R(1))
        if name in ("sqrt", "std::sqrt"):
            return t.app("sqrt", R(0))
        if name in ("std::hypot", "hypot"):
            return t.app("hypot", R(0), R(1))
        if name in ("cos", "sin", "tan", "tanh", "exp", "log", "floor", "ceil", "std::cos", "std::sin", "std::tan", "std::tanh", "std::exp", "std::log", "std::floor", "std::ceil", "atan", "acos", "asin", "atan2", "std::atan2", "std::acos", "copysign", "std::copysign", "std::isnan", "isnan", "std::isfinite", "std::isinf", "std::signbit", "fmod", "std::fmod", "std::round", "round"):
            n = short
            v = [self.rv(self.ev(a, fr, st), st) for a in argn]
            if n in ("ceil", "floor", "round") and len(v) == 1 and isinstance(v[0], T):
                c = constant(v[0])
                if c is not None:
                    k = round(c)
                    if abs(c - k) > 1e-9:
                        k = int(math.ceil(c)) if n == "ceil" else int(math.floor(c)) if n == "floor" else k
                    return num(k)
            return t.app(n, *v)
        if name in ("std::max", "std::min"):
            vs = [self.rv(self.ev(a, fr, st), st) for a in argn]
            if len(vs) == 1 and vs[0].op == "list":
                vs = list(vs[0].args[0])
            if len(vs) > 2:
                return t.app(short, *[self.tm(v, st) for v in vs])
            return t.app(short, *vs)
        if name in ("std::swap",):
            a, b = A(0), A(1)
            va, vb = self.rvcopy(a, st), self.rvcopy(b, st)
            self.store(st, a.path, vb)
            self.store(st, b.path, va)
            return None
        if name == "std::get":
            v = A(0)
            targ = ext["targs"].split(";")[0] if ext else "?"
            if isinstance(v, Loc):
                return Loc(mk("get", v.path, targ), strip(rty))
            if isinstance(v, T):
                return Loc(mk("get", v, targ), strip(rty))
            return mk("app", "get")
        if name == "std::for_each":
            return self.foreach(e, fr, st, argn)
        if name == "std::make_pair" or name == "std::make_tuple":
            p = mk("local", "pair", uid())
            for k, a in enumerate(argn):
                v = self.ev(a, fr, st)
                self.store(st, fld(p, ("first", "second")[k]) if name == "std::make_pair" else mk("get", p, str(k)), v)
            return Loc(p, strip(rty))
        if name == "std::numeric_limits::epsilon":
            return mk("app", "epsilon")
        if name.startswith("std::numeric_limits"):
            return mk("app", "limits:" + short)
        if name in ("std::accumulate",):
            b, en = R(0), R(1)
            init = R(2)
            if b.op == "iter" and en.op == "iter" and b.args[0] is en.args[0] and len(argn) == 3:
                n = str(t.sub(en.args[1], b.args[1]))
                if n.isdigit() and int(n) <= 16:
                    return t.add(init, *[self.tm(self.rv(Loc(at1(b.args[0], t.add(b.args[1], num(i)))), st), st) for i in range(int(n))]) if int(n) else init
                it = mk("it", uid())
                return t.add(init, mksum(it, b.args[1], en.args[1], self.rv(Loc(at1(b.args[0], it)), st)))
            return mk("app", "accumulate", self.tm(b, st), self.tm(en, st), self.tm(init, st))
        if name in ("std::fill",):
            b, en, v = R(0), R(1), R(2)
            if b.op == "iter" and en.op == "iter":
                pv = mk("it", uid())
                write(st, at1(b.args[0], pv), v, ((pv, b.args[1], en.args[1]),))
                return None
        if name in ("std::begin", "std::end"):
            o = A(0)
            if isinstance(o, Loc):
                return mk("iter", o.path, ZERO if short == "begin" else self.size_of(o.path, st))
        if name in ("std::distance",):
            a, b = R(0), R(1)
            if a.op == "iter" and b.op == "iter":
                return t.sub(b.args[1], a.args[1])
        if name in ("std::next", "std::prev"):
            a = R(0)
            d = R(1) if len(argn) > 1 else ONE
            if a.op == "iter":
                return mk("iter", a.args[0], t.add(a.args[1], d if short == "next" else t.neg(d)))
        if name in ("std::copy", "std::copy_n"):
            b = R(0)
            if name == "std::copy":
                en, o = R(1), R(2)
                n = t.sub(en.args[1], b.args[1]) if b.op == "iter" and en.op == "iter" else None
            else:
                n, o = R(1), R(2)
            if b.op == "iter" and o.op == "iter" and n is not None:
                pv = mk("it", uid())
                val = self.rv(Loc(at1(b.args[0], t.add(b.args[1], pv))), st)
                write(st, at1(o.args[0], t.add(o.args[1], pv)), val, ((pv, ZERO, n),))
                return mk("iter", o.args[0], t.add(o.args[1], n))
        if name == "std::to_string":
            return t.app("to_string", R(0))
        if name == "std::find":
            b, en, v = R(0), R(1), R(2)
            if self.decide and b.op == "iter" and en.op == "iter" and b.args[0] is en.args[0]:
                n = str(t.sub(en.args[1], b.args[1]))
                if n.isdigit() and int(n) <= 16:
                    x = self.tm(v, st)
                    for i in range(int(n)):
                        y = self.tm(self.rv(Loc(at1(b.args[0], t.add(b.args[1], num(i)))), st), st)
                        c = t.eq(y, x)
                        if c is not TRUE and c is not FALSE:
                            d = self.decide(c)
                            c = c if d is None else TRUE if d else FALSE
                        if c is TRUE:
                            return mk("iter", b.args[0], t.add(b.args[1], num(i)))
                        if c is not FALSE:
                            break
                    else:
                        return en
            if b.op == "iter":
                return mk("iter", b.args[0], mk("app", "findval", b.args[0], self.tm(v, st), self.tm(en, st)))
        if name in ("std::max_element", "std::min_element"):
            b, en = R(0), R(1)
            if b.op == "iter" and en.op == "iter" and b.args[0] is en.args[0] and self.decide and len(argn) == 2:
                n = t.sub(en.args[1], b.args[1])
                n = int(str(n)) if str(n).isdigit() else None
                if n:
                    el = [self.tm(self.rv(Loc(at1(b.args[0], t.add(b.args[1], num(i)))), st), st) for i in range(n)]
                    best = 0
                    for i in range(1, n):
                        c = t.lt(el[best], el[i]) if short == "max_element" else t.lt(el[i], el[best])
                        if c is TRUE or c is not FALSE and self.decide(c) is True:
                            best = i
                    return mk("iter", b.args[0], t.add(b.args[1], num(best)))
            if b.op == "iter":
                return mk("iter", b.args[0], mk("app", short, self.tm(b, st), self.tm(en, st), *[self.tm(R(k), st) for k in range(2, len(argn))]))
        if name in ("std::make_unique", "std::make_shared"):
            p = mk("new", uid())
            vals = [self.ev(a, fr, st) for a in argn]
            write(st, p, mk("app", "make:" + (ext["targs"].split(";")[0] if ext else ""), *[self.tm(v, st) for v in vals]))
            return mk("addr", p)
        if obj is None:
            return self.eigen_static(name, e, fr, st, argn, rty)
        # ---- member functions
        if isinstance(obj, (Mat,)) or (isinstance(obj, Loc) and (ismat(obj.ty) or obj.path.op in ("row", "col", "seg", "blk", "map", "tr", "arr") or name.startswith("Eigen::"))):
            return self.eigen_member(name, short, e, fr, st, obj, argn, rty)
        if not isinstance(obj, Loc):
            ot = self.tm(obj, st)
            if isinstance(ot, T):
                obj = Loc(ot)
        p = obj.path
        if name.startswith("YAML::Node::"):
            if short == "operator bool":
                return t.tobool(t.app("defined", p))
            if short == "as":
                return t.app("as:" + (ext["targs"].split(";")[0] if ext else ""), p)
            if short in ("IsDefined",):
                return t.app("defined", p)
            if short == "size":
                return self.size_of(p, st)
        if name.startswith("std::"):
            cls = name.split("::")[1]
            if short in ("size", "length") and not argn:
                return self.size_of(p, st)
            if short == "empty":
                return t.eq(self.size_of(p, st), ZERO)
            if short in ("begin", "cbegin"):
                return mk("iter", p, ZERO)
            if short in ("end", "cend"):
                return mk("iter", p, self.size_of(p, st))
            if short == "at" or short == "operator[]":
                return Loc(at1(p, R(0)), strip(rty))
            if short == "front":
                return Loc(at1(p, ZERO), strip(rty))
            if short == "back":
                return Loc(at1(p, t.sub(self.size_of(p, st), ONE)), strip(rty))
            if short == "data":
                return mk("addr", at1(p, ZERO))
            if short == "c_str":
                return self.tm(obj, st)
            if short == "find" and cls in ("map", "unordered_map", "set", "multimap"):
                return mk("iter", p, mk("app", "find", p, self.tm(R(0), st)))
            if short == "count" and argn:
                return t.app("count", p, self.tm(R(0), st))
            if short in ("push_back", "emplace_back") and cls in ("vector", "deque", "list"):
                n = self.size_of(p, st)
                q = at1(p, n)
                vals = [self.ev(a, fr, st) for a in argn]
                if self.event("std::vector::" + short):
                    pass
                aty = strip(fr.tu.types[argn[0][2]]) if len(argn) == 1 and isinstance(argn[0][2], int) else None
                if len(vals) == 1 and (short == "push_back" or not self.elem_class(obj, fr) or (aty and strip(obj.ty).startswith("std::vector<" + aty + ","))):
                    self.store(st, q, vals[0])
                elif len(vals) == 0:
                    pass
                else:
                    write(st, q, mk("app", "ctor", *[self.tm(v, st) for v in vals]))
                write(st, fld(p, "#size"), t.add(n, ONE))
                st.events.append(Ev("ev", "push", tuple([p] + [self.tm(v, st) for v in vals]), fr.fn.file, e[1]))
                return Loc(q, strip(rty))
            if short == "clear":
                write(st, p, mk("list", ()))
                return None
            if short == "resize":
                n = R(0)
                if len(argn) > 1:
                    v = R(1)
                    pv = mk("it", uid())
                    write(st, at1(p, pv), v, ((pv, self.size_of(p, st), n),))
                write(st, fld(p, "#size"), n)
                return None
            if short == "reserve":
                return None
            if short == "assign" and len(argn) == 2:
                n, v = R(0), R(1)
                if isinstance(n, T) and n.op != "iter":
                    pv = mk("it", uid())
                    write(st, at1(p, pv), v, ((pv, ZERO, n),))
                    write(st, fld(p, "#size"), n)
                    return None
            if short == "fill" and cls == "array":
                v = R(0)
                pv = mk("it", uid())
                write(st, at1(p, pv), v, ((pv, ZERO, None),))
                return None
            if short == "get" and cls in ("unique_ptr", "shared_ptr"):
                return self.rv(Loc(p), st)
            if short in ("str",):
                return t.app("str", p)
        return NotImplemented

    def elem_class(self, obj, fr):
        s = strip(obj.ty)
        m = re.match(r"std::vector<(.*)>", s)
        if not m:
            return True
        inner = m.group(1).split(",")[0]
        return not (isscalar(inner) or inner.startswith("std::basic_string") or inner.startswith("Eigen"))

    def eigen_static(self, name, e, fr, st, argn, rty):
        short = name.split("::")[-1]
        if name.startswith("Eigen::"):
            vals = [self.rv(self.ev(a, fr, st), st) for a in argn]
            d = matdims(strip(rty))
            # type of the nullary expression holds the plain type
            m = re.search(r"Eigen::Matrix<[^,]+,(-?\d+),(-?\d+)", rty)
            dd = (int(m.group(1)), int(m.group(2))) if m else (-1, -1)

            def dims(vs):
                if len(vs) == 2:
                    return vs[0], vs[1]
                if len(vs) == 1:
                    return (vs[0], ONE) if dd[1] == 1 else (ONE, vs[0])
                return num(dd[0]), num(dd[1])
            if short == "Constant":
                v = vals[-1]
                r, c = dims(vals[:-1])
                return Mat(num(dd[0]) if dd[0] >= 0 else r, num(dd[1]) if dd[1] >= 0 else c, lambda i, j: v)
            if short == "Zero":
                r, c = dims(vals)
                return Mat(r, c, lambda i, j: ZERO)
            if short == "Ones":
                r, c = dims(vals)
                return Mat(r, c, lambda i, j: ONE)
            if short == "Identity":
                r, c = dims(vals)
                return Mat(r, c, lambda i, j: t.phi(t.eq(i, j), ONE, ZERO))
        return NotImplemented

    def view(self, obj, kind, *args):
        if isinstance(obj, Loc):
            return Loc(mk(kind, obj.path, *args), "Eigen::view")
        return None

    def eigen_member(self, name, short, e, fr, st, obj, argn, rty):
        vals = [self.rv(self.ev(a, fr, st), st) for a in argn]
        if isinstance(obj, Loc) and obj.path not in self.types_of:
            d = matdims(obj.ty)
            if d:
                self.types_of[obj.path] = d
        if short in ("row", "col"):
            if isinstance(obj, Loc):
                d = matdims(obj.ty)
                if d and d[1] == 1 and short == "col":
                    return obj
                return self.view(obj, short, vals[0])
            f = obj.f
            if short == "row":
                return Mat(ONE, obj.cols, lambda i, j: f(vals[0], j))
            return Mat(obj.rows, ONE, lambda i, j: f(i, vals[0]))
        if short == "segment":
            if isinstance(obj, Loc):
                return self.view(obj, "seg", vals[0], vals[1])
            return Mat(vals[1], ONE, lambda i, j: obj.at(t.add(vals[0], i)))
        if short in ("head", "tail") and isinstance(obj, Loc) and vals:
            if short == "head":
                return self.view(obj, "seg", ZERO, vals[0])
        if short == "block":
            if isinstance(obj, Loc):
                return self.view(obj, "blk", *vals[:4])
            f = obj.f
            return Mat(vals[2], vals[3], lambda i, j: f(t.add(vals[0], i), t.add(vals[1], j)))
        if short == "transpose":
            if isinstance(obj, Loc):
                return self.view(obj, "tr")
            f = obj.f
            return Mat(obj.cols, obj.rows, lambda i, j: f(j, i))
        if short in ("array", "matrix", "eval", "noalias", "derived", "const_cast_derived"):
            return obj
        m = None

        def M():
            return self.rv(obj, st) if isinstance(obj, Loc) else obj
        if short in ("rows", "cols", "size"):
            mm = M()
            if isinstance(mm, Mat):
                if short == "rows" and mm.rows is not None:
                    return mm.rows
                if short == "cols" and mm.cols is not None:
                    return mm.cols
                if short == "size" and mm.rows is not None and mm.cols is not None:
                    return t.mul(mm.rows, mm.cols)
            if isinstance(obj, Loc):
                return self.sc(read(st, fld(obj.path, "#" + short)))
            return mk("app", short)
        if short == "resize" or short == "conservativeResize":
            p = obj.path
            if len(vals) == 1:
                write(st, fld(p, "#size"), vals[0])
            else:
                write(st, fld(p, "#rows"), vals[0])
                write(st, fld(p, "#cols"), vals[1])
            return None
        if short in ("setZero", "setConstant", "fill", "setOnes"):
            v = ZERO if short == "setZero" else ONE if short == "setOnes" else vals[-1]
            mm = M()
            self.store(st, obj.path, Mat(mm.rows, mm.cols, lambda i, j: v))
            return obj
        if short in ("cwiseProduct", "cwiseQuotient", "cwiseMax", "cwiseMin"):
            a, b = M(), vals[0]
            fa, fb = elt(a), elt(b)
            o = {"cwiseProduct": t.mul, "cwiseQuotient": t.div, "cwiseMax": lambda x, y: t.app("max", x, y), "cwiseMin": lambda x, y: t.app("min", x, y)}[short]
            if a.isvec() and isinstance(b, Mat) and b.isvec():
                return Mat(a.rows, a.cols, lambda i, j: o(fa(i, j), b.at(i if a.cols is ONE else j)))
            return Mat(a.rows, a.cols, lambda i, j: o(fa(i, j), fb(i, j)))
        if short in ("pow", "sqrt", "abs", "cwiseAbs", "square", "inverse", "cwiseInverse", "cwiseSqrt") and (short != "inverse"):
            a = M()
            f = a.f
            n = {"cwiseAbs": "abs", "cwiseSqrt": "sqrt"}.get(short, short)
            if n == "square":
                return Mat(a.rows, a.cols, lambda i, j: t.mul(f(i, j), f(i, j)))
            if n == "cwiseInverse":
                return Mat(a.rows, a.cols, lambda i, j: t.power(f(i, j), -1))
            return Mat(a.rows, a.cols, lambda i, j: t.app(n, f(i, j), *vals))
        if short in ("norm", "squaredNorm", "sum", "lpNorm"):
            a = M()
            if a.isvec():
                n = a.rows if a.cols is ONE else a.cols
                k = intval(n) if n is not None else None
                if short == "sum":
                    g = lambda i: a.at(i)
                else:
                    g = lambda i: t.mul(a.at(i), a.at(i))
                if k is not None:
                    s = t.add(*[g(num(i)) for i in range(k)])
                else:
                    it = mk("it", uid())
                    s = mksum(it, ZERO, n if n is not None else mk("dim", "?"), g(it))
                return t.app("sqrt", s) if short == "norm" else s
            if short in ("sum", "squaredNorm", "norm") and a.rows is not None and a.cols is not None and intval(a.rows) is not None and intval(a.cols) is not None:
                s = t.add(*[a.f(num(i), num(j)) if short == "sum" else t.mul(a.f(num(i), num(j)), a.f(num(i), num(j))) for i in range(intval(a.rows)) for j in range(intval(a.cols))])
                return t.app("sqrt", s) if short == "norm" else s
        if short == "dot":
            a, b = M(), vals[0]
            n = a.rows if a.cols is ONE else a.cols
            k = intval(n) if n is not None else None
            if k is not None:
                return t.add(*[t.mul(a.at(num(i)), b.at(num(i))) for i in range(k)])
        if short == "determinant":
            a = M()
            n = intval(a.rows) if a.rows is not None else None
            if n is None and a.cols is not None:
                n = intval(a.cols)
            f = a.f
            if n == 2:
                return t.sub(t.mul(f(ZERO, ZERO), f(ONE, ONE)), t.mul(f(ZERO, ONE), f(ONE, ZERO)))
            return t.app("det", self.tm(a, st))
        if short == "inverse":
            a = M()
            n = intval(a.rows) if a.rows is not None else None
            if n is None and a.cols is not None:
                n = intval(a.cols)
            if n == 2:
                f = a.f
                m = [[f(num(i), num(j)) for j in range(2)] for i in range(2)]
                d = t.sub(t.mul(m[0][0], m[1][1]), t.mul(m[0][1], m[1][0]))
                inv = [[t.div(m[1][1], d), t.div(t.neg(m[0][1]), d)], [t.div(t.neg(m[1][0]), d), t.div(m[0][0], d)]]

                def ent(i, j):
                    pick = lambda k, a_, b_: a_ if k is ZERO else b_ if k is ONE else t.phi(t.eq(k, ZERO), a_, b_)
                    return pick(i, pick(j, inv[0][0], inv[0][1]), pick(j, inv[1][0], inv[1][1]))
                return Mat(num(2), num(2), ent)
            x = t.app("inverse", self.tm(a, st))
            return Mat(a.rows, a.cols, lambda i, j: at2(x, i, j))
        if short == "fullPivLu" or short in ("partialPivLu", "lu", "householderQr", "colPivHouseholderQr", "ldlt", "llt"):
            return mk("lu", self.tm(M(), st))
        if short == "solve":
            b = vals[0]
            o = self.tm(obj, st)
            x = t.app("solve", o, self.tm(b, st))
            if isinstance(b, Mat):
                if b.isvec():
                    return Mat(b.rows, b.cols, lambda i, j: at1(x, i if b.cols is ONE else j))
                return Mat(b.rows, b.cols, lambda i, j: at2(x, i, j))
            return x
        if short == "data":
            if isinstance(obj, Loc):
                return mk("addr", at1(obj.path, ZERO))
        if short.startswith("operator const") or short.startswith("operator double"):
            return M().f(ZERO, ZERO)
        if short in ("maxCoeff", "minCoeff"):
            return t.app(short, self.tm(M(), st))
        if short == "isApprox":
            return t.app("isApprox", self.tm(M(), st), self.tm(vals[0], st))
        if short in ("hasNaN", "allFinite"):
            return t.app(short, self.tm(M(), st))
        return NotImplemented

    def foreach(self, e, fr, st, argn):
        b = self.rv(self.ev(argn[0], fr, st), st)
        en = self.rv(self.ev(argn[1], fr, st), st)
        f = self.ev(argn[2], fr, st)
        lam = self.rv(f, st) if isinstance(f, Loc) else f
        if not isinstance(lam, Lam) or b.op != "iter" or en.op != "iter":
            raise Undecided("for_each")
        # operator() instantiated for this element type
        elty = None
        lt = fr.tu.types[argn[0][2]] if isinstance(argn[0][2], int) else ""
        cands = fr.tu.lambdas.get(lam.lid, [])
        fn = None
        if lam.opid:
            fn = fr.tu.fns.get(lam.opid)
        if fn is None:
            if len(cands) == 1:
                fn = cands[0]
            else:
                m = re.match(r"(?:const )?__gnu_cxx::__normal_iterator<(.*?)\*", lt)
                key = m.group(1) if m else None
                for c in cands:
                    pt = strip(fr.tu.types[c.params[0][2]])
                    if key and pt == strip(key):
                        fn = c
                if fn is None:
                    fn = cands[0] if cands else None
        if fn is None:
            raise Undecided("for_each lambda")
        path = b.args[0]
        lo, hi = b.args[1], en.args[1]
        pid, pname, pty = fn.params[0]
        tys = fr.tu.types[pty]
        dummy = Frame(fn.tu, lam.frame, lam.frame.this, fn, fr.depth + 1)

        def setup(ff, s_, it):
            loc = Loc(at1(path, it), strip(tys))
            if tys.endswith("&"):
                dummy.env[pid] = loc
            else:
                self.bindlocal(dummy, s_, pid, pname, tys, loc)
        body = fn.body
        ex = self.summarise(dummy, st, lo, hi, setup, ["foreachbody", e[1], body, fn, lam], None, e[1])
        n = [x for x in ex if x.kind == "norm"]
        if n:
            st.logs, st.events = n[-1].state.logs, n[-1].state.events
        return lam

    # std::for_each body: return acts as continue
    lamhook = None

    def stmt_foreach(self, s, fr, st):
        if self.lamhook is not None and self.lamhook(self, s[3], s[4], fr, st, s[1]):
            return [Exit("norm", TRUE, st)]
        ex = self.stmt(s[2], fr, st)
        out = []
        for x in ex:
            if x.kind == "ret":
                x = Exit("cont", x.cond, x.state)
            out.append(x)
        return out

_stmt0 = Interp.stmt

def _stmt(self, s, fr, st):
    if s is not None and s[0] == "foreachbody":
        return self.stmt_foreach(s, fr, st)
    return _stmt0(self, s, fr, st)

Interp.stmt = _stmt

def isstr(ty):
    return "basic_string" in ty

def join_ev(c, a, b):
    k = 0
    while k < len(a) and k < len(b) and a[k] is b[k]:
        k += 1
    out = list(a[:k])
    if a[k:] or b[k:]:
        out.append(Ev("if", "", (c,), kids=(list(a[k:]), list(b[k:]))))
    return out

def under_strict(st, p):
    root, accs = decompose(p)
    for w in st.logs.get(root, ()):
        if len(w.accs) > len(accs):
            c, _ = unify(accs, w.accs, ())
            if c is not FALSE:
                return True
    return False

def reify(m):
    """canonical term for a matrix value"""
    b0, b1 = mk("it", -1), mk("it", -2)
    nr = intval(m.rows) if m.rows is not None else None
    nc = intval(m.cols) if m.cols is not None else None
    if m.isvec():
        n = nr if m.cols is ONE else nc
        g = m.at(b0)
        if g.op == "elem" and g.args[1] is b0 and not t.has(g.args[0], b0):
            return g.args[0]
        if n is not None and n <= 12:
            return mk("list", tuple(m.at(num(i)) for i in range(n)))
        h = bheight(g) + 1
        return mk("lam1", t.subst(g, {b0: mk("bv", h)}))
    g = m.f(b0, b1)
    if g.op == "elem2" and g.args[1] is b0 and g.args[2] is b1 and not t.has(g.args[0], b0) and not t.has(g.args[0], b1):
        return g.args[0]
    if nr is not None and nc is not None and nr * nc <= 16:
        return mk("list2", nr, nc, tuple(m.f(num(i), num(j)) for i in range(nr) for j in range(nc)))
    if nr is not None and nr <= 12:
        rows = [m.f(num(i), b1) for i in range(nr)]
        h = max(bheight(r) for r in rows) + 1
        return mk("lamr", tuple(t.subst(r, {b1: mk("bv", h)}) for r in rows))
    h = bheight(g) + 1
    return mk("lam2", t.subst(g, {b0: mk("bv", h), b1: mk("bv", h + 1)}))
