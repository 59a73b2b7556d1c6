"""Writing expected values: access paths, quantities of the scheme, and the
dictionary that identifies the different spellings of one extent."""
import re

from . import terms as t
from . import interp
from .interp import Interp, State, Loc, Mat, mk, fld, at1, at2, read, write, num, reify, Undecided
from .terms import T, ZERO, ONE, add, sub, mul, div, power, neg


class X(object):
    """access path; x.f is a member, x[i] an element, x(i, j) a matrix entry"""
    __slots__ = ("p",)

    def __init__(self, p):
        object.__setattr__(self, "p", p)

    def __getattr__(self, n):
        return X(fld(self.p, n))

    def __getitem__(self, i):
        return X(at1(self.p, term(i)))

    def __call__(self, i, j):
        return X(at2(self.p, term(i), term(j)))


def P_(x):
    """what a pointer-valued access path points to"""
    return X(interp.deref(term(x)))


def amat(p, rows=None, cols=None):
    """an arbitrary matrix named by path p"""
    return interp.Mat(rows or mk("q", "R"), cols or mk("q", "C"), lambda i, j: at2(p, i, j))


def term(x):
    if isinstance(x, X):
        return x.p
    if isinstance(x, (int, float)):
        return num(x)
    if isinstance(x, Loc):
        return x.path
    if isinstance(x, T):
        return x
    return num(x)


def q(name):
    """a query index: stands for every index the program uses there"""
    return mk("q", name)


G = q("g")        # quadrature point
D = q("d")        # degree of freedom
D2 = q("e")

_n = [0]


def S(lo, hi, f):
    """sum over i in [lo,hi)"""
    _n[0] += 1
    i = mk("it", "spec%d" % _n[0])
    return interp.mksum(i, term(lo), term(hi), term(f(i)))


def sq(x):
    return power(term(x), 2)


def sqrt(x):
    return power(term(x), t.Fraction(1, 2))


def cos(x):
    return t.app("cos", term(x))


def tanh(x):
    return t.app("tanh", term(x))


def absf(x):
    return t.app("abs", term(x))


def phi(c, a, b):
    return t.phi(t.tobool(term(c)), term(a), term(b))


def pl(*a):
    return add(*[term(x) for x in a])


def mi(a, b):
    return sub(term(a), term(b))


def tm(*a):
    return mul(*[term(x) for x in a])


def dv(a, b):
    return div(term(a), term(b))


# ------------------------------------------------------------------ extents
NGP = mk("q", "NGP")
NDOF = mk("q", "NDOF")

_GP = re.compile(r"(_at_gp|_gp|phi_gp|surface_normal\w*|surface_J\w*)$")


def _dim(p):
    """canonical extent for  <matrix>.#rows/#cols/#size"""
    m, k = p.args
    name = None
    x = m
    while x.op in ("elem", "row", "col"):
        x = x.args[0]
    if x.op == "fld":
        name = x.args[1]
    if name is None:
        return None
    if name == "phi_gp":
        return NDOF if k == "#rows" else NGP
    if name == "dphi_gp":
        return NDOF if k == "#rows" else NGP
    if name in ("int_phi_fact", "int_dphi_fact", "int_phi_phi_fact"):
        return NGP if k == "#rows" else NDOF
    if name in ("q", "rhs", "solution", "aux", "dze", "du", "ddu", "dbath", "ddbath", "dddbath", "w1") and k == "#cols":
        return NDOF
    if (name.endswith("_at_gp") or name.startswith("surface_normal")) and k == "#cols":
        return NGP
    return None


def dims(x):
    """replace every spelling of an extent by its canonical symbol"""
    m = {}

    def g(y):
        if y.op == "fld" and y.args[1] in ("#rows", "#cols", "#size"):
            c = _dim(y)
            if c is not None:
                m[y] = c
        elif y.op == "app" and isinstance(y.args[0], str) and y.args[0].endswith(("get_ngp_internal", "get_ngp_boundary", "GetNumGP")):
            m[y] = NGP
    t.walk(x, g)
    if not m:
        return x
    return t.subst(x, m)


class Run(object):
    """abstract evaluation of one function with positional argument names"""

    def __init__(self, prog, fn, names=None, this=None, args=None, state=None, ctx=None, **kw):
        self.fn = fn
        self.I = Interp(prog, **kw)
        self.args = []
        a = []
        for k, (pid, name, ty) in enumerate(fn.params):
            if args is not None and k < len(args) and args[k] is not None:
                v = args[k]
                a.append(v)
                self.args.append(X(v.path if isinstance(v, Loc) else v))
                continue
            nm = names[k] if names and k < len(names) else (name or "arg%d" % k)
            p = mk("param", k, nm.lstrip("|"))
            if nm.startswith("|"):
                p = mk("col", p, ZERO)
            a.append(Loc(p, fn.tu.types[ty]))
            self.args.append(X(p))
        self.this = X(this if this is not None else mk("this"))
        self.st0 = state or State()
        self.st, self.ret = self.I.run(fn, self.this.p, a, self.st0)
        if ctx is not None:
            ctx.count("functions evaluated")
            ctx.count("functions inlined", len(self.I.inlined))
        self.where = fn.where()

    def __getitem__(self, path):
        """value of the location at exit"""
        if self.st is None:
            raise Undecided("no normal exit")
        v = read(self.st, term(path))
        if isinstance(v, Mat):
            v = reify(v)
        if not isinstance(v, T):
            raise Undecided("no scalar value at %s" % term(path))
        return dims(v)

    def retval(self):
        v = self.ret
        if isinstance(v, Loc):
            v = read(self.st, v.path)
        if isinstance(v, Mat):
            v = reify(v)
        if isinstance(v, T):
            return dims(v)
        return v

    def ret_at(self, i, j=None):
        v = self.ret
        if isinstance(v, Loc):
            p = at1(v.path, term(i)) if j is None else at2(v.path, term(i), term(j))
            v = read(self.st, p)
            return dims(v)
        if isinstance(v, Mat):
            return dims(v.at(term(i)) if j is None else v.f(term(i), term(j)))
        if isinstance(v, T):
            return dims(at1(v, term(i)) if j is None else at2(v, term(i), term(j)))
        raise Undecided("no matrix value returned")
