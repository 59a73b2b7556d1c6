"""Sample-point evaluation of terms (identity testing on the extracted value
terms, not on the program).

Atoms get pseudo-random values; atoms that occur in indices or loop bounds get
small naturals.  Used only to keep the deciding comparison from reporting two
terms that are equal for a reason the normal form does not know.
"""
import math
import random

from . import terms as t
from .terms import T


class NoEval(Exception):
    pass


def _h(seed, *k):
    return random.Random(repr((seed,) + k))


class Ev(object):
    def __init__(self, seed, ints=(), mixed=False, fixed=None):
        self.seed = seed
        self.ints = ints
        self.mixed = mixed
        self.fixed = fixed or {}
        self.memo = {}
        self.bykey = None

    def atom(self, t_, key):
        r = _h(self.seed, key)
        if t_ in self.ints:
            return r.randint(1, 3)
        v = r.uniform(0.4, 2.3)
        if self.mixed and r.random() < 0.4:
            v = -v
        return v

    def ev(self, x, env):
        if not isinstance(x, T):
            return x
        if not env:
            m = self.memo.get(x)
            if m is not None:
                return m
        v = self._ev(x, env)
        if not env:
            self.memo[x] = v
        return v

    def idx(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, float):
            return round(v, 9)
        return v

    def path(self, p, env):
        """evaluated access path (hashable)"""
        if not isinstance(p, T):
            if isinstance(p, tuple):
                return tuple(self.path(a, env) for a in p)
            return p
        if p.op in ("poly", "phi", "bv", "it", "acc", "idiv", "q"):
            return ("n", self.idx(self.ev(p, env)))
        if p.op == "app" and p.args[0] in FUN:
            return ("n", self.idx(self.ev(p, env)))
        if p in self.fixed:
            return ("n", self.idx(self.fixed[p]))
        return (p.op,) + tuple(self.path(a, env) for a in p.args)

    ieee = False        # division by zero gives infinity

    def _ev(self, x, env):
        op = x.op
        if x in self.fixed:
            return self.fixed[x]
        if op == "poly":
            s = 0
            for m, c in x.args[0]:
                v = float(c) if c.denominator != 1 else int(c)
                for a, e in m:
                    b = self.ev(a.args[0] if a.op == "P" else a, env)
                    if isinstance(b, bool):
                        b = int(b)
                    if not isinstance(b, (int, float)):
                        raise NoEval("poly atom")
                    try:
                        if e.denominator == 1 and e > 0:
                            v = v * b ** int(e)
                        else:
                            if b < 0 and e.denominator != 1:
                                return math.nan
                            v = v * (math.inf if self.ieee and b == 0 else float(b) ** float(e))
                    except (ZeroDivisionError, OverflowError):
                        return math.nan
                s = s + v
            return s
        if op == "P":
            return self.ev(x.args[0], env)
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not self.tr(x.args[0], env)
        if op == "and":
            return all(self.tr(a, env) for a in x.args)
        if op == "lt0":
            return self.num(x.args[0], env) < 0
        if op == "eq0":
            return abs(self.num(x.args[0], env)) < 1e-9
        if op == "eqt":
            return self.path(x.args[0], env) == self.path(x.args[1], env)
        if op == "phi":
            return self.ev(x.args[1] if self.tr(x.args[0], env) else x.args[2], env)
        if op == "bv":
            if x.args[0] in env:
                return env[x.args[0]]
            return _h(self.seed, "bv", x.args[0]).randint(0, 3)
        if op == "q":
            return _h(self.seed, ("q", x.args[0])).randint(1, 3)
        if op in ("it", "lc"):
            k = ("it", x.args[0])
            return _h(self.seed, k).randint(0, 2)
        if op == "acc":
            k = ("acc",) + tuple(x.args)
            if k in env:
                return env[k]
            raise NoEval("acc")
        if op in ("sum", "prod", "ball_ex", "ball"):
            lo, hi, body = x.args
            l, h = self.bound(lo, env), self.bound(hi, env)
            lev = self.level(body)
            acc = {"sum": 0, "prod": 1, "ball_ex": False, "ball": True}[op]
            for i in range(l, h):
                v = self.ev(body, self.ext(env, lev, i))
                if op == "sum":
                    acc = acc + v
                elif op == "prod":
                    acc = acc * v
                elif op == "ball_ex":
                    acc = acc or bool(v)
                else:
                    acc = acc and bool(v)
            return acc
        if op == "fold":
            lo, hi, vs, fs, h = x.args
            l, u = self.bound(lo, env), self.bound(hi, env)
            cur = [self.ev(v, env) for v in vs]
            for i in range(l, u):
                e2 = self.ext(env, h, i)
                for n, c in enumerate(cur):
                    e2[("acc", h, n)] = c
                cur = [self.ev(f, e2) for f in fs]
            return cur[0]
        if op == "app":
            return self.app(x, env)
        if op == "idiv":
            a, b = self.num(x.args[0], env), self.num(x.args[1], env)
            return int(a // b) if b else math.nan
        # access paths and everything opaque
        k = self.path_noself(x, env)
        if env and self.fixed:
            # an entry given by its index, reached through a bound index
            if self.bykey is None:
                self.bykey = {self.path_noself(y, {}): v for y, v in self.fixed.items()}
            if k in self.bykey:
                return self.bykey[k]
        r = _h(self.seed, k)
        if x in self.ints or (op == "fld" and x.args[1] in ("#size", "#rows", "#cols")):
            return r.randint(1, 3)
        v = r.uniform(0.4, 2.3)
        if self.mixed and r.random() < 0.4:
            v = -v
        return v

    def path_noself(self, x, env):
        return (x.op,) + tuple(self.path(a, env) for a in x.args)

    def ext(self, env, lev, i):
        e2 = dict(env)
        if lev is not None:
            e2[lev] = i
        return e2

    def level(self, body):
        """the bound variable of a binder is the lowest free level of its body:
        nested binders have lower ones (bound there), enclosing binders higher ones"""
        f = free(body)
        return min(f) if f else -1

    def bound(self, b, env):
        v = self.ev(b, env)
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise NoEval("bound")
        if v != v:
            raise NoEval("bound nan")
        return max(-8, min(40, int(math.floor(v + 1e-9))))

    def tr(self, x, env):
        v = self.ev(x, env)
        if isinstance(v, float):
            return v == v and v > 1.2
        return bool(v)

    def num(self, x, env):
        v = self.ev(x, env)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, (int, float)):
            raise NoEval("number expected")
        return v

    def app(self, x, env):
        n = x.args[0]
        f = FUN.get(n)
        if f is not None:
            try:
                vs = [self.num(a, env) for a in x.args[1:]]
                return f(*vs)
            except (ValueError, ZeroDivisionError, OverflowError):
                return math.nan
        if n == "inf" and self.ieee:
            return math.inf
        if n in ("redmax", "redmin"):
            lo, hi, body = x.args[1:]
            l, h = self.bound(lo, env), self.bound(hi, env)
            lev = self.level(body)
            vs = [self.ev(body, self.ext(env, lev, i)) for i in range(l, h)]
            if not vs:
                return -1e30 if n == "redmax" else 1e30
            return max(vs) if n == "redmax" else min(vs)
        if n == "first":
            lo, hi, body = x.args[1:]
            l, h = self.bound(lo, env), self.bound(hi, env)
            lev = self.level(body)
            for i in range(l, h):
                if self.tr(body, self.ext(env, lev, i)):
                    return i
            return h
        r = _h(self.seed, self.path_noself(x, env))
        if x in self.ints:
            return r.randint(1, 3)
        v = r.uniform(0.4, 2.3)
        if self.mixed and r.random() < 0.4:
            v = -v
        return v


FUN = {
    "abs": abs, "max": max, "min": min, "sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh,
    "sinh": math.sinh, "cosh": math.cosh, "exp": math.exp, "log": math.log, "floor": lambda v: int(math.floor(v)), "ceil": lambda v: int(math.ceil(v)),
    "sgn": lambda v: (v > 0) - (v < 0), "pow": lambda a, b: a ** b if a > 0 else math.nan, "sqrt": math.sqrt,
    "mod": lambda a, b: a - b * math.floor(a / b), "toint": lambda v: int(v), "ceildiv": lambda a, b: -int(-a // b),
    "atan2": math.atan2, "atan": math.atan, "acos": math.acos, "asin": math.asin, "copysign": math.copysign, "signbit": lambda v: v < 0,
    "shl": lambda a, b: int(a) << int(b), "bitor": lambda a, b: int(a) | int(b), "bitand": lambda a, b: int(a) & int(b),
}


def intatoms(ts):
    """atoms used in indices or loop bounds"""
    out = set()

    def leafs(x):
        def g(y):
            if y.op in ("fld", "param", "local", "glob", "elem", "elem2", "app", "get", "deref", "q"):
                out.add(y)
        t.walk(x, g)

    def visit(y):
        if y.op == "elem":
            leafs(y.args[1])
        elif y.op == "elem2":
            leafs(y.args[1])
            leafs(y.args[2])
        elif y.op in ("sum", "prod", "ball_ex", "fold"):
            leafs(y.args[0])
            leafs(y.args[1])
        elif y.op == "app" and y.args[0] in ("redmax", "redmin", "first"):
            leafs(y.args[1])
            leafs(y.args[2])
        elif y.op == "app" and y.args[0] in ("mod", "shl", "bitor", "bitand"):
            leafs(y)
        elif y.op == "idiv":
            leafs(y)
    for x in ts:
        t.walk(x, visit)
    return out


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    return abs(a - b) <= 1e-7 * (1.0 + abs(a) + abs(b))


def samples_agree(a, b, n=14, seed=1, fixed=None):
    """True: agree on every usable sample; False: differ; None: cannot be evaluated"""
    ints = intatoms([a, b])
    used = 0
    for k in range(n):
        e = Ev((seed, k), ints, mixed=(k % 2 == 1), fixed=fixed(k) if fixed else None)
        try:
            va, vb = e.ev(a, {}), e.ev(b, {})
        except (NoEval, RecursionError, TypeError):
            return None
        if isinstance(va, float) and va != va or isinstance(vb, float) and vb != vb:
            continue
        if isinstance(va, (int, float)) and isinstance(vb, (int, float)):
            used += 1
            if not close(va, vb):
                return False
        else:
            return None
    return True if used >= 3 else None


def same(a, b, assume=None):
    """(verdict, how): verdict True/False/None"""
    if a is b:
        return True, "identical"
    r = t.equal(a, b)
    if r is True:
        return True, "normal form"
    s = samples_agree(a, b)
    if s is True:
        return True, "samples"
    if s is False:
        return False, "differs"
    return None, "not comparable"


_free = {}


def free(x):
    """levels of the bound variables that occur free in a term"""
    if not isinstance(x, T):
        if isinstance(x, tuple):
            out = frozenset()
            for a in x:
                out |= free(a)
            return out
        return frozenset()
    r = _free.get(x)
    if r is not None:
        return r
    if x.op == "bv":
        r = frozenset([x.args[0]]) if isinstance(x.args[0], int) else frozenset()
    elif x.op in ("sum", "prod", "ball_ex", "ball"):
        b = free(x.args[2])
        r = free(x.args[0]) | free(x.args[1]) | (b - {min(b)} if b else b)
    elif x.op == "app" and x.args[0] in ("redmax", "redmin", "first"):
        b = free(x.args[3])
        r = free(x.args[1]) | free(x.args[2]) | (b - {min(b)} if b else b)
    elif x.op == "fold":
        r = free(x.args[0]) | free(x.args[1]) | free(x.args[2]) | (free(x.args[3]) - {x.args[4]})
    else:
        r = frozenset()
        for a in x.args:
            r |= free(a)
    if len(_free) > 2000000:
        _free.clear()
    _free[x] = r
    return r


class Case(object):
    """one region of the inputs, given by a witness: conditions are decided for the
    witness (they hold on the whole region), values stay symbolic"""

    def __init__(self, seed=1, fixed=None, mixed=False):
        self.e = Ev(seed, fixed=fixed, mixed=mixed)
        self.e.ieee = True
        self.path = []

    def decide(self, c):
        if any(y.op in ("bv", "it") for y in t.subterms(c)):
            return None
        try:
            v = bool(self.e.tr(c, {}))
        except NoEval:
            return None
        self.path.append((c, v))
        return v

    def num(self, x):
        if any(y.op in ("bv", "it") for y in t.subterms(x)):
            return None
        try:
            v = self.e.ev(x, {})
        except NoEval:
            return None
        return None if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v else v

    def resolve(self, x):
        """the term on this region: no gates, maxima, signs"""
        memo = {}
        for _ in range(40):
            m = {}
            for y in t.subterms(x):
                if y in m:
                    continue
                r = self.step(y, memo)
                if r is not None and r is not y:
                    m[y] = r
            if not m:
                return x
            x = t.subst(x, m)
        return x

    def step(self, y, memo):
        if y in memo:
            return memo[y]
        r = None
        if y.op == "phi":
            d = self.decide(y.args[0])
            if d is not None:
                r = y.args[1] if d else y.args[2]
        elif y.op == "app" and y.args[0] in ("max", "min") and len(y.args) == 3:
            a, b = self.num(y.args[1]), self.num(y.args[2])
            if a is not None and b is not None:
                r = y.args[1] if (a >= b) == (y.args[0] == "max") else y.args[2]
        elif y.op == "app" and y.args[0] == "abs":
            a = self.num(y.args[1])
            if a is not None:
                r = y.args[1] if a >= 0 else t.neg(y.args[1])
        elif y.op == "app" and y.args[0] in ("sgn", "copysign"):
            a = self.num(y)
            if a is not None and y.args[0] == "sgn":
                r = num_(a)
            elif a is not None:
                b = self.num(y.args[1])
                r = y.args[1] if (a >= 0) == (b >= 0) else t.neg(y.args[1])
        elif t.isbool(y) and y.op not in ("true", "false"):
            d = self.decide(y)
            if d is not None:
                r = t.TRUE if d else t.FALSE
        memo[y] = r
        return r


def num_(v):
    return t.num(int(v))
