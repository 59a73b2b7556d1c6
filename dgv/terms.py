"""Hash-consed terms with an algebraic normal form.

Numeric terms are kept as polynomials (rational coefficients) over atoms with
rational exponents; a non-monomial divisor becomes a normalised atom.  Boolean
terms are kept in a small canonical form; phi (gated join) terms are atoms and
are compared by cofactoring on their gates.
"""
from fractions import Fraction
import hashlib

_tab = {}


class T(object):
    __slots__ = ("op", "args", "key", "_fv", "_conds")

    def __repr__(self):
        return show(self)


def _k(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_k(x) for x in a) + ")"
    return repr(a)


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._fv = None
        t._conds = None
        t.key = hashlib.md5((op + "|" + "|".join(_k(a) for a in args)).encode()).hexdigest()[:20]
        _tab[k] = t
    return t


# ------------------------------------------------------------------ numbers
def _mkpoly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: tuple((a.key, e) for a, e in mc[0])))
    return mk("poly", items)


def num(x):
    x = Fraction(x)
    return _mkpoly({(): x})


ZERO = num(0)
ONE = num(1)
TRUE = mk("true")
FALSE = mk("false")


def is_num(t):
    return t.op == "poly" and (len(t.args[0]) == 0 or (len(t.args[0]) == 1 and t.args[0][0][0] == ()))


def numval(t):
    """Fraction value of a constant term, else None"""
    if t.op == "poly":
        it = t.args[0]
        if not it:
            return Fraction(0)
        if len(it) == 1 and it[0][0] == ():
            return it[0][1]
    return None


def poly(t):
    """dict view of a numeric term"""
    if t.op == "poly":
        return dict(t.args[0])
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, Fraction(1)),): Fraction(1)}


def frompoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op != "P":
            return m[0][0]
    return _mkpoly(d)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in poly(t).items():
            d[m] = d.get(m, 0) + c
    return frompoly(d)


def neg(t):
    return frompoly({m: -c for m, c in poly(t).items()})


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    """returns (mono, extra_factors) where extra factors are polys to multiply"""
    e = {}
    for a, x in m1:
        e[a] = e.get(a, 0) + x
    for a, x in m2:
        e[a] = e.get(a, 0) + x
    extra = []
    out = []
    for a, x in e.items():
        if x == 0:
            continue
        if a.op == "P" and x >= 1:
            n = int(x)
            for _ in range(n):
                extra.append(a.args[0])
            x -= n
            if x == 0:
                continue
        out.append((a, x))
    out.sort(key=lambda ae: ae[0].key)
    return tuple(out), extra


def mul(*ts):
    acc = {(): Fraction(1)}
    for t in ts:
        d = {}
        pt = poly(t)
        if len(acc) * len(pt) > 20000:
            return mk("bigmul", *ts)
        extras = []
        for m1, c1 in acc.items():
            for m2, c2 in pt.items():
                m, ex = _mulmono(m1, m2)
                if ex:
                    r = frompoly({m: c1 * c2})
                    for x in ex:
                        r = mul(r, x)
                    extras.append(r)
                else:
                    d[m] = d.get(m, 0) + c1 * c2
        for r in extras:
            for m, c in poly(r).items():
                d[m] = d.get(m, 0) + c
        acc = {m: c for m, c in d.items() if c != 0}
    return frompoly(acc)


def _exact_root(c, e):
    """c**e exactly, or None"""
    if e.denominator == 1:
        return c ** int(e)
    if c < 0:
        return None
    n = e.denominator

    def root(v):
        r = round(v ** (1.0 / n))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** n == v:
                return k
        return None
    a, b = root(c.numerator), root(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** e.numerator


def power(t, e):
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    p = poly(t)
    if not p:
        return ZERO if e > 0 else mk("app", "inf")
    if len(p) == 1:
        (m, c), = p.items()
        r = _exact_root(c, e)
        if r is not None:
            return mul(num(r), *[_atompow(a, x * e) for a, x in m])
        cc = mk("P", num(c))
        return mul(frompoly({((cc, e),): Fraction(1)}), *[_atompow(a, x * e) for a, x in m])
    if e.denominator == 1 and e > 0:
        r = t
        for _ in range(int(e) - 1):
            r = mul(r, t)
        return r
    # normalise to a monic polynomial atom with monomial content removed
    items = sorted(p.items(), key=lambda mc: tuple((a.key, x) for a, x in mc[0]))
    c0 = items[-1][1]
    sgn = 1
    if e.denominator != 1 and c0 < 0:
        sgn = -1
    c = abs(c0) if e.denominator != 1 else c0
    common = None
    for m, _ in items:
        md = dict(m)
        if common is None:
            common = md
        else:
            common = {a: min(x, md[a]) for a, x in common.items() if a in md}
    if e.denominator != 1:
        common = {}
    # also negative exponents (denominators)
    if e.denominator == 1:
        for m, _ in items:
            for a, x in m:
                if x < 0:
                    common[a] = min(common.get(a, 0), x)
    cm = tuple(sorted(((a, x) for a, x in common.items() if x != 0), key=lambda ae: ae[0].key))
    inv = tuple((a, -x) for a, x in cm)
    q = mul(frompoly({inv: Fraction(1) / c}), t) if (inv or c != 1) else t
    if numval(q) is not None or len(poly(q)) == 1:
        r = power(q, e)
    else:
        n = int(e) if e >= 0 else 0
        P = mk("P", q if q.op == "poly" else _mkpoly(poly(q)))
        r = frompoly({((P, e),): Fraction(1)})
        if e > 1:
            k = int(e)
            r = mul(frompoly({((P, e - k),): Fraction(1)}), *([q] * k))
    rc = _exact_root(c, e)
    if rc is None:
        lead = frompoly({((mk("P", num(c)), e),): Fraction(1)})
    else:
        lead = num(rc)
    return mul(lead, frompoly({tuple((a, x * e) for a, x in cm): Fraction(1)}), r)


def _atompow(a, x):
    if x == 0:
        return ONE
    if a.op == "P":
        if x >= 1:
            k = int(x)
            r = mul(*([a.args[0]] * k))
            if x - k:
                r = mul(r, frompoly({((a, x - k),): Fraction(1)}))
            return r
    # abs atoms: |x|^2 = x^2
    if a.op == "app" and a.args[0] == "abs" and Fraction(x).denominator == 1 and int(x) % 2 == 0:
        return power(a.args[1], x)
    return frompoly({((a, Fraction(x)),): Fraction(1)})


def div(a, b):
    if b.op == "app" and b.args[0] == "inf":
        return ZERO
    return mul(a, power(b, -1))


# ------------------------------------------------------------------ booleans
def lt0(p):
    v = numval(p)
    if v is not None:
        return TRUE if v < 0 else FALSE
    it = sorted(poly(p).items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
    c = abs(it[-1][1])
    return mk("lt0", frompoly({m: x / c for m, x in poly(p).items()}))


def eq0(p):
    v = numval(p)
    if v is not None:
        return TRUE if v == 0 else FALSE
    it = sorted(poly(p).items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
    c = it[-1][1]
    return mk("eq0", frompoly({m: x / c for m, x in poly(p).items()}))


_INTSORT = {}


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return bnot(lt0(sub(b, a)))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in ("true", "false") or b.op in ("true", "false"):
        for x, y in ((a, b), (b, a)):
            if x is TRUE:
                return tobool(y)
            if x is FALSE:
                return bnot(tobool(y))
    for x, y in ((a, b), (b, a)):
        if x.op in ("str", "enumv", "obj", "nullptr"):
            if y.op == x.op:
                return FALSE
            return mk("eqt", *sorted((a, b), key=lambda t: t.key))
    return eq0(sub(a, b))


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def tobool(t):
    if t.op in ("true", "false", "not", "and", "or", "lt0", "eq0", "eqt", "ball"):
        return t
    v = numval(t)
    if v is not None:
        return TRUE if v != 0 else FALSE
    if t.op == "phi":
        return bphi(t.args[0], tobool(t.args[1]), tobool(t.args[2]))
    return t


def band(*cs):
    out = set()
    for c in cs:
        c = tobool(c)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            out.update(c.args)
        else:
            out.add(c)
    for c in out:
        if bnot(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return mk("and", *sorted(out, key=lambda t: t.key))


def bor(*cs):
    return bnot(band(*[bnot(tobool(c)) for c in cs]))


def bphi(c, a, b):
    return phi(c, a, b)


def phi(c, a, b):
    c = tobool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return phi(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a is TRUE:
        return bor(c, b)
    if b is FALSE and isbool(a):
        return band(c, a)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE and isbool(a):
        return bor(bnot(c), a)
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("phi", c, a, b)


def isbool(t):
    return t.op in ("true", "false", "not", "and", "lt0", "eq0", "eqt", "ball")


# ------------------------------------------------------------------ apps
def app(name, *args):
    if name == "abs":
        p = args[0]
        v = numval(p)
        if v is not None:
            return num(abs(v))
        it = sorted(poly(p).items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
        if it[-1][1] < 0:
            p = neg(p)
        # pull constants
        c = abs(it[-1][1])
        if len(it) == 1:
            # |c a^x b^y| = |c| |a|^x |b|^y for integer x
            m = it[0][0]
            if all(Fraction(x).denominator == 1 for _, x in m):
                r = num(c)
                for a, x in m:
                    if (a.op == "app" and a.args[0] in ("abs", "sqrt", "exp")) or int(x) % 2 == 0:
                        r = mul(r, power(a, x) if a.op != "P" else frompoly({((a, x),): Fraction(1)}))
                    else:
                        r = mul(r, power(mk("app", "abs", a), x))
                return r
        return mul(num(c), mk("app", "abs", mul(num(Fraction(1) / c), p)))
    if name in ("max", "min"):
        vs = [numval(a) for a in args]
        if all(v is not None for v in vs):
            return num(max(vs) if name == "max" else min(vs))
        flat = set()
        for a in args:
            if a.op == "app" and a.args[0] == name:
                flat.update(a.args[1:])
            else:
                flat.add(a)
        if len(flat) == 1:
            return next(iter(flat))
        return mk("app", name, *sorted(flat, key=lambda t: t.key))
    if name == "hypot":
        return power(add(mul(args[0], args[0]), mul(args[1], args[1])), Fraction(1, 2))
    if name == "sqrt":
        return power(args[0], Fraction(1, 2))
    if name == "pow":
        e = numval(args[1])
        if e is not None:
            return power(args[0], e)
    if name in ("cos", "cosh"):
        p = args[0]
        it = sorted(poly(p).items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
        if it and it[-1][1] < 0:
            p = neg(p)
        return mk("app", name, p)
    if name in ("sin", "tan", "tanh", "sinh", "atan"):
        p = args[0]
        it = sorted(poly(p).items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
        if it and it[-1][1] < 0:
            return neg(mk("app", name, neg(p)))
        return mk("app", name, p)
    return mk("app", name, *args)


# ------------------------------------------------------------------ traversal
def subst(t, m, memo=None):
    """replace sub-terms according to dict m (T->T), renormalising"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "poly":
        acc = []
        changed = False
        for mono, c in t.args[0]:
            fs = [num(c)]
            for a, e in mono:
                b = _subst(a, m, memo)
                if b is not a:
                    changed = True
                fs.append(power(b, e) if b.op != "P" else _atompow(b, e))
            acc.append(fs)
        r = add(*[mul(*fs) for fs in acc]) if changed else t
    else:
        new = tuple(_subst_arg(a, m, memo) for a in t.args)
        r = t if new == t.args else rebuild(op, new)
    memo[t] = r
    return r


def _subst_arg(a, m, memo):
    if isinstance(a, T):
        return _subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, m, memo) for x in a)
    return a


hooks = {}


def rebuild(op, args):
    if op == "phi":
        return phi(*args)
    if op == "not":
        return bnot(tobool(args[0]))
    if op == "and":
        return band(*args)
    if op == "lt0":
        return lt0(args[0])
    if op == "eq0":
        return eq0(args[0])
    if op == "eqt":
        return eq(*args)
    if op == "app":
        return app(*args)
    if op == "P":
        a = args[0]
        return a
    if op in hooks:
        return hooks[op](*args)
    return mk(op, *args)


def walk(t, f, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        for x in t:
            walk(x, f, seen)
        return
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    f(t)
    for a in t.args:
        walk(a, f, seen)


def subterms(t):
    out = []
    walk(t, out.append)
    return out


def contains(t, pred):
    found = []

    def g(x):
        if pred(x):
            found.append(x)
    walk(t, g)
    return bool(found)


def has(t, x):
    return contains(t, lambda y: y is x)


# ------------------------------------------------------------------ equality
def gates(t):
    """atomic boolean gates appearing in phi conditions inside t"""
    if t._conds is not None:
        return t._conds
    out = set()

    def g(x):
        if x.op == "phi":
            atoms(x.args[0], out)
    walk(t, g)
    t._conds = frozenset(out)
    return t._conds


def atoms(c, out):
    if c.op == "not":
        atoms(c.args[0], out)
    elif c.op == "and":
        for a in c.args:
            atoms(a, out)
    elif c.op in ("true", "false"):
        pass
    elif c.op == "phi":
        atoms(c.args[0], out)
        atoms(c.args[1], out)
        atoms(c.args[2], out)
    else:
        out.add(c)


def clear_den(t):
    """multiply a numeric term by its P^-k atoms until none is left"""
    for _ in range(40):
        worst = {}
        for m, c in poly(t).items():
            for a, e in m:
                if e < 0 and a.op == "P":
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            return t
        a = sorted(worst, key=lambda x: x.key)[0]
        e = worst[a]
        k = -e
        # multiply each monomial by P^k, expanding when exponent becomes >=1
        d = ZERO
        n = []
        for m, c in poly(t).items():
            md = dict(m)
            x = md.pop(a, Fraction(0)) + k
            base = frompoly({tuple(sorted(md.items(), key=lambda ae: ae[0].key)): c})
            n.append(mul(base, _atompow(a, x)) if x else base)
        t = add(*n)
    return t


def is_zero(t):
    if numval(t) is not None:
        return numval(t) == 0
    t = clear_den(t)
    return numval(t) == 0


def equal(a, b, budget=None, assume=None):
    """decide equality of two terms modulo the algebraic theory; cofactors on gates"""
    if a is b:
        return True
    if budget is None:
        budget = [4000]
    budget[0] -= 1
    if budget[0] < 0:
        return None
    gs = set(gates(a)) | set(gates(b))
    if isbool(a) or isbool(b):
        atoms(tobool(a), gs)
        atoms(tobool(b), gs)
    if gs:
        g = sorted(gs, key=lambda t: t.key)[0]
        for val in (TRUE, FALSE):
            aa = cofactor(a, g, val)
            bb = cofactor(b, g, val)
            r = equal(aa, bb, budget)
            if r is not True:
                return r
        return True
    if isnumeric(a) and isnumeric(b):
        if is_zero(sub(a, b)):
            return True
    if a.op == b.op and a.op not in ("poly", "P") and len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                if equal(x, y, budget) is not True:
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                for p, q in zip(x, y):
                    if isinstance(p, T) and isinstance(q, T):
                        if equal(p, q, budget) is not True:
                            return False
                    elif p != q:
                        return False
            elif x != y:
                return False
        return True
    if a.op == "poly" or b.op == "poly":
        return _equal_atoms(a, b, budget)
    return False


def _equal_atoms(a, b, budget):
    """polys that differ structurally only through equal-but-not-identical atoms"""
    ats = {}
    for p in (a, b):
        for m, c in poly(p).items():
            for x, _ in m:
                ats[x] = 1
    al = sorted((x for x in ats if x.op in ("app", "sum", "fold", "elem", "elem2", "P", "lam", "idiv")), key=lambda t: t.key)
    m = {}
    for i, x in enumerate(al):
        if x in m:
            continue
        for y in al[i + 1:]:
            if y in m or y.op != x.op:
                continue
            if x.op == "P":
                if equal(x.args[0], y.args[0], budget) is True and x.args[0] is not y.args[0]:
                    m[y] = x
            elif equal(x, y, budget) is True:
                m[y] = x
    if not m:
        return False

    def rn(p):
        d = {}
        for mono, c in poly(p).items():
            e = {}
            for x, ex in mono:
                z = m.get(x, x)
                e[z] = e.get(z, 0) + ex
            k = tuple(sorted(((z, ex) for z, ex in e.items() if ex), key=lambda ae: ae[0].key))
            d[k] = d.get(k, 0) + c
        return frompoly(d)
    return is_zero(sub(rn(a), rn(b)))


def cofactor(t, g, val):
    return subst(t, {g: val})


def isnumeric(t):
    return t.op in ("poly", "app", "elem", "elem2", "fld", "phi", "sum", "fold", "bv", "P", "local", "param", "glob", "idiv", "size", "read", "get", "prod") or not isbool(t)


# ------------------------------------------------------------------ derivative
def diff(t, x):
    """d t / d x for x an atom; None if unsupported"""
    if t.op != "poly":
        if t is x:
            return ONE
        if not has(t, x):
            return ZERO
        if t.op == "phi":
            a, b = diff(t.args[1], x), diff(t.args[2], x)
            return None if a is None or b is None else phi(t.args[0], a, b)
        if t.op == "app":
            n = t.args[0]
            u = t.args[1]
            du = diff(u, x)
            if du is None:
                return None
            if n == "abs":
                return mul(app("sgn", u), du)
            if n == "sin":
                return mul(app("cos", u), du)
            if n == "cos":
                return neg(mul(app("sin", u), du))
            if n == "tanh":
                return mul(sub(ONE, power(t, 2)), du)
        return None
    acc = []
    for m, c in t.args[0]:
        for i, (a, e) in enumerate(m):
            inner = a.args[0] if a.op == "P" else a
            da = diff(inner, x) if (a.op == "P") else (ONE if a is x else (ZERO if not has(a, x) else diff(a, x)))
            if da is None:
                return None
            if numval(da) == 0:
                continue
            rest = frompoly({tuple(m[:i] + m[i + 1:]): c * e})
            acc.append(mul(rest, _atompow(a, e - 1) if a.op != "P" else frompoly({((a, e - 1),): Fraction(1)}) if e - 1 < 1 and e != 1 else power(inner, e - 1), da))
    return add(*acc) if acc else ZERO


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    op = t.op
    if op == "poly":
        if not t.args[0]:
            return "0"
        out = []
        for m, c in t.args[0]:
            fs = []
            for a, e in m:
                s = show(a.args[0] if a.op == "P" else a, d + 1)
                if a.op == "P":
                    s = "(" + s + ")"
                fs.append(s if e == 1 else "%s^%s" % (s, e))
            if c != 1 or not fs:
                fs.insert(0, str(c) if c.denominator < 100000 else "%.15g" % float(c))
            out.append("*".join(fs))
        return " + ".join(out)
    if op == "param":
        return str(t.args[-1])
    if op == "this":
        return "this"
    if op == "local":
        return "$" + str(t.args[0])
    if op == "glob":
        return t.args[0]
    if op == "fld":
        return show(t.args[0], d + 1) + "." + t.args[1]
    if op == "elem":
        return show(t.args[0], d + 1) + "[" + show(t.args[1], d + 1) + "]"
    if op == "elem2":
        return show(t.args[0], d + 1) + "(" + show(t.args[1], d + 1) + "," + show(t.args[2], d + 1) + ")"
    if op == "deref":
        return "*" + show(t.args[0], d + 1)
    if op == "bv":
        return "i%s" % t.args[0]
    if op == "phi":
        return "(%s ? %s : %s)" % tuple(show(a, d + 1) for a in t.args)
    if op == "lt0":
        return "{%s < 0}" % show(t.args[0], d + 1)
    if op == "eq0":
        return "{%s == 0}" % show(t.args[0], d + 1)
    if op == "not":
        return "!" + show(t.args[0], d + 1)
    if op == "and":
        return "(" + " && ".join(show(a, d + 1) for a in t.args) + ")"
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d + 1) for a in t.args[1:]))
    if op == "str":
        return repr(t.args[0])
    return "%s<%s>" % (op, ", ".join(show(a, d + 1) for a in t.args))
