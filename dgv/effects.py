"""Effect summaries: which member fields (named by their declaring class) a
function reads, overwrites or accumulates into, in evaluation order, with calls
replaced by the summary of their callee."""

COMM = {"ReceiveAll", "SendAll", "WaitAllSends", "WaitAllReceives"}
ACC = ("+=", "-=")
ASG = ("=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=")
ABORT = ("abort", "exit", "_Exit", "quick_exit", "terminate", "MPI_Abort")
VOIDMUT = ("resize", "push_back", "emplace_back", "clear", "setZero", "setConstant", "fill", "insert", "erase", "emplace", "conservativeResize",
           "assign", "swap", "reserve", "pop_back", "reset", "setIdentity")


def last(n):
    return n.split("::")[-1]


class Effects(object):
    def __init__(self, prog):
        self.P = prog
        self.memo = {}
        self.rets = {}
        self.busy = set()

    # summary: list of (op, tag, line, file); tag: "Class::field" | ("P",k) | ("T",) | ("V",did,name) | comm expression
    def of(self, fn):
        k = (fn.tu.name, fn.id)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return []
        self.busy.add(k)
        w = Walk(self, fn)
        for i in fn.inits or ():
            for x in i[2:]:
                w.rv(x)
        w.st(fn.body)
        out = []
        seen = set()
        for it in w.out:
            if out and out[-1][:2] == it[:2]:
                continue
            out.append(it)
        # keep the sequence short: a repeated identical item without anything conflicting in between adds nothing
        self.busy.discard(k)
        self.memo[k] = out
        self.rets[k] = w.ret
        return out

    def retof(self, fn):
        self.of(fn)
        return self.rets.get((fn.tu.name, fn.id), frozenset())


class Walk(object):
    def __init__(self, E, fn):
        self.E, self.fn, self.tu = E, fn, fn.tu
        self.out = []
        self.alias = {}
        self.par = {p[0]: k for k, p in enumerate(fn.params)}
        self.locals = set()
        self.ret = frozenset()

    def ty(self, i):
        return self.tu.types[i] if isinstance(i, int) else ""

    def emit(self, op, tags, line):
        for x in sorted(tags, key=str):
            self.out.append((op, x, line, self.fn.file))

    # ---------------------------------------------------------- statements
    def st(self, s):
        if s is None or not isinstance(s, list) or not s:
            return
        if isinstance(s[0], list):
            for x in s:
                self.st(x)
            return
        k = s[0]
        if k == "decl":
            for d in s[2]:
                did, name, ty, init = d[0], d[1], self.ty(d[2]), d[3]
                if init is None:
                    self.locals.add(did)
                    continue
                isref = ty.endswith("&") or ty.endswith("*") or any(w in ty for w in ("Eigen::Block", "Eigen::Map", "Eigen::Ref", "Eigen::Transpose", "normal_iterator"))
                tags = self.lv(init)
                if isref:
                    self.alias[did] = tags
                    self.nav(init)
                else:
                    self.locals.add(did)
                    self.rv(init)
            return
        if k == "ret":
            if len(s) > 2 and s[2] is not None:
                self.ret = self.ret | frozenset(self.lv(s[2]))
                self.rv(s[2])
            return
        if k in EXPR:
            self.rv(s)
            return
        for x in s[2:]:
            if isinstance(x, list):
                self.st(x)

    # ---------------------------------------------------------- lvalues
    def lv(self, e):
        if not isinstance(e, list) or not e:
            return set()
        k = e[0]
        if k == "mem":
            return {"%s::%s" % (e[7], e[4])}
        if k == "ref":
            did, name, kind = e[3], e[4], e[5]
            if did in self.alias:
                return set(self.alias[did])
            if did in self.par:
                return {("P", self.par[did])}
            if kind == "g":
                return {"::" + name}
            if did in self.locals:
                return set()
            return {("V", did, name)}
        if k == "this":
            return {("T",)}
        if k in ("cast", "copy", "init"):
            if k == "cast" and isinstance(e[3], str) and (e[3].startswith(("Integral", "Floating")) or "ToBoolean" in e[3]):
                return set()
            for x in e[3:]:
                if isinstance(x, list):
                    return self.lv(x)
            return set()
        if k == "un":
            return self.lv(e[4])
        if k == "idx":
            return self.lv(e[3])
        if k == "cond":
            return self.lv(e[4]) | self.lv(e[5])
        if k == "ocall":
            g = self.target(e)
            if g is not None and not (g.lam):
                return self.mapret(g, e[6][0] if g.cls is not None else None, e[6][1:] if g.cls is not None else e[6])
            if e[5] in ("[]", "()", "*", "->", "=", "+=", "-="):
                return self.lv(e[6][0]) if e[6] else set()
            return set()
        if k == "mcall":
            g = self.target(e)
            if g is not None:
                return self.mapret(g, e[5], e[6])
            t = self.ty(e[2])
            if t.endswith("&") or t.endswith("*") or any(w in t for w in ("Block", "Map", "Ref", "Transpose", "NoAlias", "iterator", "Diagonal", "Array")):
                return self.lv(e[5])
            return self.lv(e[5]) if last(e[4]) in ("row", "col", "block", "noalias", "segment", "at", "front", "back", "get", "array", "operator[]", "operator()", "data", "begin") else set()
        if k == "call":
            g = self.target(e)
            if g is not None:
                return self.mapret(g, None, e[5])
            if last(e[4]) in ("get", "move", "forward", "ref", "addressof", "as_const") and e[5]:
                return self.lv(e[5][0])
            return set()
        return set()

    def mapret(self, g, obj, args):
        r = set()
        for x in self.E.retof(g):
            r |= self.sub(x, obj, args)
        return r

    def sub(self, x, obj, args):
        if isinstance(x, tuple) and x[0] == "P":
            return self.lv(args[x[1]]) if x[1] < len(args) else set()
        if isinstance(x, tuple) and x[0] == "T":
            return self.lv(obj) if obj is not None else set()
        if isinstance(x, tuple) and x[0] == "V":
            did = x[1]
            if did in self.alias:
                return set(self.alias[did])
            if did in self.par:
                return {("P", self.par[did])}
            if did in self.locals:
                return set()
            return {x}
        return {x}

    def target(self, e):
        fid, name = e[3], e[4]
        g = self.tu.fns.get(fid)
        if g is None:
            ex = self.tu.ext.get(fid)
            if ex is not None:
                g = self.E.P.index.get((name, ex["psig"].replace(";", ",")))
        return g

    # ---------------------------------------------------------- rvalues
    def nav(self, e):
        """evaluate an lvalue expression for its indices only"""
        if not isinstance(e, list) or not e:
            return
        k = e[0]
        if k == "mem":
            self.nav(e[3])
        elif k == "ref":
            pass
        elif k in ("cast", "copy", "init"):
            for x in e[3:]:
                if isinstance(x, list):
                    self.nav(x)
        elif k == "un":
            self.nav(e[4])
        elif k == "idx":
            self.nav(e[3]); self.rv(e[4])
        elif k == "ocall" and e[5] in ("[]", "()", "*", "->"):
            self.nav(e[6][0])
            for x in e[6][1:]:
                self.rv(x)
        elif k == "mcall" and self.lv(e):
            self.nav(e[5])
            for x in e[6]:
                self.rv(x) if not self.lv(x) else self.rv(x)
        elif k == "call" and self.lv(e):
            for x in e[5]:
                self.nav(x) if self.lv(x) else self.rv(x)
        else:
            self.rv(e)

    def write(self, op, target, line, rhs=None):
        tags = self.lv(target)
        self.nav(target)
        tags = {x for x in tags if not (isinstance(x, tuple) and x[0] == "P" and self.byvalue(x[1]))}
        self.emit(op, tags, line)

    def byvalue(self, k):
        t = self.ty(self.fn.params[k][2])
        return not (t.endswith("&") or t.endswith("*") or any(w in t for w in ("Block", "Map", "Ref<", "Transpose")))

    def rv(self, e):
        if not isinstance(e, list) or not e:
            return
        k = e[0]
        if not isinstance(k, str):
            for x in e:
                self.rv(x)
            return
        line = e[1] if len(e) > 1 and isinstance(e[1], int) else 0
        if k == "mem":
            self.emit("R", self.lv(e), line)
            self.nav(e[3])
            return
        if k == "ref":
            tags = {x for x in self.lv(e) if not (isinstance(x, tuple) and x[0] in ("V",))}
            self.emit("R", tags, line)
            return
        if k == "bin" and e[3] in ASG + ACC:
            self.asg(e[3], e[4], e[5], line)
            return
        if k == "un" and e[3] in ("++", "--", "p++", "p--"):
            self.write("A", e[4], line)
            return
        if k == "lambda":
            # effects of an immediately used lambda are taken where it is passed
            for g in self.tu.lambdas.get(e[3], ()):
                self.apply(g, None, [], line)
            return
        if k == "ocall":
            g = self.target(e)
            op, args = e[5], e[6]
            if g is not None:
                if g.cls is not None or g.lam:
                    if g.lam:
                        self.apply(g, None, args[1:], line)
                    else:
                        self.apply(g, args[0], args[1:], line)
                else:
                    self.apply(g, None, args, line)
                return
            if op in ASG + ACC:
                self.asg(op, args[0], args[1] if len(args) > 1 else None, line)
                return
            if op in ("++", "--"):
                self.write("A", args[0], line)
                return
            if op in ("<<", ">>") :
                for x in args:
                    self.rv(x)
                return
            if op in ("[]", "()", "*", "->"):
                self.emit("R", self.lv(e), line)
                self.nav(e)
                return
            for x in args:
                self.rv(x)
            return
        if k == "mcall":
            g = self.target(e)
            if last(e[4]) == "operator++" and g is not None and "Stepper" in e[4]:
                self.emit("C", {"++"}, line)
                return
            if last(e[4]) in COMM and "ommunicator" in e[4]:
                self.emit("C", {last(e[4])}, line)
                return
            if last(e[4]) in ("SetToSendBuffer", "GetFromReceiveBuffer"):
                c = e[6][0]
                self.out.append(("S" if last(e[4])[0] == "S" else "G", self.comm(c), line, self.fn.file))
                return
            if g is not None:
                self.apply(g, e[5], e[6], line)
                return
            ex = self.tu.ext.get(e[3])
            ob = e[5]
            psig = ex["psig"].split(";") if ex and ex.get("psig") else []
            for j, x in enumerate(e[6]):
                self.extarg(x, psig[j] if j < len(psig) else "", line)
            if last(e[4]) in VOIDMUT or (ex is not None and not ex.get("const") and self.ty(e[2]) == "void"):
                self.write("W", ob, line)
            else:
                self.emit("R", self.lv(ob), line)
                self.nav(ob) if self.lv(ob) else self.rv(ob)
            return
        if k == "call":
            g = self.target(e)
            if g is not None:
                self.apply(g, None, e[5], line)
                return
            ex = self.tu.ext.get(e[3])
            psig = ex["psig"].split(";") if ex and ex.get("psig") else []
            for j, x in enumerate(e[5]):
                self.extarg(x, psig[j] if j < len(psig) else "", line)
            if last(e[4]) in ABORT:
                self.out.append(("X", "abort", line, self.fn.file))
            return
        if k == "throw":
            for x in e[1:]:
                if isinstance(x, list):
                    self.rv(x)
            self.out.append(("X", "throw", line, self.fn.file))
            return
        if k in ("ctor",):
            g = self.target(e)
            if g is not None:
                self.apply(g, None, e[5], line)
            else:
                for x in e[5]:
                    self.rv(x)
            return
        for x in e[1:]:
            if isinstance(x, list):
                if x and isinstance(x[0], str) and x[0] not in EXPR:
                    self.st(x)
                else:
                    self.rv(x)

    def comm(self, c):
        while isinstance(c, list) and c and c[0] in ("cast", "copy"):
            c = next(x for x in c[3:] if isinstance(x, list))
        if c[0] in ("enum",):
            return ("c", c[4])
        if c[0] == "int":
            return ("c", int(c[3]))
        if c[0] == "ref":
            if c[3] in self.par:
                return ("P", self.par[c[3]])
            if c[3] in self.alias:
                return ("?",)
            return ("V", c[3], c[4])
        return ("?",)

    def extarg(self, x, p, line):
        if p.endswith("&") and not p.startswith("const ") and "&&" not in p and self.lv(x):
            self.emit("R", self.lv(x), line)
            self.write("W", x, line)
        elif p.endswith("*") and not p.startswith("const ") and self.lv(x):
            self.write("W", x, line)
        else:
            self.rv(x)

    def asg(self, op, l, r, line):
        if op == "=" and r is not None:
            t = self.lv(l)
            y = r
            while isinstance(y, list) and y and y[0] in ("cast", "copy", "init"):
                y = next((z for z in y[3:] if isinstance(z, list)), None)
            if t and isinstance(y, list) and y and (y[0] == "ocall" and y[5] in ("+", "-") and len(y[6]) == 2 or y[0] == "bin" and y[3] in ("+", "-")):
                a, b = (y[6] if y[0] == "ocall" else (y[4], y[5]))
                o = y[5] if y[0] == "ocall" else y[3]
                if self.lv(a) == t and plain(a) == plain(l):
                    self.rv(b)
                    self.write("A", l, line)
                    return
                if o == "+" and self.lv(b) == t and plain(b) == plain(l):
                    self.rv(a)
                    self.write("A", l, line)
                    return
        if r is not None:
            self.rv(r)
        if op in ACC:
            self.write("A", l, line)
        else:
            if op != "=":
                self.emit("R", self.lv(l), line)
            self.write("W", l, line)

    def apply(self, g, obj, args, line):
        s = self.E.of(g)
        for k, a in enumerate(args):
            if k < len(g.params):
                t = g.tu.types[g.params[k][2]]
                if (t.endswith("&") or t.endswith("*")) and self.lv(a):
                    self.nav(a)
                else:
                    self.rv(a)
            else:
                self.rv(a)
        if obj is not None:
            self.nav(obj) if self.lv(obj) else self.rv(obj)
        for op, tag, ln, f in s:
            if op in ("S", "G"):
                if tag[0] == "P":
                    tag = self.comm(args[tag[1]]) if tag[1] < len(args) else ("?",)
                self.out.append((op, tag, ln, f))
                continue
            for x in sorted(self.sub(tag, obj, args), key=str):
                self.out.append((op, x, ln, f))


def plain(e):
    """an expression without line numbers and wrappers, for comparison"""
    while isinstance(e, list) and e and e[0] in ("cast", "copy"):
        e = next((z for z in e[3:] if isinstance(z, list)), None)
    if not isinstance(e, list):
        return e
    return [plain(x) for k, x in enumerate(e) if not (k in (1, 2) and isinstance(x, int) and e and isinstance(e[0], str))]


EXPR = set("int flt bool chr str nullptr zero enum fref sizeof this throw ref mem idx init copy cast cond lambda new delete opaque un bin call mcall ocall icall ctor".split())
