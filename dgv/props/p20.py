"""P20: the output files say what the state is: every array holds the variable it is named after, cell by cell, and the
files are written at the steps and places asked for."""
from .. import terms as t, streams as io
from ..spec import *
from ..interp import TRUE, FALSE, Ev, Lam, Loc, Struct, deref
from .p18 import ops_of
from .p19 import truth, exact, enum, functions, last, one

R = range
THIS = mk("this")
NAMES = (7, 3)          # numbers of the two cells


class Out(object):
    """a mesh of two known cells; files as sequences of events"""

    def __init__(self, P, cells=NAMES, pts=3, ctr=1, ndof=None):
        self.P, self.st = P, State()
        self.elts = []
        for k, c in enumerate(cells):
            p = mk("param", 50 + k, "ELT%d" % c)
            self.elts.append(p)
            write(self.st, fld(p, "ID"), num(c))
            m = deref(read(self.st, fld(p, "master"))) if False else None
        self.pts, self.ctr, self.ndof = pts, ctr, ndof

    def hook(self, I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)
        if n == "CallForEachElement":
            lam = I.rv(I.ev(argn[0], fr, st), st)
            for p in self.elts:
                for c in ops_of(fr, lam)[:1]:
                    I.inline(c, lam.frame, st, None, [Loc(p, "elt")], e[1], parent=lam.frame)
            return None
        if n == "GetMeshName":
            return mk("str", "MESH")
        if n == "columns" and argn:
            v = I.ev(argn[0], fr, st)
            if isinstance(v, Loc):
                s = str(v.path)
                if s.endswith("phi_postprocessor_cell"):
                    return num(self.ctr)
                if s.endswith("phi_postprocessor_point"):
                    return num(self.pts)
        return NotImplemented


# ---------------------------------------------------------------- files
class File(object):
    def __init__(self):
        self.text = []          # strings and (term, type, event)


class Disk(object):
    """what the events of a run leave on the disk, given what was there"""

    def __init__(self, P, old=None):
        self.P = P
        self.files = dict(old or {})
        self.open, self.mode, self.trouble, self.made = {}, {}, [], []

    def put(self, name, piece):
        self.files.setdefault(name, []).append(piece)

    def string(self, v):
        """text of a string term"""
        if v.op == "str":
            return v.args[0]
        n = exact(v)
        if n is not None:
            return str(n)
        if v.op == "app" and v.args[0] == "strcat":
            return "".join(chr(exact(x)) if exact(x) is not None else self.string(x) for x in v.args[1:])
        if v.op == "app" and v.args[0] == "to_string":
            return self.string(v.args[1])
        if v.op == "app" and v.args[0] in ("str", "c_str"):
            return self.string(v.args[1])
        raise Undecided("file name %s" % str(v)[:80])

    def play(self, evs):
        for e in evs:
            if e.kind == "if":
                c = truth(e.args[0])
                if c is None:
                    if any(self.io(x) for x in e.kids[0] + e.kids[1]):
                        raise Undecided("output that depends on %s" % str(e.args[0])[:100])
                    continue
                self.play(e.kids[0] if c else e.kids[1])
                continue
            if e.kind != "ev":
                if e.kind == "loop" and any(self.io(x) for x in e.kids):
                    raise Undecided("output in a loop of unknown length")
                self.play(e.kids)
                continue
            n = e.name
            if n == "out":
                self.out(e)
            elif n in ("close", "#gone"):
                self.open.pop(str(e.args[0]), None)
            elif n == "move":
                a, b = (str(x) for x in e.args)
                if b in self.open:
                    self.open[a] = self.open.pop(b)
                    self.mode[a] = self.mode.get(b)
            elif n == "needs":
                nm = self.string(e.args[0])
                if nm not in self.files:
                    self.trouble.append((e, "%s is looked for, it was never written" % nm))
            elif "fstream" in n and len(e.args) >= 2 and (last(n) == "open" or "fstream" in last(n)):
                self.opened(e)

    def io(self, e):
        if e.kind == "ev":
            return e.name in ("out", "close", "move") or "fstream" in e.name
        kids = e.kids[0] + e.kids[1] if e.kind == "if" else e.kids
        return any(self.io(x) for x in kids)

    def opened(self, e):
        s, nm, m = str(e.args[0]), self.string(e.args[1]), str(e.args[2]) if len(e.args) > 2 else ""
        if "ifstream" in e.name:
            if nm not in self.files:
                self.trouble.append((e, "%s is read, it was never written" % nm))
            for x, y in self.open.items():
                if y == nm and self.mode.get(x) == "w":
                    self.trouble.append((e, "%s is read while it is still being written" % nm))
            self.mode[s] = "r"
        else:
            if "app" not in m and "std::ios_base::ate" not in m or nm not in self.files:
                self.files[nm] = []
            self.mode[s] = "w"
            self.made.append(nm)
        self.open[s] = nm

    def out(self, e):
        s, v, ty = str(e.args[0]), e.args[1], e.args[2].args[1]
        if s not in self.open:
            if s.endswith("log_file"):
                return
            self.trouble.append((e, "output goes to a closed file"))
            return
        nm = self.open[s]
        if v.op == "app" and v.args[0] == "rdbuf":
            src = self.open.get(str(v.args[1]))
            if src is None:
                self.trouble.append((e, "a file is copied that is not open"))
                return
            for x in self.files.get(src, []):
                self.put(nm, x)
            return
        if "fn<std::" in str(v):
            f = str(v)[8:-1]
            if f == "endl":
                self.put(nm, "\n")
            return
        ty = str(ty)
        n = exact(v)
        if v.op == "str":
            self.put(nm, v.args[0])
        elif ty in ("char", "unsigned char", "signed char") and n is not None:
            self.put(nm, chr(n))
        elif "_Set" in ty:
            return
        elif n is not None and "float" not in ty and "double" not in ty:
            self.put(nm, str(n))
        elif ty in ("char", "unsigned char", "signed char"):
            self.put(nm, "?")
        elif v.op == "app" and v.args[0] == "to_string" and exact(v.args[1]) is not None:
            self.put(nm, str(exact(v.args[1])))
        else:
            self.put(nm, (v, ty, e))

    def render(self, name):
        """text with @k@ for values, values"""
        vals, out = [], []
        for x in self.files[name]:
            if isinstance(x, str):
                out.append(x)
            else:
                out.append("@%d@" % len(vals))
                vals.append(x)
        return "".join(out), vals


class Bad(Exception):
    pass


def values(text, vals):
    """the tokens of a text: integers and terms"""
    out = []
    for w in text.split():
        if w.startswith("@") and w.endswith("@") and w[1:-1].isdigit():
            out.append(vals[int(w[1:-1])][0])
        elif "@" in w:
            raise Bad("values run together: %s" % w[:60])
        else:
            try:
                out.append(num(int(w)))
            except ValueError:
                raise Bad("%s is no number" % w[:40])
    return out


def whole(v):
    n = exact(v)
    if n is None:
        raise Bad("%s is no number" % str(v)[:40])
    return n


def read_vtk(text, vals):
    """a legacy vtk file: (points, cells, kinds of cells, {("cell"|"point", name): values})"""
    L = [x.strip() for x in text.split("\n")]
    if len(L) < 4 or not L[0].startswith("# vtk DataFile Version") or L[2] != "ASCII" or L[3] != "DATASET UNSTRUCTURED_GRID":
        raise Bad("the head of the file is not that of a legacy vtk grid")
    toks = "\n".join(L[4:]).split()
    i = [0]

    def tok():
        if i[0] >= len(toks):
            raise Bad("the file ends too early")
        i[0] += 1
        return toks[i[0] - 1]

    def many(n):
        return values(" ".join(tok() for _ in R(n)), vals)

    def count():
        w = tok()
        if not w.isdigit():
            raise Bad("%s where a number of entries is due" % w[:40])
        return int(w)
    pts, cells, kinds, data, at, n = None, None, None, {}, None, 0
    while i[0] < len(toks):
        w = tok()
        if w == "POINTS":
            k = count()
            tok()
            x = many(3 * k)
            pts = [x[3 * j:3 * j + 3] for j in R(k)]
        elif w == "CELLS":
            k, m = count(), count()
            x, cells, j = many(m), [], 0
            for _ in R(k):
                if j >= len(x):
                    raise Bad("CELLS announces too few entries")
                c = whole(x[j])
                cells.append([whole(y) for y in x[j + 1:j + 1 + c]])
                j += 1 + c
            if j != len(x):
                raise Bad("CELLS announces %d entries, there are %d" % (m, j))
        elif w == "CELL_TYPES":
            kinds = [whole(x) for x in many(count())]
        elif w in ("CELL_DATA", "POINT_DATA"):
            at, n = w[:-5].lower(), count()
            want = len(cells or []) if at == "cell" else len(pts or [])
            if n != want:
                raise Bad("%s announces %d entries, there are %d" % (w, n, want))
        elif w == "SCALARS":
            nm, ty, k = tok(), tok(), count()
            if tok() != "LOOKUP_TABLE":
                raise Bad("no lookup table for %s" % nm)
            tok()
            if (at, nm) in data:
                raise Bad("%s is written twice" % nm)
            data[(at, nm)] = many(n * k)
        else:
            raise Bad("%s where a section is due" % w[:40])
    return pts, cells, kinds, data


def read_vtu(text, vals):
    import xml.etree.ElementTree as ET
    try:
        root = ET.fromstring(text.strip())
    except ET.ParseError as x:
        raise Bad("the file is no xml: %s" % x)
    if root.tag != "VTKFile" or root.get("type") != "UnstructuredGrid":
        raise Bad("the file is no unstructured grid")
    ps = root.findall("UnstructuredGrid/Piece")
    if len(ps) != 1:
        raise Bad("there are %d pieces" % len(ps))
    p = ps[0]
    np, nc = whole(values(p.get("NumberOfPoints") or "?", vals)[0]), whole(values(p.get("NumberOfCells") or "?", vals)[0])

    def arrays(tag):
        s = p.findall(tag)
        if len(s) != 1:
            raise Bad("there are %d sections %s" % (len(s), tag))
        out = {}
        for a in s[0].findall("DataArray"):
            if a.get("format") != "ascii":
                raise Bad("array %s is not marked ascii" % a.get("Name"))
            if a.get("Name") in out:
                raise Bad("%s is written twice" % a.get("Name"))
            out[a.get("Name")] = values(a.text or "", vals)
        return out
    x = list(arrays("Points").values())
    if len(x) != 1 or len(x[0]) != 3 * np:
        raise Bad("NumberOfPoints is %d, there are %s coordinates" % (np, len(x[0]) if x else 0))
    pts = [x[0][3 * j:3 * j + 3] for j in R(np)]
    c = arrays("Cells")
    for n in ("connectivity", "offsets", "types"):
        if n not in c:
            raise Bad("no array %s" % n)
    off = [whole(y) for y in c["offsets"]]
    con = [whole(y) for y in c["connectivity"]]
    if len(off) != nc or len(c["types"]) != nc or off != sorted(off) or (off[-1] if off else 0) != len(con):
        raise Bad("the offsets are %s for %d cells and %d corners" % (off, nc, len(con)))
    cells = [con[(off[j - 1] if j else 0):off[j]] for j in R(nc)]
    data = {}
    for at, tag, n in (("point", "PointData", np), ("cell", "CellData", nc)):
        for nm, v in arrays(tag).items():
            if len(v) != n:
                raise Bad("%s has %d entries for %d %ss" % (nm, len(v), n, at))
            data[(at, nm)] = v
    return pts, cells, [whole(y) for y in c["types"]], data


# ---------------------------------------------------------------- the writer
def stream_hook(o, step, now=mk("param", 60, "TIME")):
    def more(I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)
        if n == "GetStep":
            return num(step)
        if n == "GetTimeAtCurrentStage":
            return now
        if n == "rdbuf" and this is not None:
            return mk("app", "rdbuf", this)
        if n == "file_exists" and argn:
            st.events.append(Ev("ev", "needs", (I.tm(I.rv(I.ev(argn[0], fr, st), st), st),), fr.fn.file, e[1]))
            return TRUE
        if name.endswith("#=") and "fstream" in name:
            l, r = I.ev(argn[0], fr, st), I.ev(argn[1], fr, st)
            p = r.path if isinstance(r, (Loc, Struct)) else I.tm(r, st)
            st.events.append(Ev("ev", "move", (l.path, p), fr.fn.file, e[1]))
            return l
        if n == "open" and "fstream" in name and this is not None:
            a = [I.tm(I.rv(I.ev(x, fr, st), st), st) for x in argn]
            st.events.append(Ev("ev", name, (this,) + tuple(a), fr.fn.file, e[1]))
            return None
        if n == "swap" and "fstream" in name:
            raise Undecided("files are exchanged")
        return o.hook(I, e, fr, st, name, fn, obj, this, argn)
    return io.hook(more)


VARS = {"ze": ("q", 0), "qx": ("q", 1), "qy": ("q", 2), "bath": ("aux", 0)}


class Session(object):
    """one writer through several steps"""

    def __init__(self, ctx, P, cls, on=("vtk", "vtu", "modal"), freq=(1, 1, 1), cells=NAMES, ndof=2):
        self.ctx, self.P, self.cls = ctx, P, cls
        self.o = Out(P, cells)
        st = self.o.st
        for k, f in zip(("vtk", "vtu", "modal"), freq):
            write(st, fld(THIS, "writing_%s_output" % k), TRUE if k in on else FALSE)
            write(st, fld(THIS, "%s_output_frequency" % k), num(f))
        write(st, fld(THIS, "output_path"), mk("str", "OUT/"))
        for p in self.o.elts:
            for k in R(4):
                for f, d in (("q", "#cols"), ("aux", "#cols"), ("aux", "#size")):
                    write(st, fld(fld(at1(fld(fld(p, "data"), "state"), num(k)), f), d), num(ndof))
        self.ndof = ndof
        self.disk = Disk(P)

    def call(self, name, step, now=mk("param", 60, "TIME")):
        f = one(self.P, "Writer::" + name, lambda f: f.d["cls"] == self.cls)
        self.o.st.events = []
        self.f = f
        r = Run(self.P, f, ["stepper", "mesh"], state=self.o.st, ctx=self.ctx, hook=stream_hook(self.o, step, now), decide=truth, unroll=300,
                event=lambda n: "fstream" in n and last(n) != "close")
        if r.st is None:
            raise Bad("it fails")
        self.o.st = r.st
        d = Disk(self.P, self.disk.files)
        d.play(r.st.events)
        self.disk = d
        return d

    def state(self, e, var, k):
        f, v = VARS[var]
        return at2(fld(at1(fld(fld(e, "data"), "state"), ZERO), f), num(v), num(k)) if f == "q" else at1(fld(at1(fld(fld(e, "data"), "state"), ZERO), f), num(k))


def guide(P, st, elts):
    """the corner of a cell a pair of coordinates is, from the coordinates of its nodes"""
    at = {}
    for e in elts:
        for k in R(3):
            c = at1(fld(fld(e, "shape"), "nodal_coordinates"), num(k))
            at[(str(at1(c, ZERO)), str(at1(c, num(1))))] = (e, k)
    return at


CORNER = {(-1, -1): 0, (1, -1): 1, (-1, 1): 2}


def evaluation_points(P, name):
    """where the cell or point values are evaluated, in reference coordinates"""
    f = [f for f in functions(P) if last(f.name) == name]
    if not f:
        raise Undecided("no %s" % name)
    r = Run(P, f[0], [], decide=truth, unroll=60)
    v = r.ret
    p = v.path if isinstance(v, (Loc, Struct)) else None
    st = v.state if isinstance(v, Struct) else r.st
    n = exact(read(st, fld(p, "#size"))) if p is not None else None
    if n is None:
        raise Undecided("number of evaluation points")
    out = []
    for k in R(n):
        z = [read(st, at1(at1(p, num(k)), num(d))) for d in R(2)]
        out.append(tuple(t.numval(x) for x in z))
    return out, f[0]


def basis_tables(ctx, P):
    """the tables used for the output are the basis at the corners and the centroid of a cell"""
    pts, f = evaluation_points(P, "VTKPostPoint")
    ctx.ob("arrays", "corners of a cell", sorted(pts) == sorted(CORNER), f.where(), "point values are taken at %s" % [tuple(str(x) for x in p) for p in pts])
    ctr, g = evaluation_points(P, "VTKPostCell")
    third = t.numval(num(-1)) / 3
    ctx.ob("arrays", "centroid of a cell", len(ctr) == 1 and all(abs(float(x) - float(third)) < 1e-12 for x in ctr[0]), g.where(), "cell values are taken at %s" % [tuple(str(x) for x in p) for p in ctr])
    for m in [f for f in functions(P) if f.name.startswith("Master::Triangle::Triangle") and f.d.get("cls")][:1]:
        def hook(I, e, fr, st, name, fn, obj, this, argn):
            if last(name) in ("VTKPostCell", "VTKPostPoint"):
                return mk("app", last(name))
            if last(name) == "GetPhi":
                a = [I.rv(I.ev(x, fr, st), st) for x in argn]
                v = a[1]
                if isinstance(v, (Loc, Struct)):
                    v = v.path
                return mk("app", "phi_at", I.tm(a[0], st), read(st, v) if v.op in ("local", "tmp") else v)
            return NotImplemented
        r = Run(P, m, ["p"], hook=hook)
        for n, w in (("cell", "VTKPostCell"), ("point", "VTKPostPoint")):
            v = read(r.st, fld(THIS, "phi_postprocessor_" + n))
            ok = isinstance(v, t.T) and v.op == "app" and v.args[0] == "phi_at" and w in str(v.args[2]) and str(v.args[1]) in ("p", "this.p")
            ctx.ob("arrays", "basis for %s values" % n, ok, m.where(), "the table is %s" % str(v)[:100])
    return [CORNER.get(tuple(int(x) for x in p)) if p in CORNER else None for p in pts]


def grid(ctx, s, tag, pts, cells, kinds, fn):
    """the cells of the file: which element each one is; the corner each point is"""
    at = guide(s.P, s.o.st, s.o.elts)
    who, corner = [], []
    for p in pts:
        corner.append(at.get((str(p[0]), str(p[1]))))
    for c in cells:
        k = [corner[i] if i < len(corner) else None for i in c]
        es = set(x[0] for x in k if x)
        who.append(es.pop() if len(es) == 1 and None not in k and len(set(x[1] for x in k)) == 3 and len(c) == 3 else None)
    ctx.ob("grid", tag + " every cell once", sorted(map(str, who)) == sorted(map(str, s.o.elts)), fn.where(),
           "the cells are %s with the points %s" % (cells, [[str(x) for x in p[:2]] for p in pts][:6]))
    turn = [tuple(corner[i][1] for i in c) for c, w in zip(cells, who) if w is not None]
    ctx.ob("grid", tag + " orientation", all(x in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) for x in turn), fn.where(), "corners in the order %s" % turn)
    ctx.ob("grid", tag + " kinds", kinds == [5] * len(cells), fn.where(), "the cells are marked %s, triangles are 5" % kinds)
    return who, corner


def value(s, var, e, table, k):
    out = ZERO
    for j in R(s.ndof):
        out = t.add(out, t.mul(s.state(e, var, j), at2(fld(deref(fld(e, "master")), "phi_postprocessor_" + table), num(j), num(k))))
    return out


def data(ctx, s, tag, d, who, corner, order, fn, need):
    """every array against the state"""
    for at in ("cell", "point"):
        n = len(who) if at == "cell" else len(corner)
        for nm in need[at]:
            got = d.get((at, nm))
            lab = "%s %s data %s" % (tag, at, nm)
            if got is None:
                ctx.ob("arrays", lab, False, fn.where(), "there is no such array")
                continue
            for j in R(n):
                e = who[j] if at == "cell" else corner[j] and corner[j][0]
                if e is None:
                    continue
                k = 0 if at == "cell" else (order.index(corner[j][1]) if corner[j][1] in order else None)
                if k is None:
                    continue
                base = nm.rsplit("_", 1)[0]
                if nm == "ID":
                    want = read(s.o.st, fld(e, "ID"))
                elif nm == "wet_dry":
                    want = fld(fld(fld(e, "data"), "wet_dry_state"), "wet")
                elif nm == "went_completely_dry":
                    want = fld(fld(fld(e, "data"), "wet_dry_state"), nm)
                elif base == "velocity":
                    v = {x: value(s, x, e, at, k) for x in VARS}
                    want = dv(sqrt(t.add(t.mul(v["qx"], v["qx"]), t.mul(v["qy"], v["qy"]))), t.add(v["ze"], v["bath"]))
                else:
                    want = value(s, base, e, at, k)
                ctx.eq("arrays", "%s entry %d" % (lab, j), got[j], want, fn.where(), "the value of %s" % nm)


NEED = {"vtk": {"cell": ["ze_cell", "qx_cell", "qy_cell", "bath_cell", "ID", "wet_dry", "went_completely_dry"], "point": ["ze_point", "qx_point", "qy_point", "bath_point"]}}
NEED["vtu"] = {"cell": NEED["vtk"]["cell"], "point": NEED["vtk"]["point"] + ["velocity_point"]}


def contents(ctx, P, cls, tag, order):
    """all files of two steps"""
    s = Session(ctx, P, cls)
    T = [mk("param", 61, "TIME0"), mk("param", 62, "TIME1")]
    for nm in ("MESH_data_0.vtk", "MESH_modal_ze.txt", "MESH_raw_data.vtk", "MESH_geometry.vtk", "MESH_geom_head.vtu", "MESH_geom_foot.vtu", "MESH_raw_data.vtu"):
        s.disk.files["OUT/" + nm] = ["left by an earlier run\n"]
    for k, (call, step) in enumerate((("WriteFirstStep", 0), ("WriteOutput", 12))):
        try:
            d = s.call(call, step, T[k])
        except Bad as x:
            ctx.ob("grid", "%s step %d" % (tag, step), False, s.f.where(), str(x))
            return
        fn = s.f
        for e, msg in d.trouble:
            ctx.ob("grid", "%s step %d files in order" % (tag, step), False, e.where() if e.line else fn.where(), msg)
        if not d.trouble:
            ctx.ob("grid", "%s step %d files in order" % (tag, step), True, fn.where())
        for ext, rd in (("vtk", read_vtk), ("vtu", read_vtu)):
            lab = "%s %s step %d" % (tag, ext, step)
            nm = "OUT/MESH_data_%d.%s" % (step, ext)
            if nm not in d.files:
                ctx.ob("grid", lab, False, fn.where(), "there is no file %s" % nm)
                continue
            try:
                pts, cells, kinds, arr = rd(*d.render(nm))
                if None in (pts, cells, kinds):
                    raise Bad("points, cells or kinds of cells are missing")
            except Bad as x:
                ctx.ob("grid", lab, False, fn.where(), str(x))
                continue
            who, corner = grid(ctx, s, lab, pts, cells, kinds, fn)
            data(ctx, s, lab, arr, who, corner, order, one_writer(P, ext, fn), NEED[ext])
    for var in ("ze", "qx", "qy", "bath"):
        nm = "OUT/MESH_modal_%s.txt" % var
        lab = "%s modal %s" % (tag, var)
        if nm not in s.disk.files:
            ctx.ob("modal", lab, False, fn.where(), "there is no file %s" % nm)
            continue
        fm = one_writer(P, "modal", fn)
        try:
            got = values(*s.disk.render(nm))
            lines = [l.split() for l in s.disk.render(nm)[0].split("\n") if l.strip()]
        except Bad as x:
            ctx.ob("modal", lab, False, fm.where(), str(x))
            continue
        want = []
        for k in R(2):
            want.append([mk("app", "to_string", T[k])])
            for e in s.o.elts:
                for j in R(s.ndof):
                    want.append([read(s.o.st, fld(e, "ID")), s.state(e, var, j)])
        ctx.ob("modal", lab + " lines", [len(l) for l in lines] == [len(w) for w in want], fm.where(), "the lines have %s entries" % [len(l) for l in lines])
        flat = [x for w in want for x in w]
        for k, (g, w) in enumerate(zip(got, flat)):
            if w.op == "app" and w.args[0] == "to_string":
                ctx.ob("modal", "%s entry %d" % (lab, k), g is w or g is w.args[1], fm.where(), "%s where the time is due" % str(g)[:60])
            else:
                ctx.eq("modal", "%s entry %d" % (lab, k), g, w, fm.where(), "the coefficient")


def one_writer(P, ext, fn):
    f = [f for f in functions(P) if f.name == ("SWE::write_%s_data" % (ext if ext == "modal" else ext.upper()))]
    return f[0] if f else fn


KINDS = ("vtk", "vtu", "modal")


def when(ctx, P, cls, tag):
    """a kind of output is written at exactly the steps that are multiples of its own interval"""
    for on, freq, steps in tuple((x, (2, 3, 5), (0, 1, 2, 3, 4, 5, 6, 7, 10, 15, 30)) for x in (KINDS, ("vtk",), ("vtu",), ("modal",), ())) + ((KINDS, (1, 1, 1), (0, 1, 2, 3)),):
        s = Session(ctx, P, cls, on=on, freq=freq)
        times, kept = 0, {}
        lab = "%s %s%s" % (tag, "+".join(on) or "nothing", " always" if freq[0] == 1 else "")
        try:
            for step in steps:
                before = {n: list(v) for n, v in s.disk.files.items()}
                d = s.call("WriteFirstStep" if step == 0 else "WriteOutput", step)
                for k, f in zip(("vtk", "vtu"), freq):
                    nm = "OUT/MESH_data_%d.%s" % (step, k)
                    want = k in on and step % f == 0
                    ctx.ob("when", "%s: %s at step %d" % (lab, k, step), (nm in d.made) == want, s.f.where(), "%s is %swritten" % (nm, "not " if want else ""))
                for var in VARS:
                    nm = "OUT/MESH_modal_%s.txt" % var
                    want = "modal" in on and step % freq[2] == 0
                    ctx.ob("when", "%s: modal %s at step %d" % (lab, var, step), (len(d.files.get(nm, [])) > len(before.get(nm, []))) == want, s.f.where(), "%s is %swritten" % (nm, "not " if want else ""))
                lost = [n for n in before if ("_data_" in n and not "raw" in n and ("_%d." % step) not in n or "modal" in n) and d.files[n][:len(before[n])] != before[n]]
                ctx.ob("when", "%s: earlier output at step %d" % (lab, step), not lost, s.f.where(), "%s is overwritten" % lost)
        except Bad as x:
            ctx.ob("when", lab, False, s.f.where(), str(x))


def asked(ctx, P, cls, tag):
    """what the input asks for is what the writer does; sub-domains write to places of their own"""
    for f in P.find("Writer::Writer"):
        if f.d["cls"] != cls or not f.params:
            continue
        names = ["input", "rank", "submesh"][:len(f.params)]
        inp = mk("param", 0, "input")
        lab = "%s %s" % (tag, "sub-domain" if len(f.params) > 1 else "single")

        def hook(I, e, fr, st, name, fn, obj, this, argn):
            if last(name) == "mkdir":
                v = I.tm(I.rv(I.ev(argn[0], fr, st), st), st)
                while v.op == "app" and v.args[0] in ("c_str", "data", "std::basic_string::c_str"):
                    v = v.args[1]
                st.events.append(Ev("ev", "mkdir", (v,), fr.fn.file, e[1]))
                return ZERO
            return NotImplemented
        r = Run(P, f, names, ctx=ctx, hook=hook)
        for k, src in [("writing_output", None), ("writing_log_file", None), ("verbose_log_file", None), ("writing_vtk_output", None), ("writing_vtu_output", None), ("writing_modal_output", None),
                       ("vtk_output_frequency", "vtk_output_freq_step"), ("vtu_output_frequency", "vtu_output_freq_step"), ("modal_output_frequency", "modal_output_freq_step")]:
            ctx.ob("asked", "%s %s" % (lab, k), read(r.st, fld(THIS, k)) is fld(inp, src or k), f.where(), "is %s" % str(read(r.st, fld(THIS, k)))[:80])
        path = read(r.st, fld(THIS, "output_path"))
        if len(f.params) == 1:
            ctx.ob("asked", lab + " output path", path is fld(inp, "output_path"), f.where(), "is %s" % str(path)[:80])
            continue
        parts = list(path.args[1:]) if path.op == "app" and path.args[0] == "strcat" else [path]
        ids = [x for x in parts if x.op == "app" and x.args[0] == "to_string"]
        kinds = sorted(str(x.args[1]) for x in ids)
        gaps = all(parts[i + 1] not in ids for i in R(len(parts) - 1) if parts[i] in ids)
        ctx.ob("asked", lab + " output path", kinds == ["rank", "submesh"] and gaps and parts[0] is fld(inp, "output_path"), f.where(), "the path %s does not tell the sub-domains apart" % str(path)[:120])
        end = parts[-1]
        ctx.ob("asked", lab + " output path is a folder", end.op == "str" and end.args[0].endswith("/") or exact(end) == 47, f.where(), "the path is %s" % str(path)[:120])
        mk_ = []

        def see(evs):
            for e in evs:
                if e.kind == "ev" and e.name == "mkdir":
                    mk_.append(e.args[0])
                elif e.kind != "ev":
                    see(e.kids if e.kind != "if" else [])
        see(r.st.events)
        ctx.ob("asked", lab + " folder is made", any(path is x or str(x).endswith(str(path)) or str(path) in str(x) for x in mk_), f.where(), "the folders made are %s" % [str(x)[:60] for x in mk_])


STAGES = ("stage_serial", "stage_ompi", "dispersive_correction_serial", "dispersive_correction_ompi")
SETUP = ("preprocessor_serial", "preprocessor_ompi")


def drivers(ctx, P, tu):
    """the first output is written once before the first step, the others once at the end of each step, by every sub-domain"""
    for f in functions(P):
        if last(f.name) != "Run" or "imulation" not in f.name or f.name.count("(lambda)"):
            continue
        tag = "%s %s" % (tu, f.d["cls"].split("<", 1)[1].replace("::Problem>", ""))
        ctx.guard("steps", tag, f.where(), lambda: driver(ctx, P, f, tag), 100)


def driver(ctx, P, f, tag):
    named = STAGES + SETUP + ("WriteFirstStep", "WriteOutput")

    def hook(I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)
        if n in named:
            a = []
            for x in argn:
                v = I.ev(x, fr, st)
                a.append(v.path if isinstance(v, (Loc, Struct)) else I.tm(v, st))
            for k, x in enumerate(a):
                if x.op == "local":
                    v = read(st, x)
                    a[k] = v if isinstance(v, t.T) else x
            st.events.append(Ev("ev", n, (this if this is not None else mk("this"),) + tuple(a), fr.fn.file, e[1]))
            return None
        if n in ("GetLogFile", "ParseInput", "operator<<", "StartLog"):
            return Loc(mk("param", 90, "log"))
        if name.endswith("#<<"):
            return I.ev(argn[0], fr, st)
        return NotImplemented
    r = Run(P, f, [], ctx=ctx, hook=hook)
    if r.st is None:
        raise Undecided("the run does not end")
    flat = []

    def walk(evs, loops, conds):
        for e in evs:
            if e.kind == "ev":
                if e.name in named:
                    flat.append((e.name, loops, conds, e))
            elif e.kind == "loop":
                walk(e.kids, loops + (e,), conds)
            elif e.kind == "if":
                walk(e.kids[0], loops, conds + (e.args[0],))
                walk(e.kids[1], loops, conds + (t.bnot(e.args[0]),))
            else:
                walk(e.kids, loops, conds)
    walk(r.st.events, (), ())
    pos = lambda ns: [k for k, x in enumerate(flat) if x[0] in ns]
    stages, first, out, setup = pos(STAGES), pos(("WriteFirstStep",)), pos(("WriteOutput",)), pos(SETUP)
    if not stages or not setup:
        raise Undecided("no stages found in the run")
    steps = flat[stages[0]][1][:1]

    def say(what, ok, msg, k=None):
        ctx.ob("steps", "%s %s" % (tag, what), ok, flat[k][3].where() if k is not None else f.where(), msg)
    say("first output once", len(first) == 1, "it is written at %d places" % len(first), first[-1] if first else None)
    say("output once per step", len(out) == 1, "it is written at %d places" % len(out), out[-1] if out else None)
    if len(first) != 1 or len(out) != 1:
        return
    a, b = first[0], out[0]
    say("first output after the set-up", max(setup) < a and a < min(stages), "it is not between the set-up and the first step", a)
    say("first output before the steps", not steps or steps[0] not in flat[a][1], "it is repeated in every step", a)
    say("output at the end of a step", b > max(stages) and bool(steps) and flat[b][1][:1] == steps, "it is not written after the last stage of the step", b)
    sub = [x for x in flat[stages[0]][3].args[1:] if "begin" in str(x) or "end" in str(x)]
    for what, k, base in (("first output", a, ()), ("output", b, steps)):
        name, loops, conds, e = flat[k]
        rest = loops[len(base):]
        own = fld(e.args[0], "writing_output")
        say(what + " when asked", list(conds) == [own], "it is written if %s" % " and ".join(str(x)[:60] for x in conds), k)
        m = [x for x in e.args[1:] if str(x).endswith("mesh")]
        unit = e.args[0].args[0] if e.args[0].op == "fld" else None
        say(what + " of its own mesh", len(m) == 1 and m[0] is fld(fld(unit, "discretization"), "mesh"), "the mesh written is %s by %s" % ([str(x)[:60] for x in m], str(e.args[0])[:60]), k)
        if "Serial" in f.name:
            say(what + " not repeated", not rest, "it is repeated", k)
        else:
            st_args = [x for x in flat[stages[0]][3].args]
            rng = tuple(x for x in st_args[-2:])
            ok = len(rest) == 1 and tuple(rest[0].args[:2]) == rng and rest[0].name == ""
            say(what + " by every sub-domain", ok, "the sub-domains that write are %s, those that compute %s" % ([str(x)[:60] for x in (rest[0].args[:2] if rest else ())], [str(x)[:60] for x in rng]), k)


def run(ctx):
    ctx.rule("arrays", "every array of an output file holds the variable it is named after, of the cell or corner it stands for", 650)
    ctx.rule("grid", "an output file is well formed and its grid is the mesh: every cell once, with its corners", 60)
    ctx.rule("modal", "the modal files list time, cell and coefficient of the variable they are named after, one record per output, from the first step on", 150)
    ctx.rule("when", "a kind of output is written at exactly the steps asked for, and leaves earlier output alone", 1000)
    ctx.rule("asked", "the writer does what the input asks for; each sub-domain writes to its own folder", 50)
    ctx.rule("steps", "every sub-domain writes once before the first step and once at the end of each step, the final state of its own mesh", 30)
    for tu in ("serial", "ompi"):
        P = ctx.prog(tu, "shape")
        drivers(ctx, P, tu)
        order = []
        ctx.guard("arrays", tu + " tables", "", lambda: order.extend(basis_tables(ctx, P)), 60)
        for cls in sorted(set(f.d["cls"] for f in functions(P) if last(f.name) == "WriteOutput")):
            tag = "%s %s" % (tu, cls.replace("Writer<", "").replace("::Problem>", ""))
            w = [f for f in P.find("Writer::WriteOutput") if f.d["cls"] == cls][0].where()
            ctx.guard("arrays", tag, w, lambda: contents(ctx, P, cls, tag, order), 120)
            ctx.guard("when", tag, w, lambda: when(ctx, P, cls, tag), 120)
            ctx.guard("asked", tag, w, lambda: asked(ctx, P, cls, tag), 60)
