"""P24: the run starts from the data it was given, at the right places, and is driven by the records of the right time."""
from .. import terms as t, streams as io
from ..spec import *
from ..spec import S as sumof
from ..interp import TRUE, FALSE, Loc, Lam, Mat
from ..maps import Maps, Missing
from ..yamlm import Yaml
from .p17 import enumerators
from .p18 import ops_of
from .p19 import Text, exact, truth, one, last

R = range
PI = t.Fraction("3.14159265359")
KINDS = ("Element", "Interface", "Boundary", "DistributedBoundary")
NODES = (4, 9, 2)


def short(fn):
    w = fn.where()
    p = [x for x in ("ImplicitStepper", "GN::Data", "ESSPRKStepper") if x in fn.psig]
    return p[0] if p else ""


class World(object):
    """one entity of every kind the mesh has; files whose text is known"""

    def __init__(self, files=None):
        self.st = State()
        self.ents, self.files, self.opened = {}, files or {}, []
        self.m = Maps(self.mine, exact)
        self.y = Yaml({})
        self.maps = []

    def mine(self, p):
        s = str(p)
        return any(x in s for x in ("manning", "node_meteo_data", "nodes")) or self.m.keys(self.now, p) != [] or p.op == "local"

    def ent(self, kind, k, c):
        key = (kind, k)
        if key not in self.ents:
            p = mk("param", 100 + len(self.ents), "%s%d" % (kind.lower(), k))
            self.ents[key] = (p, c.tu.types[c.params[0][2]].replace("&", "").strip())
        return self.ents[key]

    def hook(self, I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)
        self.now = st
        if n.startswith("CallForEach") and n[11:] in KINDS:
            lam = I.rv(I.ev(argn[0], fr, st), st)
            if not isinstance(lam, Lam):
                raise Undecided("what is done for each %s" % n[11:].lower())
            for k, c in enumerate(ops_of(fr, lam)):
                p, ty = self.ent(n[11:], k, c)
                I.inline(c, lam.frame, st, None, [Loc(p, ty)], e[1], parent=lam.frame)
            return None
        if n == "file_exists":
            return TRUE
        if n in ("is_open", "good"):
            return TRUE
        if name.startswith("std::") and "basic_string" in name and "stream" not in name:
            return self.y.string(I, e, fr, st, name, n, obj, this, argn)
        r = self.m.hook(I, e, fr, st, name, fn, obj, this, argn)
        if r is not NotImplemented:
            return r
        if name.endswith("#>>") and len(argn) == 2 and io.isstream(fr, argn[0]):
            left = I.ev(argn[0], fr, st)
            lv = I.ev(argn[1], fr, st)
            sp = io.spath(I, left, st)
            w = self.text(st, sp).token(st, sp)
            if not w:
                write(st, fld(sp, "#fail"), num(1))
                return left
            write(st, lv.path, num(t.Fraction(w)))
            return left
        if n == "getline" and len(argn) == 2:
            s, l = I.ev(argn[0], fr, st), I.ev(argn[1], fr, st)
            w = self.text(st, s.path).line(st, s.path)
            if w is None:
                return FALSE
            write(st, l.path, mk("str", w))
            return TRUE
        if name.endswith("#!") and len(argn) == 1 and io.isstream(fr, argn[0]):
            sp = io.spath(I, I.ev(argn[0], fr, st), st)
            return TRUE if read(st, fld(sp, "#fail")) == num(1) else FALSE
        if n == "operator!" and this is not None and "ios" in name:
            return TRUE if read(st, fld(this, "#fail")) == num(1) else FALSE
        if n == "operator bool" and obj in (TRUE, FALSE):
            return obj
        if n == "operator bool" and this is not None and "ios" in name:
            return FALSE if read(st, fld(this, "#fail")) == num(1) else TRUE
        return NotImplemented

    def text(self, st, path):
        v = read(st, path)
        hit = []
        if isinstance(v, t.T):
            t.walk(v, lambda x: hit.append(x.args[0]) if x.op == "str" else None)
        for h in hit:
            if h in self.files:
                if h not in self.opened:
                    self.opened.append(h)
                return Text(self.files[h])
            if "fstream" in str(v):
                raise Missing("", "the file %s is read" % h)
        return Text(hit[0] if hit else "")


def at(path, base):
    for x in path.split("."):
        base = fld(base, x)
    return base


# ---------------------------------------------------------------- the start
def node(shape, k, d):
    return shape.nodal_coordinates[k][d].p


def settings(w, E, inp, **kw):
    st = w.st
    for g in ("wetting_drying", "slope_limiting"):
        write(st, mk("glob", "SWE::PostProcessing::" + g), FALSE)
    for path, ty, dflt in (("spherical_projection", "SphericalProjectionType", "None"), ("initial_conditions", "InitialConditionsType", "Constant"),
                           ("bottom_friction", "BottomFrictionType", "None"), ("coriolis", "CoriolisType", "None")):
        v = kw.get(path, dflt)
        if (ty, v) not in E:
            raise Undecided("there is no %s %s" % (ty, v))
        write(st, fld(at(path, inp), "type"), num(E[(ty, v)]))


def start(ctx, P, f, E, **kw):
    w = World({"MANNING": "4 1/50\n9 1/25\n2 3/100\n17 1/10\n"})
    inp = mk("param", 1, "input")
    settings(w, E, inp, **kw)
    write(w.st, at("bottom_friction.manning_data_file", inp), mk("str", "MANNING"))
    el = X(mk("param", 100, "element0"))
    write(w.st, el.data.nnode.p, num(3))
    write(w.st, fld(el.shape.nodal_coordinates.p, "#size"), num(3))
    write(w.st, fld(el.data.source.manning_n.p, "#size"), num(3))
    for k, n in enumerate(NODES):
        write(w.st, el.node_ID[k].p, num(n))
    write(w.st, fld(el.node_ID.p, "#size"), num(3))

    def hook(I, e, fr, st, name, fn, obj, this, argn):
        if name == "SWE::ic_q":
            a = [I.tm(I.rv(I.ev(x, fr, st), st), st) for x in argn]
            pt = I.ev(argn[1], fr, st)
            xy = [read(st, at1(pt.path, num(d))) for d in (0, 1)] if isinstance(pt, Loc) else [a[1], a[1]]
            return mk("list", tuple(mk("app", "initial%d" % i, a[0], *xy) for i in R(3)))
        return w.hook(I, e, fr, st, name, fn, obj, this, argn)
    r = Run(P, f, ["mesh", "input"], state=w.st, ctx=ctx, hook=hook, decide=truth, unroll=30)
    if r.st is None:
        raise Undecided("the start never ends normally")
    return w, r, el, X(inp)


def coef(el, vals, d):
    """coefficient d of the projection of the linear function with these values at the corners"""
    ng = fld(el.shape.psi_gp.p, "#cols")
    return sumof(0, NDOF, lambda i: tm(el.m_inv(i, d), sumof(0, ng, lambda g: tm(el.int_phi_fact(g, i), pl(*[tm(el.shape.psi_gp(k, g), v) for k, v in enumerate(vals)])))))


def begin(ctx, P, f, E, lab):
    W = f.where()
    w, r, el, inp = start(ctx, P, f, E)
    A = el.data.state[0]
    z = [node(el.shape, k, 2) for k in R(3)]
    ctx.eq("bottom", lab + " coefficients", r[A.aux(0, D)], coef(el, z, D), W, "the bottom of the cell")
    i = el.data.internal
    ctx.eq("bottom", lab + " cell points", r[i.aux_at_gp(0, G)], sumof(0, NDOF, lambda j: tm(coef(el, z, j), P_(el.master).phi_gp(j, G))), W, "the bottom at the points")
    for d in (0, 1):
        ctx.eq("bottom", "%s slope %s" % (lab, "xy"[d]), r[i.db_at_gp(d, G)], sumof(0, NDOF, lambda j: tm(coef(el, z, j), el.dphi_gp[d](j, G))), W, "the slope of the bottom")
    for sph in ("None", "Enable"):
        w, r, el, inp = start(ctx, P, f, E, spherical_projection=sph)
        cphi = cos(tm(inp.spherical_projection.latitude_o, num(PI / 180)))
        fac = lambda y: dv(cphi, cos(dv(y, inp.spherical_projection.R))) if sph == "Enable" else num(1)
        tag = "%s %s projection" % (lab, "with" if sph == "Enable" else "without")
        ctx.eq("factor", tag + " cell points", r[el.data.internal.aux_at_gp(2, G)], fac(pl(*[tm(el.shape.psi_gp(k, G), node(el.shape, k, 1)) for k in R(3)])), W, "the factor")
        for (kind, k), (p, ty) in sorted(w.ents.items()):
            x = X(p)
            inst = "%s %s %d" % (tag, kind.lower(), k)
            if kind == "Interface":
                n = fld(fld(p, "data_in"), "nnode")
                ng = at1(fld(fld(p, "data_in"), "ngp_boundary"), x.bound_id_in.p)
                ne = at1(fld(fld(p, "data_ex"), "ngp_boundary"), x.bound_id_ex.p)
                for sd in ("in", "ex"):
                    b = X(at1(at("data_%s.boundary" % sd, p), fld(p, "bound_id_" + sd)))
                    aux = X(at("data_" + sd, p)).state[0].aux
                    tab = X(fld(p, "phi_gp_" + sd))
                    ctx.eq("bottom", "%s side %s" % (inst, sd), r[b.aux_at_gp(0, G)], sumof(0, NDOF, lambda j: tm(aux(0, j), tab(j, G))), W, "the bottom at the points")
                    got = r[b.aux_at_gp(2, G)]
                    own = lambda s, g: fac(sumof(0, fld(fld(p, "data_" + s), "nnode"), lambda j: tm(X(fld(p, "psi_gp_" + s))(j, g), X(fld(p, "shape_" + s)).nodal_coordinates[j][1])))
                    want = [own(sd, G)]
                    oth = "ex" if sd == "in" else "in"
                    for m in (ng, ne):
                        want.append(own(oth, mi(mi(m, G), num(1))))
                    # facing points of the two sides are the same place
                    good = [x for x in want if same_value(got, x)]
                    ctx.eq("factor", "%s side %s" % (inst, sd), got, (good or want)[0], W, "the factor")
            else:
                b = x.data.boundary[x.bound_id.p]
                ctx.eq("bottom", inst, r[b.aux_at_gp(0, G)], sumof(0, NDOF, lambda j: tm(x.data.state[0].aux(0, j), x.phi_gp(j, G))), W, "the bottom at the points") if kind != "Element" else None
                if kind != "Element":
                    ctx.eq("factor", inst, r[b.aux_at_gp(2, G)], fac(sumof(0, x.data.nnode.p, lambda j: tm(x.psi_gp(j, G), x.shape.nodal_coordinates[j][1]))), W, "the factor")
    names = ("ze", "qx", "qy")
    for ic in ("Default", "Constant", "Function"):
        w, r, el, inp = start(ctx, P, f, E, initial_conditions=ic)
        for v in R(3):
            got = r[el.data.state[0].q(v, D)]
            inst = "%s %s condition %s" % (lab, ic.lower(), names[v])
            if ic == "Function":
                ng = fld(el.gp_global_coordinates.p, "#size")
                cand = []
                for g_ in (fld(el.int_phi_fact.p, "#rows"), fld(el.shape.psi_gp.p, "#cols"), ng, NGP):
                    cand.append(sumof(0, NDOF, lambda i: tm(el.m_inv(i, D), sumof(0, g_, lambda g: tm(el.int_phi_fact(g, i), mk("app", "initial%d" % v, ZERO, el.gp_global_coordinates[g][0].p, el.gp_global_coordinates[g][1].p))))))
                good = [x for x in cand if same_value(got, x)]
                ctx.eq("state", inst, got, (good or cand)[0], W, "the state")
            else:
                u = fld(inp.initial_conditions.p, names[v] + "_initial")
                ctx.eq("state", inst, got, coef(el, [u] * 3, D), W, "the state")
    w, r, el, inp = start(ctx, P, f, E, bottom_friction="Manning")
    ctx.ob("friction", lab + " used", r[el.data.source.manning] == TRUE or exact(r[el.data.source.manning]) == 1, W, "the Manning friction of a cell is off")
    mean = sum([t.Fraction(1, 50), t.Fraction(1, 25), t.Fraction(3, 100)]) / 3
    ctx.eq("friction", lab + " factor", r[el.data.source.g_manning_n_sq], tm(mk("glob", "SWE::Global::g"), num(mean * mean)), W, "g n^2 of a cell")
    ctx.ob("friction", lab + " file", w.opened == ["MANNING"], W, "the factors are read from %s" % w.opened)
    w, r, el, inp = start(ctx, P, f, E)
    ctx.ob("friction", lab + " off", r[el.data.source.manning] is el.data.source.manning.p or r[el.data.source.manning] is FALSE, W, "the Manning friction is on unasked")
    w, r, el, inp = start(ctx, P, f, E, coriolis="Enable")
    lat = dv(pl(*[node(el.shape, k, 1) for k in R(3)]), tm(num(3), inp.spherical_projection.R))
    ctx.eq("rotation", lab, r[el.data.source.coriolis_f], tm(num(t.Fraction("0.000145842")), t.app("sin", term(lat))), W, "the Coriolis parameter")


def same_value(a, b):
    from ..evalt import same
    try:
        return a is term(b) or same(a, term(b))[0]
    except Exception:
        return False


# ---------------------------------------------------------------- longitude and latitude
def project(ctx, P, f, E, lab):
    W = f.where()
    for sysn in ("cartesian", "spherical"):
        for sph in ("None", "Enable"):
            inp = mk("param", 0, "input")
            w = World()
            w.now = w.st
            nodes = at("mesh_input.mesh_data.nodes", inp)
            write(w.st, at("mesh_input.mesh_coordinate_sys", inp), num(E[("CoordinateSystem", sysn)]))
            write(w.st, at("problem_input.spherical_projection.type", inp), num(E[("SphericalProjectionType", sph)]))
            ps = {n: w.m.add(w.st, nodes, n)[0] for n in (3, 8)}
            r = Run(P, f, ["input"], state=w.st, ctx=ctx, hook=w.hook, decide=truth)
            if r.st is None:
                ctx.ob("projection", "%s %s" % (lab, sysn), False, W, "the mesh is never projected")
                continue
            sp = X(at("problem_input.spherical_projection", inp))
            for n, p in sorted(ps.items()):
                c = X(fld(fld(p, "second"), "coordinates"))
                rad = num(PI / 180)
                want = [c[0].p, c[1].p, c[2].p]
                if sysn == "spherical":
                    want[0] = tm(sp.R, cos(tm(sp.latitude_o, rad)), mi(c[0], sp.longitude_o), rad)
                    want[1] = tm(sp.R, c[1], rad)
                for d in R(3):
                    ctx.eq("projection", "%s %s mesh, projection %s, node %d %s" % (lab, sysn, sph, n, "xyz"[d]), r[c[d]], want[d], W, "the coordinate")


# ---------------------------------------------------------------- wind and pressure
def record(s, n, c):
    return t.Fraction((s + 1) * (s + 3) * (n + 2) + 7 * c * (s + 2), 16)


def schedule(kind, total):
    """(stepper, step, stage, time, step size) of every call in the order of the run; the step size of the input is 1/2"""
    dt = t.Fraction(1, 2)
    out = []
    ab = (0, 1, t.Fraction(1, 2))
    for n in R(total):
        if kind == "steps":
            out += [("a", n, s, n * dt, dt) for s in R(3)]
        elif kind == "implicit":
            out += [("a", n, 0, n * dt, dt)]
        else:
            h = dt / 2
            out += [("a", 2 * n, s, 2 * n * h, h) for s in R(3)]
            out += [("b", n, s, n * dt, dt) for s in R(3)]
            out += [("a", 2 * n + 1, s, (2 * n + 1) * h, h) for s in R(3)]
    return out, ab, dt


def made(ctx, P, cls, nargs, w, E, F, dt, this):
    """the parser of an input whose records are less than F and more than F - 1 steps apart"""
    fs = [g for g in P.find("SWE::Parser::Parser") if len(g.params) == nargs and (cls + ">") in g.psig]
    if len(fs) != 1:
        raise Undecided("%d constructors of the parser" % len(fs))
    c = fs[0]
    inp = mk("param", 0, "input")
    st = w.st
    write(st, fld(this, "parsing_input"), FALSE)
    write(st, at("problem_input.meteo_forcing.type", inp), num(E[("MeteoForcingType", "Enable")]))
    write(st, at("problem_input.meteo_forcing.frequency", inp), num(F * dt - t.Fraction(1, 8)))
    write(st, at("problem_input.meteo_forcing.meteo_data_file", inp), mk("str", "wind.dat"))
    write(st, at("stepper_input.dt", inp), num(dt))
    w.now = st
    r = Run(P, c, ["input", "locality", "submesh"][:nargs], this=this, state=st, ctx=ctx, hook=w.hook, decide=truth)
    if r.st is None:
        raise Undecided("the parser refuses the input")
    on = r[fld(this, "parsing_input")]
    ctx.ob("wind", "%s records every %d steps: used" % (cls, F), on is TRUE or t.numval(on) == 1, c.where(), "the forcing is not used")
    return r.st


def driven(ctx, P, f, lab, kind, E, cls, nargs=1):
    W = f.where()
    total = 5
    for F in (1, 2, 3):
        files = {}
        for s in R(0, total + 2 * F + 1):
            files["wind_%d.dat" % s] = "".join("%d %s %s %s\n" % ((n,) + tuple(str(record(s, n, c)) for c in R(3))) for n in (2, 4, 9, 11))
        w = World(files)
        this, mesh = mk("this"), mk("param", 1, "mesh")
        stp = mk("param", 0, "stepper")
        calls, ab, dt = schedule(kind, total)
        st = w.st
        el = X(mk("param", 100, "element0"))
        write(st, mk("glob", "SWE::SourceTerms::meteo_forcing"), TRUE)
        st = w.st = made(ctx, P, cls, nargs, w, E, F, dt, this)
        write(st, el.data.nnode.p, num(3))
        for k, n in enumerate(NODES):
            write(st, el.node_ID[k].p, num(n))
        for k, a in enumerate(ab):
            write(st, at1(fld(stp, "drk"), num(k)), num(a))
        for who, step, stage, tm_, h in calls:
            for k, v in (("step", step), ("stage", stage), ("t", tm_), ("dt", h), ("timestamp", 3 * step + stage)):
                write(st, fld(stp, k), num(v))
            now = tm_ + (ab[stage] * h if kind != "implicit" else 0)
            inst = "%s records every %d steps, %s step %d stage %d" % (lab, F, {"a": "", "b": "second"}[who], step, stage)
            try:
                r = Run(P, f, ["stepper", "mesh"], state=st, ctx=ctx, hook=w.hook, decide=truth, unroll=30)
            except Missing as x:
                ctx.ob("wind", inst, False, W, str(x.args[-1]))
                break
            if r.st is None:
                ctx.ob("wind", inst, False, W, "the forcing is refused")
                break
            st = r.st
            a = int(tm_ / dt) // F * F
            lam = (now - a * dt) / (F * dt)
            bad = ""
            for k, n in enumerate(NODES):
                for c in R(3):
                    p = el.data.source.tau_s[k][c] if c < 2 else el.data.source.p_atm[k]
                    got = t.numval(r[p])
                    want = record(a, n, c) + lam * (record(a + F, n, c) - record(a, n, c))
                    if got is None:
                        raise Undecided("%s is %s" % (p.p, str(r[p])[:160]))
                    if abs(float(got) - float(want)) > 1e-9:
                        bad = bad or "%s at corner %d is %s at time %s, not %s" % (("the wind in x", "the wind in y", "the pressure")[c], k, got, now, want)
            ctx.ob("wind", inst, not bad, W, bad)
            if bad:
                break


# ---------------------------------------------------------------- what is switched on
SWITCHES = ("function_source", "bottom_friction", "meteo_forcing", "tide_potential", "coriolis")


def enabled(ctx, P, f, lab):
    """each switch of the input changes the source of a momentum equation"""
    F_ = mk("param", 9, "FS")

    def hook(I, e, fr, st, name, fn, obj, this, argn):
        if last(name) == "ComputeFgp":
            return amat(F_, num(3), NGP)
        if last(name).startswith("ComputeNodal") and len(argn) == 2:
            d = I.ev(argn[1], fr, st)
            if isinstance(d, Loc):
                st.m[d.path] = Mat(num(2), NGP, lambda i, j: mk("app", "forcing", d.path, i, j))
            return ZERO
        return NotImplemented
    r = Run(P, f, ["t", "elt"], ctx=ctx, hook=hook)
    if r.st is None:
        raise Undecided("the source is never complete")
    inn = r.args[1].data.internal
    man = r.args[1].data.source.manning.p
    off = {mk("glob", "SWE::SourceTerms::" + k): FALSE for k in SWITCHES}
    off[man] = FALSE
    for k in SWITCHES:
        on = dict(off)
        on[mk("glob", "SWE::SourceTerms::" + k)] = TRUE
        acts = [v for v in (1, 2) if not same_value(t.subst(r[inn.source_at_gp(v, G)], off), t.subst(r[inn.source_at_gp(v, G)], on))]
        ctx.ob("enabled", k, len(acts) == 2, f.where(), "switching on %s changes %s of the two momentum equations" % (k.replace("_", " "), len(acts) or "none"))


# ---------------------------------------------------------------- the order in which a run is prepared
STEPS = ("read the settings", "set the parameters", "read the mesh", "read the boundary data", "read the neighbours", "project the mesh", "make the mesh", "open the communication")


def leads(P, g, names):
    """the function g can do one of the steps itself"""
    key = (id(P), id(g))
    if key not in LEADS:
        LEADS[key] = any(last(h.name) in names for h in P.closure(g))
    return LEADS[key]


LEADS = {}


def prepared(ctx, P, f, lab, dist):
    W = f.where()
    seen = []
    num_ = {"initialize_problem_parameters": 1, "read_mesh": 2, "read_bcis": 3, "read_dbmd": 4, "preprocess_mesh_data": 5, "InitializeCommunication": 7}

    def hook(I, e, fr, st, name, fn, obj, this, argn):
        n = last(name)
        if n == "InputParameters" and e[0] == "ctor":
            seen.append(0)
            return NotImplemented
        k = num_.get(n)
        if n == "initialize" and "Discretization" in name:
            k = 6
        if n == "initialize_problem_parameters" and "::Problem::" not in name:
            k = None
        if k is not None:
            seen.append(k)
            return ZERO
        return NotImplemented
    r = Run(P, f, ["input_string", "locality_id", "submesh_id"][:len(f.params)], this=mk("this"), ctx=ctx, hook=hook, decide=lambda c: False, opaque=lambda nm, g: not leads(P, g, num_))
    if r.st is None:
        raise Undecided("the preparation never ends")
    want = [1, 2, 3] + ([4] if dist else []) + [5, 6] + ([7] if dist else [])
    for k in want:
        ctx.ob("prepared", "%s %s" % (lab, STEPS[k]), seen.count(k) == 1, W, "%s happens %d times" % (STEPS[k], seen.count(k)))
    before = [(1, 5), (2, 5), (2, 3), (3, 6), (5, 6)] + ([(4, 6), (6, 7), (2, 4)] if dist else [])
    for a, b in before:
        if seen.count(a) == 1 and seen.count(b) == 1:
            ctx.ob("prepared", "%s %s before: %s" % (lab, STEPS[a], STEPS[b]), seen.index(a) < seen.index(b), W, "%s only after: %s" % (STEPS[a], STEPS[b]))


def run(ctx):
    ctx.rule("bottom", "cells and edges hold the bottom of their own place and its slope", 48)
    ctx.rule("factor", "the spherical projection factor is that of the point, everywhere", 44)
    ctx.rule("state", "the start state is the projection of the prescribed initial condition", 18)
    ctx.rule("friction", "the Manning factor of a cell is that of its nodes in the file", 8)
    ctx.rule("rotation", "the Coriolis parameter is that of the cell's latitude", 2)
    ctx.rule("projection", "a mesh in longitude and latitude is projected with the radius and reference given", 24)
    ctx.rule("wind", "wind and pressure are interpolated in time between the two records around the stage", 120)
    ctx.rule("enabled", "every forcing the input switches on acts on both momentum equations", 5)
    ctx.rule("prepared", "a run reads, projects and builds its data once each and in an order in which every step has its input", 50)
    P = ctx.prog("serial", "swein")
    E = enumerators(P)
    n = 0
    for f in P.find("SWE::get_source"):
        n += 1
        lab = "GN" if "GN::" in f.psig else "SWE %s" % n
        ctx.guard("enabled", lab, f.where(), lambda: enabled(ctx, P, f, lab), 100)
    seen = {}
    for f in P.find("SWE::initialize_data_serial"):
        k = "GN" if "GN::Inputs" in f.psig else "SWE"
        seen[k] = seen.get(k, 0) + 1
        lab = k if k == "GN" else "%s %d" % (k, seen[k])
        ctx.guard("bottom", lab, f.where(), lambda: begin(ctx, P, f, E, lab), 300)
    for f in P.find("SWE::preprocess_mesh_data"):
        lab = "GN" if "GN::Inputs" in f.psig else "SWE"
        ctx.guard("projection", lab, f.where(), lambda: project(ctx, P, f, E, lab), 100)
    for f in P.find("SWE::Parser::ParseInput"):
        gn = "GN::Data" in str(f.d.get("targs"))
        im = "ImplicitStepper" in f.psig
        lab = "GN" if gn else "implicit" if im else "explicit"
        ctx.guard("wind", lab, f.where(), lambda: driven(ctx, P, f, lab, "split" if gn else "implicit" if im else "steps", E, "GN::Inputs" if gn else "SWE::Inputs"), 200)
    Q = ctx.prog("ompi")
    for prog, rx, dist in ((P, r"^Serial::Simulation::Simulation$", False), (Q, r"^OMPISimulationUnit::OMPISimulationUnit$", True)):
        k = 0
        for f in prog.find_re(rx):
            if len(f.params) != (3 if dist else 1) or "string" not in f.psig:
                continue
            k += 1
            lab = "%s %d" % ("sub-domain" if dist else "serial", k)
            ctx.guard("prepared", lab, f.where(), lambda: prepared(ctx, prog, f, lab, dist), 100)
