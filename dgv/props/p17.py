"""P17: what the input asks for is what is simulated: every entry of the input file reaches the setting it is meant for, an
incomplete file is refused, a rewritten file means the same, and the boundary data belong to the nodes they are given for."""
import os
from fractions import Fraction

from .. import terms as t, streams as io
from ..spec import *
from ..interp import TRUE, FALSE, Loc, Struct, fld, strip

from ..maps import Maps
from ..yamlm import Yaml, Leaf, S as Str, NULL, find, known
from .p19 import one, functions, truth, exact, last, Text

R = range
THIS = mk("this")


def D(n):
    return Leaf("double", mk("param", 70, n))


def U(n):
    return Leaf("uint", mk("param", 71, n))


def N(x):
    return Leaf("double", t.num(x))


def at(path, root=THIS):
    for k in path.split("."):
        root = fld(root, k)
    return root


# ---------------------------------------------------------------- the inputs
def base(name):
    return {
        "polynomial_order": U("degree"),
        "mesh": {"format": Str("Meta"), "file_name": Str("dir.x/mesh.14"), "coordinate_system": Str("polar")},
        "timestepping": {"start_time": Str("01-02-2020 03:04:05"), "end_time": Str("05-03-2020 01:02:03"), "dt": D("dt"), "order": U("order"), "nstages": U("stages")},
        "problem": {"name": Str(name)},
    }


def full(name):
    d = base(name)
    d["timestepping"]["ramp_duration"] = D("ramp")
    d["problem"].update({
        "gravity": D("g"), "density_air": D("air"), "density_water": D("water"),
        "spherical_projection": {"longitude_o": D("lon"), "latitude_o": D("lat"), "R": D("radius")},
        "initial_conditions": {"type": Str("Constant"), "initial_surface_height": D("ze0"), "initial_momentum_x": D("qx0"), "initial_momentum_y": D("qy0")},
        "function_source": Str("Enable"),
        "bottom_friction": {"type": Str("Manning"), "coefficient": N(Fraction(1, 40)), "input_file": Str("man.15")},
        "meteo_forcing": {"type": Str("owi"), "raw_input_file": Str("raw.22"), "input_file": Str("met.22"), "frequency": D("fmet")},
        "tide_potential": {"type": Str("Test")},
        "coriolis": Str("Enable"),
        "wetting_drying": {"h_o": D("ho")},
        "slope_limiting": {"type": Str("Cockburn-Shu"), "M": D("M"), "nu": D("nu")},
    })
    d["output"] = {"path": Str("out"), "logfile": {"name": Str("log.txt"), "verbose": Leaf("bool", mk("param", 72, "verbose"))},
                   "vtk": {"frequency": D("fvtk")}, "vtu": {"frequency": D("fvtu")}, "modal": {"frequency": D("fmodal")}}
    d["load_balancer"] = {"name": Str("rand"), "rebalance_frequency": D("frb")}
    return d


def other(name):
    d = base(name)
    d["mesh"] = {"format": Str("Adcirc"), "file_name": Str("fort.14"), "coordinate_system": Str("cartesian")}
    d["timestepping"].update({"start_time": Str("28-02-2019 00:00:00"), "end_time": Str("01-03-2019 00:00:30")})
    d["problem"].update({"initial_conditions": {"type": Str("Function")}, "bottom_friction": {"type": Str("Chezy"), "coefficient": N(Fraction(1, 300))},
                         "gravity": D("g"), "wetting_drying": {"h_o": D("ho")}})
    d["output"] = {"path": Str("a/b/"), "vtu": {"frequency": D("fvtu")}}
    return d


def least(name):
    d = base(name)
    d["mesh"]["coordinate_system"] = Str("spherical")
    d["output"] = {"path": Str("res"), "modal": {"frequency": D("fmodal")}, "logfile": {"name": Str("l"), "verbose": Leaf("bool", FALSE)}}
    return d


def bare(name):
    return base(name)


def only(sec):
    def make(name):
        d = base(name)
        d["problem"][sec] = full(name)["problem"][sec]
        return d
    return make


CONFIGS = (("everything", full), ("some", other), ("little", least), ("nothing optional", bare)) + tuple(
    ("only " + k, only(k)) for k in ("gravity", "density_air", "density_water", "spherical_projection", "initial_conditions", "function_source", "bottom_friction",
                                     "meteo_forcing", "tide_potential", "coriolis", "wetting_drying", "slope_limiting"))

# entry -> setting; the default of an entry that is left out
SETTINGS = [
    ("polynomial_order", "polynomial_order", None),
    ("mesh.format", "mesh_input.mesh_format", None),
    ("mesh.file_name", "mesh_input.mesh_file_name", None),
    ("timestepping.dt", "stepper_input.dt", None),
    ("timestepping.order", "stepper_input.order", None),
    ("timestepping.nstages", "stepper_input.nstages", None),
    ("timestepping.ramp_duration", "stepper_input.ramp_duration", ZERO),
    ("problem.name", "problem_input.name", None),
    ("problem.gravity", "problem_input.g", t.num(Fraction(981, 100))),
    ("problem.density_air", "problem_input.rho_air", t.num(Fraction(1225, 1000))),
    ("problem.density_water", "problem_input.rho_water", t.num(1000)),
    ("problem.spherical_projection.longitude_o", "problem_input.spherical_projection.longitude_o", None),
    ("problem.spherical_projection.latitude_o", "problem_input.spherical_projection.latitude_o", None),
    ("problem.spherical_projection.R", "problem_input.spherical_projection.R", None),
    ("problem.initial_conditions.initial_surface_height", "problem_input.initial_conditions.ze_initial", ZERO),
    ("problem.initial_conditions.initial_momentum_x", "problem_input.initial_conditions.qx_initial", ZERO),
    ("problem.initial_conditions.initial_momentum_y", "problem_input.initial_conditions.qy_initial", ZERO),
    ("problem.bottom_friction.coefficient", "problem_input.bottom_friction.coefficient", None),
    ("problem.bottom_friction.input_file", "problem_input.bottom_friction.manning_data_file", None),
    ("problem.meteo_forcing.type", "problem_input.meteo_forcing.meteo_data_type", None),
    ("problem.meteo_forcing.raw_input_file", "problem_input.meteo_forcing.raw_meteo_data_file", None),
    ("problem.meteo_forcing.input_file", "problem_input.meteo_forcing.meteo_data_file", None),
    ("problem.meteo_forcing.frequency", "problem_input.meteo_forcing.frequency", None),
    ("problem.wetting_drying.h_o", "problem_input.wet_dry.h_o", None),
    ("problem.slope_limiting.M", "problem_input.slope_limit.M", None),
    ("problem.slope_limiting.nu", "problem_input.slope_limit.nu", None),
    ("load_balancer.name", "load_balancer_input.name", None),
    ("load_balancer.rebalance_frequency", "load_balancer_input.rebalance_frequency", None),
    ("output.logfile.name", "writer_input.log_file_name", None),
    ("output.logfile.verbose", "writer_input.verbose_log_file", None),
    ("output.vtk.frequency", "writer_input.vtk_output_frequency", None),
    ("output.vtu.frequency", "writer_input.vtu_output_frequency", None),
    ("output.modal.frequency", "writer_input.modal_output_frequency", None),
]

# section -> switch, enumeration, off, {word: enumerator}
SWITCHES = [
    ("spherical_projection", "", "spherical_projection", "SphericalProjectionType", "None", {None: "Enable"}),
    ("initial_conditions", "type", "initial_conditions", "InitialConditionsType", "Default", {"Constant": "Constant", "Function": "Function"}),
    ("function_source", "", "function_source", "FunctionSourceType", "None", {None: "Enable"}),
    ("bottom_friction", "type", "bottom_friction", "BottomFrictionType", "None", {"Chezy": "Chezy", "Manning": "Manning"}),
    ("meteo_forcing", "", "meteo_forcing", "MeteoForcingType", "None", {None: "Enable"}),
    ("tide_potential", "type", "tide_potential", "TidePotentialType", "None", {"Test": "Test"}),
    ("coriolis", "", "coriolis", "CoriolisType", "None", {None: "Enable"}),
    ("wetting_drying", "", "wet_dry", "WettingDryingType", "None", {None: "Enable"}),
    ("slope_limiting", "type", "slope_limit", "SlopeLimitingType", "None", {"Cockburn-Shu": "CockburnShu"}),
]
BOOLS = [("output", "writer_input.writing_output"), ("output.logfile", "writer_input.writing_log_file"), ("output.vtk", "writer_input.writing_vtk_output"),
         ("output.vtu", "writer_input.writing_vtu_output"), ("output.modal", "writer_input.writing_modal_output"), ("load_balancer", "load_balancer_input.use_load_balancer")]
TIMES = {"01-02-2020 03:04:05": 1580526245, "05-03-2020 01:02:03": 1583370123, "28-02-2019 00:00:00": 1551312000, "01-03-2019 00:00:30": 1551398430}
NAMES = {"SWE::Inputs": "rkdg_swe", "GN::Inputs": "ehdg_gn"}


def enumerators(P):
    out = {}

    def see(tu, n):
        if isinstance(n, (list, tuple)):
            if len(n) > 4 and n[0] == "enum":
                ty = last(tu.types[n[2]].replace("const ", "").replace("enum ", ""))
                out.setdefault((ty, last(n[3])), int(n[4]))
            for x in n:
                see(tu, x)
    for f in functions(P):
        for n in P.nodes(f):
            if n[0] == "enum":
                see(f.tu, n)
    for tu in P.tus.values():
        for r in tu.recs.values():
            for name, ty, init, line in r["fields"]:
                see(tu, init)
    return out


def unknown(v):
    """a value the evaluation did not follow"""
    hit = []
    t.walk(v, lambda x: hit.append(x) if x.op in ("mapent", "local", "out", "call", "new", "read", "lc") or x.op == "app" and ("ctor:" in str(x.args[0]) or "::" in str(x.args[0])) else None)
    return bool(hit)


def files(I, e, fr, st, name, fn, obj, this, argn):
    """what else the reader of the input calls"""
    if last(name) == "file_exists":
        return TRUE
    if name.endswith("#<<") and len(argn) == 2 and io.isstream(fr, argn[0]) and "Emitter" not in fr.tu.types[argn[0][2]]:
        l = I.ev(argn[0], fr, st)
        if "fstream" in fr.tu.types[argn[0][2]] or "ofstream" in str(getattr(l, "ty", "")):
            v = I.rv(I.ev(argn[1], fr, st), st)
            st.events.append(Ev("ev", "#file", (I.tm(v, st),), fr.fn.file if fr.fn else "", e[1]))
        elif isinstance(l, Loc) and l.path.op == "local":
            v = I.rv(I.ev(argn[1], fr, st), st)
            st.events.append(Ev("ev", "#file", (I.tm(v, st),), fr.fn.file if fr.fn else "", e[1]))
        return l
    return NotImplemented


from ..interp import Ev   # noqa: E402  (the record of an event)


def ctor(P, cls, n):
    return one(P, "InputParameters::InputParameters", lambda f: f.d["cls"] == "InputParameters<%s>" % cls and len(f.params) == n)


def load(ctx, P, f, doc, args=()):
    """the settings after reading a file, None when it is refused"""
    Y = Yaml({"in.yml": doc}, files)
    st = State()
    write(st, mk("param", 0, "in"), mk("str", "in.yml"))
    for k, v in enumerate(args):
        write(st, mk("param", k + 1, "a%d" % k), num(v))
    r = Run(P, f, ["in"] + ["a%d" % k for k in R(len(args))], state=st, ctx=ctx, hook=Y, decide=truth)
    return r, Y


def without(doc, path):
    ks = path.split(".")
    d = dict(doc)
    if len(ks) == 1:
        d.pop(ks[0], None)
    else:
        d[ks[0]] = without(d[ks[0]], ".".join(ks[1:]))
    return d


def with_(doc, path, leaf):
    ks = path.split(".")
    d = dict(doc)
    d[ks[0]] = leaf if len(ks) == 1 else with_(d.get(ks[0], {}), ".".join(ks[1:]), leaf)
    return d


def has(doc, path):
    return find(doc, path.split(".")) is not None


def leaf(doc, path):
    v = find(doc, path.split("."))
    return v.term if isinstance(v, Leaf) else None


def text(v):
    s = known(v)
    return s if s is not None else str(v)


def get(r, path):
    return r[at(path)]


def settings(ctx, rule, inst, r, doc, E, where, names=None):
    """every setting against the document"""
    def same(what, path, want):
        try:
            got = get(r, path)
        except Undecided as x:
            ctx.ob(rule, "%s %s" % (inst, what), None, where, str(x))
            return
        if unknown(got):
            ctx.ob(rule, "%s %s" % (inst, what), None, where, "%s is %s" % (path, got))
            return
        if got in (TRUE, FALSE) or want in (TRUE, FALSE):
            ctx.ob(rule, "%s %s" % (inst, what), got == want, where, "%s is %s, not %s" % (path, got, want))
            return
        ws = known(want)
        if ws is not None:
            ctx.ob(rule, "%s %s" % (inst, what), known(got) == ws, where, "%s is %s, not %s" % (path, text(got), ws))
            return
        ctx.eq(rule, "%s %s" % (inst, what), got, want, where, path)
    for entry, path, default in SETTINGS:
        want = leaf(doc, entry)
        if entry == "mesh.file_name" and names:
            want = mk("str", names[0])
        if want is None:
            want = default
        if want is not None:
            same(entry, path, want)
    for entry, path in BOOLS:
        same("switch of " + entry, path, TRUE if has(doc, entry) else FALSE)
    for sec, key, m, ty, off, words in SWITCHES:
        if not has(doc, "problem." + sec):
            w = off
        else:
            w = words.get(leaf(doc, "problem.%s.%s" % (sec, key)).args[0] if key else None)
        if (ty, w) not in E:
            ctx.ob(rule, "%s switch of %s" % (inst, sec), None, where, "no enumerator %s" % w)
            continue
        same("switch of " + sec, "problem_input.%s.type" % m, num(E[(ty, w)]))
    fn = leaf(doc, "mesh.file_name").args[0]
    stem = fn[:fn.rfind(".")]
    same("name of the boundary file", "mesh_input.bc_is_file_name", mk("str", stem + ".bcis"))
    same("name of the cut file", "mesh_input.db_file_name", mk("str", names[1] if names else stem + ".dbmd"))
    same("coordinate system", "mesh_input.mesh_coordinate_sys", num(E[("CoordinateSystem", leaf(doc, "mesh.coordinate_system").args[0])]))
    a, b = [TIMES[leaf(doc, "timestepping." + k).args[0]] for k in ("start_time", "end_time")]
    same("run time", "stepper_input.run_time", num(b - a))
    if has(doc, "output"):
        p = leaf(doc, "output.path").args[0]
        same("output.path", "writer_input.output_path", mk("str", p if p.endswith("/") else p + "/"))
        for k in ("vtk", "vtu", "modal"):
            if has(doc, "output." + k):
                same("steps between two %s outputs" % k, "writer_input.%s_output_freq_step" % k,
                     t.app("toint", t.app("ceil", t.div(leaf(doc, "output.%s.frequency" % k), leaf(doc, "timestepping.dt")))))


def reading(ctx, P, cls, E, tag):
    f = ctor(P, cls, 1)
    for lab, make in CONFIGS:
        doc = make(NAMES[cls])
        r, Y = load(ctx, P, f, doc)
        inst = "%s %s" % (tag, lab)
        ctx.ob("read", inst, r.st is not None, f.where(), "a complete input is refused")
        if r.st is not None:
            settings(ctx, "read", inst, r, doc, E, f.where())
    for name in (("rkdg_swe", "ehdg_swe", "ihdg_swe") if cls == "SWE::Inputs" else ("ehdg_gn",)):
        doc = with_(full("?"), "problem.name", Str(name))
        r, Y = load(ctx, P, f, doc)
        ctx.ob("read", "%s problem %s" % (tag, name), r.st is not None, f.where(), "the problem %s is refused" % name)


def parts(ctx, P, cls, E):
    """the input of a sub-domain"""
    f = ctor(P, cls, 3)
    for lab, make in CONFIGS[:2]:
        doc = make(NAMES[cls])
        r, Y = load(ctx, P, f, doc, (3, 7))
        inst = "ompi %s sub-domain %s" % (cls.split(":")[0], lab)
        ctx.ob("read", inst, r.st is not None, f.where(), "a complete input is refused")
        if r.st is not None:
            fn = leaf(doc, "mesh.file_name").args[0]
            stem, ext = fn[:fn.rfind(".")], fn[fn.rfind("."):]
            settings(ctx, "read", inst, r, doc, E, f.where(), ("%s_3_7%s" % (stem, ext), stem + "_3_7.dbmd"))


def refusing(ctx, P, cls, tag):
    f = ctor(P, cls, 1)
    doc = full(NAMES[cls])
    need = ["polynomial_order", "mesh", "timestepping", "problem"]
    need += ["mesh.format", "mesh.file_name", "mesh.coordinate_system"]
    need += ["timestepping." + k for k in ("start_time", "end_time", "dt", "order", "nstages")]
    need += ["problem.name", "load_balancer.name", "load_balancer.rebalance_frequency", "output.path", "output.logfile.name", "output.logfile.verbose"]
    cases = [("without " + k, without(doc, k)) for k in need]
    cases += [("no frequency of " + k, with_(doc, "output." + k, NULL)) for k in ("vtk", "vtu", "modal")]
    cases += [("unknown mesh format", with_(doc, "mesh.format", Str("adcirc"))), ("unknown coordinate system", with_(doc, "mesh.coordinate_system", Str("round"))),
              ("unknown problem", with_(doc, "problem.name", Str("swe"))),
              ("problem of the other kind", with_(doc, "problem.name", Str(NAMES["GN::Inputs" if cls[0] == "S" else "SWE::Inputs"]))),
              ("negative Manning coefficient", with_(doc, "problem.bottom_friction.coefficient", N(Fraction(-1, 50)))),
              ("negative Chezy coefficient", with_(doc, "problem.bottom_friction", {"type": Str("Chezy"), "coefficient": N(Fraction(-1, 50))}))]
    for lab, d in cases:
        r, Y = load(ctx, P, f, d)
        ctx.ob("refused", "%s %s" % (tag, lab), r.st is None, f.where(), "the input is accepted %s" % lab if lab.startswith("without") else "an input is accepted with %s" % lab)


def leaving(ctx, P, cls, E, tag):
    """a section of the problem that is incomplete leaves its feature off and everything else alone"""
    f = ctor(P, cls, 1)
    doc = full(NAMES[cls])
    cases = []
    for sec, keys in (("spherical_projection", ("longitude_o", "latitude_o", "R")), ("initial_conditions", ("type", "initial_surface_height", "initial_momentum_x", "initial_momentum_y")),
                      ("bottom_friction", ("type", "coefficient", "input_file")), ("meteo_forcing", ("type", "raw_input_file", "input_file", "frequency")),
                      ("tide_potential", ("type",)), ("wetting_drying", ("h_o",)), ("slope_limiting", ("type", "M", "nu"))):
        for k in keys:
            d = without(doc, "problem.%s.%s" % (sec, k))
            if not d["problem"][sec]:
                d = with_(doc, "problem." + sec, NULL)
            cases.append(("%s without %s" % (sec, k), sec, d))
            if k == "type" and sec not in ("meteo_forcing",):
                cases.append(("%s of unknown type" % sec, sec, with_(doc, "problem.%s.type" % sec, Str("nonsense"))))
    for sec in ("function_source", "coriolis"):
        cases.append(("empty " + sec, sec, with_(doc, "problem." + sec, NULL)))
        cases.append(("%s of unknown type" % sec, sec, with_(doc, "problem." + sec, Str("Off"))))
    for lab, sec, d in cases:
        r, Y = load(ctx, P, f, d)
        inst = "%s %s" % (tag, lab)
        if r.st is None:
            ctx.ob("left out", inst, False, f.where(), "the whole input is refused")
            continue
        settings(ctx, "left out", inst, r, without(d, "problem." + sec), E, f.where())


def emitted(ctx, Y, evs):
    """the document a sequence of emitter calls is"""
    flat = []

    def go(es):
        for e in es:
            if e.kind == "ev" and e.name in ("#emit", "#file"):
                flat.append(e)
            elif e.kids:
                for k in e.kids:
                    go(k if isinstance(k, (list, tuple)) else [k])
    go(evs)
    doc, state, key, wrote, closed = {}, None, None, False, False
    head = ""
    for e in flat:
        if e.name == "#file":
            v = e.args[0]
            s = known(v)
            if s is not None:
                head += s
                continue
            if v.op == "app" and v.args[0] == "emitted":
                if wrote or not closed:
                    return None, e, "the document is written %s" % ("twice" if wrote else "before it is complete")
                if head and not all(l.startswith("#") or not l.strip() for l in head.split("\n")):
                    return None, e, "the document follows text that is no comment"
                if head and not head.endswith("\n"):
                    return None, e, "the document starts within a comment"
                wrote = True
                continue
            return None, e, "%s is written" % v
        v = e.args[1]
        if v.op == "app" and v.args[0] == "manip":
            m = v.args[1].args[0]
            if m == "BeginMap":
                if state is not None:
                    raise Undecided("maps in maps")
                state = "map"
            elif m == "EndMap":
                if state != "map":
                    return None, e, "the map ends with a key"
                closed = True
            elif m == "Key":
                state = "key"
            elif m == "Value":
                if state != "val":
                    return None, e, "a value has no key"
            continue
        if state == "key":
            key = known(v.args[1]) if v.op == "yval" else None
            if key is None:
                raise Undecided("a key that is not known")
            if key in doc:
                return None, e, "%s is written twice" % key
            state = "val"
        elif state == "val":
            doc[key] = Y.trees[v] if v.op == "ytree" else Leaf(v.args[0], v.args[1])
            state = "map"
        else:
            return None, e, "a value has no place"
    if not wrote:
        return None, flat[-1] if flat else None, "the document does not reach the file"
    if head is None:
        return None, None, ""
    return doc, None, ""


def differ(a, b, path=""):
    """where two documents say different things"""
    if a is None or b is None:
        return None if a is b else path
    if isinstance(a, dict) != isinstance(b, dict):
        return path
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            x = differ(a.get(k), b.get(k), path + "." + k if path else k)
            if x:
                return x
        return None
    if a.term is None or b.term is None:
        return None if a.term is b.term else path
    if known(a.term) is not None or known(b.term) is not None:
        return None if known(a.term) == known(b.term) else path
    return None if a.term == b.term else path


def rewriting(ctx, P, cls, E):
    """what the preparation step writes back means the same"""
    f1 = one(P, "InputParameters::InputParameters", lambda f: "YamlNodeWrapper" in f.d["cls"] and len(f.params) == 1)
    w = one(P, "InputParameters::write_to", lambda f: "YamlNodeWrapper" in f.d["cls"])
    for lab, make in CONFIGS:
        doc = make(NAMES[cls])
        inst = "%s %s" % (cls.split(":")[0], lab)
        r, Y = load(ctx, P, f1, doc)
        ctx.ob("again", inst + " read", r.st is not None, f1.where(), "a complete input is refused")
        if r.st is None:
            continue
        r.st.events = []
        r2 = Run(P, w, ["out"], state=r.st, ctx=ctx, hook=Y, decide=truth)
        if r2.st is None:
            ctx.ob("again", inst + " written", False, w.where(), "it cannot be written")
            continue
        got, e, msg = emitted(ctx, Y, r2.st.events)
        ctx.ob("again", inst + " written", got is not None, e.where() if e is not None else w.where(), msg)
        if got is None:
            continue
        want = {k: dict(v) if isinstance(v, dict) else v for k, v in doc.items()}
        want["timestepping"].setdefault("ramp_duration", Leaf("double", ZERO))
        if "output" in want:
            p = want["output"]["path"].term.args[0]
            want["output"]["path"] = Str(p if p.endswith("/") else p + "/")
        for k in sorted(set(want) | set(got)):
            x = differ(want.get(k), got.get(k), k)
            ctx.ob("again", "%s %s" % (inst, k), x is None, w.where(), "%s is not what was read: %s, not %s" % (x, find(got, (x or "").split(".")), find(want, (x or "").split("."))))


def problem_again(ctx, P, PS, cls, E):
    """the physical settings as a document"""
    f = ctor(P, cls, 1)
    a = one(PS, "SWE::Inputs::as_yaml_node")
    for lab, make in CONFIGS:
        doc = make(NAMES[cls])
        r, Y = load(ctx, P, f, doc)
        if r.st is None:
            continue
        inst = "%s %s problem" % (cls.split(":")[0], lab)
        r2 = Run(PS, a, [], this=fld(THIS, "problem_input"), state=r.st, ctx=ctx, hook=Y, decide=truth)
        if r2.st is None:
            ctx.ob("again", inst, False, a.where(), "it cannot be written")
            continue
        p = Y.node(r2.I, r2.ret, r2.st)
        tree = Y.tree(r2.st, p)
        d2 = dict(doc)
        d2["problem"] = tree
        r3, _ = load(ctx, P, f, d2)
        ctx.ob("again", inst, r3.st is not None, a.where(), "what is written is not accepted again")
        if r3.st is not None:
            settings(ctx, "again", inst, r3, doc, E, a.where())


# ---------------------------------------------------------------- use
def using(ctx, P, E, tag):
    """the switches and constants of the computation"""
    for f in P.find("SWE::RKDG::Problem::initialize_problem_parameters") + P.find("SWE::EHDG::Problem::initialize_problem_parameters") + \
            P.find("SWE::IHDG::Problem::initialize_problem_parameters") + P.find("GN::EHDG::Problem::initialize_problem_parameters"):
        cls = "GN::Inputs" if f.d["cls"].startswith("GN") else "SWE::Inputs"
        ct = ctor(P, cls, 1)
        for lab, make in CONFIGS:
            doc = make(NAMES[cls])
            r, Y = load(ctx, P, ct, doc)
            if r.st is None:
                continue
            inst = "%s %s %s" % (tag, f.d["cls"], lab)
            r2 = Run(P, f, args=[Loc(at("problem_input"), cls)], state=r.st, ctx=ctx, hook=Y, decide=truth)
            if r2.st is None:
                ctx.ob("used", inst, False, f.where(), "the input is refused")
                continue

            def same(what, name, want):
                got = r2[mk("glob", name)]
                if want is None:
                    return
                if want in (TRUE, FALSE):
                    ok = got == want or want is FALSE and got.op == "glob"
                    ctx.ob("used", "%s %s" % (inst, what), ok, f.where(), "%s is %s, not %s" % (name, got, want))
                else:
                    ctx.eq("used", "%s %s" % (inst, what), got, want, f.where(), name)
            pr = doc["problem"]
            for ns in ("SWE", "GN")[:1 if cls[0] == "S" else 2]:
                for k, g, d in (("gravity", "g", Fraction(981, 100)), ("density_air", "rho_air", Fraction(1225, 1000)), ("density_water", "rho_water", 1000)):
                    same("%s of %s" % (k, ns), "%s::Global::%s" % (ns, g), pr[k].term if k in pr else t.num(d))
            for sec, g in (("function_source",) * 2, ("bottom_friction",) * 2, ("meteo_forcing",) * 2, ("tide_potential",) * 2, ("coriolis",) * 2):
                same(sec, "SWE::SourceTerms::" + g, TRUE if sec in pr else FALSE)
            if "bottom_friction" in pr:
                same("friction coefficient", "SWE::SourceTerms::Cf", pr["bottom_friction"]["coefficient"].term)
            same("wetting and drying", "SWE::PostProcessing::wetting_drying", TRUE if "wetting_drying" in pr else FALSE)
            if "wetting_drying" in pr:
                same("least depth", "SWE::PostProcessing::h_o", pr["wetting_drying"]["h_o"].term)
            same("slope limiting", "SWE::PostProcessing::slope_limiting", TRUE if "slope_limiting" in pr else FALSE)
            if "slope_limiting" in pr:
                same("slope limiter M", "SWE::PostProcessing::M", pr["slope_limiting"]["M"].term)
                same("slope limiter nu", "SWE::PostProcessing::nu", pr["slope_limiting"]["nu"].term)


# ---------------------------------------------------------------- boundary data
def nodes_of(kind, data):
    """text of a tide or flow boundary"""
    out = ["%d %d" % (kind, len(data[0][1]))]
    out.append("%d" % len(data))
    for con, nodes in data:
        out.append(" ".join(str(x) for x in con))
        for n in nodes:
            out.append(" ".join(str(x) for x in n))
    return out


def cons(k0, ids, n):
    """constituents with numbers of their own"""
    out = []
    c = k0
    for k in R(n):
        con = (c + 1, c + 2, c + 3)
        c += 3
        ns = []
        for i in ids:
            ns.append((i, c + 1, c + 2))
            c += 2
        out.append((con, ns))
    return out


def boundary(ctx, P, E):
    f = one(P, "SWE::Inputs::read_bcis")
    tide, flow, levee, land = E[("BoundaryTypes", "tide")], E[("BoundaryTypes", "flow")], E[("BoundaryTypes", "levee")], E.get(("BoundaryTypes", "land"), 0)
    T1, T2 = cons(100, (5, 3, 8), 2), cons(200, (8, 9), 1)
    F1, F2 = cons(300, (11, 2), 3), cons(400, (4, 6, 7), 1)
    L = [(20, 30, 501, 502, 503), (31, 21, 504, 505, 506), (22, 32, 507, 508, 509)]
    lines = nodes_of(tide, T1) + nodes_of(flow, F1) + ["%d %d" % (levee, len(L))] + [" ".join(str(x) for x in l) for l in L] + nodes_of(tide, T2) + nodes_of(flow, F2)
    for lab, tx, tides, flows, levees in (
            ("all kinds", lines, (T1, T2), (F1, F2), L),
            ("only a tide", nodes_of(tide, T2), (T2,), (), []),
            ("only a levee", ["%d %d" % (levee, 1), " ".join(str(x) for x in L[1])], (), (), L[1:2]),
            ("nothing", [], (), (), [])):
        txt = Text("\n".join(tx) + ("\n" if tx else ""))

        maps = Maps(lambda p: True, exact)

        def more(I, e, fr, st, name, fn, obj, this, argn):
            n = last(name)
            before = maps.n
            r = maps.hook(I, e, fr, st, name, fn, obj, this, argn)
            if r is not NotImplemented:
                if maps.n > before and isinstance(r, Loc) and "Node" in r.ty:
                    I.record_defaults(fr, st, r.path, strip(r.ty))
                    for x in ("frequency", "forcing_fact", "equilib_arg", "amplitude", "phase"):
                        write(st, fld(fld(r.path, x), "#size"), ZERO)
                return r
            if name.endswith("#>>") and len(argn) == 2 and io.isstream(fr, argn[0]):
                left = I.ev(argn[0], fr, st)
                lv = I.ev(argn[1], fr, st)
                sp = io.spath(I, left, st)
                w = txt.token(st, sp)
                if not w:
                    write(st, fld(sp, "#fail"), num(1))
                    return left
                write(st, lv.path, num(int(w)))
                return left
            if n == "getline" and len(argn) == 2:
                s, l = I.ev(argn[0], fr, st), I.ev(argn[1], fr, st)
                w = txt.line(st, s.path)
                if w is None:
                    return FALSE
                write(st, l.path, mk("str", w))
                return TRUE
            if n == "operator bool" and obj in (TRUE, FALSE):
                return obj
            if n == "operator bool" and this is not None and "ios" in name:
                return FALSE if read(st, fld(this, "#fail")) == num(1) else TRUE
            if n in ("file_exists", "is_open", "good"):
                return TRUE
            return NotImplemented
        st = State()
        for m in ("tide_bc_data", "flow_bc_data"):
            write(st, fld(fld(THIS, m), "#size"), ZERO)
        r = Run(P, f, ["file"], state=st, ctx=ctx, hook=io.hook(more), decide=truth, unroll=60)
        if r.st is None:
            ctx.ob("boundary data", lab, False, f.where(), "a complete file is refused")
            continue
        for what, data, field, nf in (("tide", tides, "tide_bc_data", "tide_nodes"), ("flow", flows, "flow_bc_data", "flow_nodes")):
            n = exact(r[fld(fld(THIS, field), "#size")])
            ctx.ob("boundary data", "%s: %s boundaries" % (lab, what), n == len(data), f.where(), "there are %s, not %d" % (n, len(data)))
            if n != len(data):
                continue
            for b, cs in enumerate(data):
                mp = fld(at1(fld(THIS, field), num(b)), nf)
                for i in sorted(set(x[0] for x in cs[0][1])):
                    p = maps.get(r.st, mp, i)
                    ctx.ob("boundary data", "%s: %s boundary %d node %d" % (lab, what, b, i), p is not None, f.where(), "there are no data for the node")
                    if p is None:
                        continue
                    p = fld(p, "second")
                    for fldn, pick in (("frequency", lambda c: c[0][0]), ("forcing_fact", lambda c: c[0][1]), ("equilib_arg", lambda c: c[0][2]),
                                       ("amplitude", lambda c: [x for x in c[1] if x[0] == i][0][1]), ("phase", lambda c: [x for x in c[1] if x[0] == i][0][2])):
                        want = [pick(c) for c in cs]
                        m = exact(r[fld(fld(p, fldn), "#size")])
                        got = [exact(r[at1(fld(p, fldn), num(k))]) for k in R(m or 0)]
                        ctx.ob("boundary data", "%s: %s boundary %d node %d %s" % (lab, what, b, i, fldn), got == want, f.where(), "%s is %s, not %s" % (fldn, got, want))
        ks = [k for k, _ in maps.keys(r.st, fld(THIS, "levee_is_data"))]
        ctx.ob("boundary data", "%s: levees" % lab, ks == sorted((x[0], x[1]) for x in levees), f.where(), "there are levees at %s" % ks)
        for a, b, h, c1, c2 in levees:
            p = maps.get(r.st, fld(THIS, "levee_is_data"), (a, b))
            for fldn, want in (("H_barrier", h), ("C_subcritical", c1), ("C_supercritical", c2)):
                got = exact(r[fld(fld(p, "second"), fldn)]) if p is not None else None
                ctx.ob("boundary data", "%s: levee %d-%d %s" % (lab, a, b, fldn), got == want, f.where(), "%s is %s, not %s" % (fldn, got, want))


def opening(ctx, P, cls, tag):
    """the files that are opened are the files that are named"""
    for fmt in ("Adcirc", "Meta"):
        f = one(P, "InputParameters::read_mesh", lambda f: f.d["cls"] == "InputParameters<%s>" % cls)
        st = State()
        write(st, at("mesh_input.mesh_format"), mk("str", fmt))
        for k in ("mesh_file_name", "bc_is_file_name", "db_file_name"):
            write(st, at("mesh_input." + k), mk("str", k))
        made = lambda n: n in ("AdcircFormat::AdcircFormat", "MeshMetaData::MeshMetaData")
        r = Run(P, f, [], state=st, ctx=ctx, hook=Yaml({}, files), decide=truth, event=made, opaque=lambda n, fn: made(n))
        evs = [e for e in (r.st.events if r.st is not None else []) if e.kind == "ev" and made(e.name)]
        inst = "%s mesh in format %s" % (tag, fmt)
        names = [last(e.name) for e in evs]
        want = ["AdcircFormat", "MeshMetaData"] if fmt == "Adcirc" else ["MeshMetaData"]
        ctx.ob("opened", inst, names == want, f.where(), "the mesh is read by %s" % names)
        if names == want:
            a = known(evs[0].args[1])
            ctx.ob("opened", inst + " name", a == "mesh_file_name", f.where(), "the mesh is read from %s" % a)
            if fmt == "Adcirc":
                ctx.ob("opened", inst + " mesh", str(evs[0].args[0]) in str(evs[1].args[1]) or "AdcircFormat" in str(evs[1].args[1]), f.where(), "the mesh is not the one in the file")
    for fn, callee, k, m in (("read_bcis", "read_bcis", "bc_is_file_name", "SWE::Inputs"),):
        f = one(P, "InputParameters::" + fn, lambda f: f.d["cls"] == "InputParameters<%s>" % cls)
        st = State()
        for x in ("mesh_file_name", "bc_is_file_name", "db_file_name"):
            write(st, at("mesh_input." + x), mk("str", x))
        on = lambda n: last(n) == callee and "InputParameters" not in n
        r = Run(P, f, [], state=st, ctx=ctx, decide=truth, event=on, opaque=lambda n, fn: on(n))
        evs = [e for e in (r.st.events if r.st is not None else []) if e.kind == "ev" and on(e.name)]
        ok = len(evs) == 1 and evs[0].args[0] == at("problem_input") and known(read(r.st, evs[0].args[1])) == k
        ctx.ob("opened", "%s %s" % (tag, fn), ok, f.where(), "the boundary data are read by %s" % [[str(a) for a in e.args] for e in evs])


def run(ctx):
    ctx.rule("read", "every entry reaches the setting it is meant for, entries that are left out have their defaults", 300)
    ctx.rule("refused", "an input that lacks a required entry or asks for something unknown is refused", 20)
    ctx.rule("left out", "an incomplete section leaves its feature off and everything else as asked", 300)
    ctx.rule("again", "what is written back means the same when it is read again", 100)
    ctx.rule("used", "the settings become the switches and constants of the computation", 50)
    ctx.rule("boundary data", "every node gets the boundary data given for it, in the order given", 50)
    ctx.rule("opened", "the mesh and the boundary data are read from the files named, in the format named", 6)
    PP = P = PO = ctx.prog("inputs", "swein")
    E = enumerators(P)
    for cls in sorted(NAMES):
        w = ctor(P, cls, 1).where()
        tag = cls.split(":")[0]
        ctx.guard("read", tag, w, lambda: reading(ctx, P, cls, E, tag), 200)
        ctx.guard("opened", tag, w, lambda: opening(ctx, P, cls, tag), 100)
        ctx.guard("refused", tag, w, lambda: refusing(ctx, P, cls, tag), 200)
        ctx.guard("left out", tag, w, lambda: leaving(ctx, P, cls, E, tag), 300)
        ctx.guard("again", tag + " problem", w, lambda: problem_again(ctx, P, P, cls, E), 200)
        ctx.guard("read", tag + " sub-domain", w, lambda: parts(ctx, PO, cls, E), 200)
        ctx.guard("again", tag, w, lambda: rewriting(ctx, PP, cls, E), 200)
    for tag in ("serial", "ompi"):
        if tag in os.environ.get("DGV_SKIP", ""):       # for experiments
            continue
        Q = ctx.prog(tag, "swein")
        ctx.guard("used", tag, "", lambda: using(ctx, Q, E, tag), 200)
    ctx.guard("boundary data", "file", "", lambda: boundary(ctx, P, E), 200)
