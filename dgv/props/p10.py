"""P10: the communicator delivers every message to the neighbour it is meant for."""
from .. import terms as t, sched, events as E
from ..effects import last
from ..spec import Run, X, q, num, fld, read, mk, write, State, at1
from ..interp import Loc, Mat, Undecided
from ..evalt import Ev, NoEval
from .p09 import DRIVERS, names, who


def run(ctx):
    ctx.rule("tags", "a message is sent with the tag and to the rank under which the neighbour receives it, and no two pairs of sub-domains of two ranks share a tag", 3)
    ctx.rule("mirror", "the two sides of a rank boundary read mirrored sub-domains and list their common faces in one order", 4)
    ctx.rule("bind", "the standing requests of every rank boundary and exchange cover the whole buffer, the right neighbour and a slot of their own", 8)
    ctx.rule("start", "each phase starts or completes all requests of its kind and exchange", 4)
    ctx.rule("sized", "buffers have their final size before requests are bound to them and are never resized afterwards", 4)
    ctx.rule("order", "the messages of different exchanges between two sub-domains are received in the order in which they are sent", 7)
    ctx.rule("thread", "several threads communicate only if the message library supports it", 1)
    ctx.rule("empty", "a sub-domain without neighbours and a rank without sub-domains are handled", 6)
    C = ctx.prog("comm")
    comm(ctx, C)
    M = ctx.prog("meta")
    for fn in M.find_re(r"DistributedBoundaryMetaData::DistributedBoundaryMetaData$"):
        if len(fn.params) == 3:
            ctx.guard("mirror", "reader", fn.where(), lambda: mirror(ctx, M, fn), 60)
    m = ctx.prog("ompi_main")
    for fn in m.find_re(r"^main$"):
        ctx.guard("thread", "start-up", fn.where(), lambda: thread(ctx, m, fn), 60)
    P = ctx.prog("ompi", "stepper")
    S = sched.Sched(ctx, P)
    for fn in P.find_re(DRIVERS):
        ctx.guard("order", who(fn), fn.where(), lambda: order(ctx, S, fn), 120)
    k = 0
    for fn in P.find_re(r"OMPISimulationUnit::OMPISimulationUnit$"):
        if len(fn.params) == 3 and fn.body is not None:
            k += 1
            ctx.guard("sized", "sub-domain, problem %d" % k, fn.where(), lambda: sized(ctx, P, fn, "sub-domain, problem %d" % k), 60)
    ctx.guard("sized", "later", "", lambda: later(ctx, P), 60)
    ctx.guard("empty", "rank", "", lambda: emptyrank(ctx, P), 120)


# ------------------------------------------------------------------ communicator
def comm(ctx, C):
    for fn in C.find_re(r"OMPICommunicator::OMPICommunicator$"):
        if len(fn.params) == 1 and "DistributedBoundaryMetaData" in fn.psig:
            ctx.guard("tags", "constructor", fn.where(), lambda: tags(ctx, C, fn), 60)
    init = None
    for fn in C.find_re(r"OMPICommunicator::InitializeCommunication$"):
        init = fn
        ctx.guard("bind", "requests", fn.where(), lambda: bind(ctx, C, fn), 60)
    for n, kind, act in (("SendAll", "send", "MPI_Startall"), ("ReceiveAll", "receive", "MPI_Startall"),
                         ("WaitAllSends", "send", "MPI_Waitall"), ("WaitAllReceives", "receive", "MPI_Waitall")):
        for fn in C.find_re(r"OMPICommunicator::%s$" % n):
            ctx.guard("start", n, fn.where(), lambda: phase(ctx, C, fn, n, kind, act, init), 60)


def tags(ctx, C, fn):
    r = Run(C, fn, ["db_data"], ctx=ctx)
    k = q("k")
    n = read(r.st, fld(r.this.rank_boundaries.p, "#size"))
    src = r.args[0].rank_boundary_data
    ctx.ob("tags", "one per rank boundary", n is fld(src.p, "#size"), fn.where(), "%s communicators for %s rank boundaries" % (n, fld(src.p, "#size")))
    v = {f: r[getattr(r.this.rank_boundaries[k], f)] for f in ("send_tag", "receive_tag", "send_rank", "receive_rank")}
    iu = None
    def leaf(x):
        return {y for y in t.subterms(x) if y.op == "fld" and y.args[1] in ("locality_ex", "locality_in", "submesh_in", "submesh_ex")}
    at = set()
    for x in v.values():
        at |= leaf(x)
    e = {}
    for y in at:
        e.setdefault(y.args[1], set()).add(y)
    def val(x, li, le, si, se):
        m = {"locality_in": li, "locality_ex": le, "submesh_in": si, "submesh_ex": se}
        return Ev(1, fixed={y: m[y.args[1]] for y in at}).ev(x, {})
    bad = ""
    for li, le in ((0, 1), (1, 0), (5, 2), (3, 3)):
        for f in ("send_rank", "receive_rank"):
            if val(v[f], li, le, 1, 2) != le and not bad:
                bad = "%s is %s on rank %d for a neighbour on rank %d" % (f, val(v[f], li, le, 1, 2), li, le)
    ctx.ob("tags", "rank", not bad, fn.where(), bad)
    bad = ""
    seen = {}
    N = 256
    for a in range(N):
        for b in range(N):
            s = val(v["send_tag"], 0, 1, a, b)
            o = val(v["receive_tag"], 1, 0, b, a)
            if s != o:
                bad = bad or "sub-domain %d sends to sub-domain %d with tag %s, which expects tag %s" % (a, b, s, o)
            if s in seen and not bad:
                bad = "messages from sub-domain %d to %d and from %d to %d of the same two ranks have tag %s" % (seen[s] + (a, b, s))
            if s < 0 or (a < 128 and b < 128 and s > 32767):
                bad = bad or "tag %s is outside the range every message library supports" % s
            seen[s] = (a, b)
        if bad:
            break
    ctx.ob("tags", "tag", not bad, fn.where(), bad)
    ctx.count("tag pairs", N * N)


def conds_allow(o, fixed):
    """are all conditions of an occurrence true under the assignment? (None unknown)"""
    out = True
    for c, side in o.conds:
        try:
            if bool(Ev(1, fixed=fixed).ev(c, {})) != side:
                return False
        except NoEval:
            out = None
    return out


def bind(ctx, C, fn):
    r, evs = E.tree(ctx, C, fn, event=lambda n: n.startswith("MPI_"))
    oc = E.occs(evs)
    rb = fld(r.this.p, "rank_boundaries")
    nrb = fld(rb, "#size")
    for kind, api, buf, rank, tag, req in (("send", "MPI_Send_init", "send_buffer", "send_rank", "send_tag", "send_requests"),
                                           ("receive", "MPI_Recv_init", "receive_buffer", "receive_rank", "receive_tag", "receive_requests")):
        os = [o for o in oc if o.name == api]
        if len(os) != 1:
            ctx.ob("bind", kind + " request", None if os else False, fn.where(), "%d bindings of %s requests" % (len(os), kind))
            continue
        o = os[0]
        W = o.where()
        ls = [l for l in o.loops]
        his = [str(l.args[1]) for l in ls if len(l.args) > 1]
        b = o.args[0]
        # addr(rb[i].buf[c][0])
        ok = b.op == "addr" and b.args[0].op == "elem" and b.args[0].args[1] is num(0)
        full = b.args[0].args[0] if ok else None
        inner = full.args[0] if full is not None and full.op == "elem" else None
        ok = ok and inner is not None and inner.op == "fld" and inner.args[1] == buf and inner.args[0].op == "elem" and inner.args[0].args[0] is rb
        i, c = (inner.args[0].args[1], full.args[1]) if ok else (None, None)
        ctx.ob("bind", kind + " buffer", ok, W, "bound to %s" % b)
        if not ok:
            continue
        ctx.ob("bind", kind + " length", o.args[1] is fld(full, "#size") and "mpi_double" in str(o.args[2]).lower(), W, "length %s of %s" % (o.args[1], o.args[2]))
        me = at1(rb, i)
        ctx.ob("bind", kind + " partner", o.args[3] is fld(me, rank) and o.args[4] is fld(me, tag), W, "rank %s, tag %s" % (o.args[3], o.args[4]))
        want = mk("addr", at1(at1(fld(r.this.p, req), c), i))
        ctx.ob("bind", kind + " slot", o.args[6] is want, W, "request stored in %s" % o.args[6])
        # ranges
        def rng(v):
            for l in ls:
                if l.args and any(v is x for x in l.args) or str(v) in str(getattr(l, "var", "")):
                    return l
            return None
        loops_ok = len(ls) == 2 and all(str(l.args[0]) == "0" for l in ls) and his.count(str(nrb)) == 1
        other = [h for h in his if h != str(nrb)]
        loops_ok = loops_ok and len(other) == 1 and other[0].endswith("buffer.#size") and other[0].startswith(str(rb))
        un = conds_allow(o, {nrb: 2})
        ctx.ob("bind", kind + " range", bool(loops_ok) and un is not False, W, "bound for %s%s" % (his, "" if un is not False else ", not if there are two rank boundaries"))
        v = read(r.st, fld(at1(fld(r.this.p, req), q("c")), "#size"))
        try:
            got = Ev(1, fixed={nrb: 2}).ev(v, {}) if t.subterms(v) else v
            sv = [y for y in t.subterms(v) if y is nrb]
            ok = got == 2 and Ev(1, fixed={nrb: 3}).ev(v, {}) == 3
        except NoEval:
            ok = None
        ctx.ob("bind", kind + " table", ok, W, "%s requests for every rank boundary" % v)


def phase(ctx, C, fn, n, kind, act, init):
    r, evs = E.tree(ctx, C, fn, names=["comm_type", "timestamp"], event=lambda n: n.startswith("MPI_"))
    oc = [o for o in E.occs(evs) if o.name.startswith("MPI_")]
    tab = at1(fld(r.this.p, kind + "_requests"), r.args[0].p)
    nrb = fld(fld(r.this.p, "rank_boundaries"), "#size")
    bad = ""
    live = [o for o in oc if conds_allow(o, {nrb: 2, fld(tab, "#size"): 2}) is not False]
    if len(live) != 1 or live[0].loops:
        # one at a time in a loop is fine as well
        bad = "no single operation on all requests: %s" % [(o.name, str(o.args[0])) for o in oc]
        one = {"MPI_Startall": "MPI_Start", "MPI_Waitall": "MPI_Wait"}[act]
        if len(live) == 1 and live[0].name == one and len(live[0].loops) == 1:
            l = live[0].loops[0]
            ok = str(l.args[0]) == "0" and str(l.args[1]) in (str(nrb), str(fld(tab, "#size"))) and str(live[0].args[0]).startswith("addr<%s[it" % tab)
            bad = "" if ok else bad
    else:
        o = live[0]
        if o.name != act:
            bad = "%s instead of %s" % (o.name, act)
        elif o.args[0] not in (fld(tab, "#size"), nrb):
            bad = "%s of the requests" % o.args[0]
        elif o.args[1] is not mk("addr", at1(tab, num(0))):
            bad = "requests %s" % o.args[1]
    ctx.ob("start", n, not bad, oc[0].where() if oc else fn.where(), bad)
    # without neighbours the tables are empty: no access to them
    hit = [o for o in oc if conds_allow(o, {nrb: 0, fld(tab, "#size"): 0}) is not False and not o.loops]
    bad = ""
    if hit and init is not None:
        ri = Run(C, init, ctx=ctx)
        st2 = read(ri.st, fld(fld(ri.this.p, kind + "_requests"), "#size")) if ri.st is not None else None
        try:
            z = Ev(1, fixed={nrb: 0}).ev(st2, {})
        except (NoEval, TypeError):
            z = 0
        firsts = [x for x in t.subterms(st2) if x.op == "elem"] if st2 is not None else []
        if firsts or not z:
            bad = "%s is reached with no rank boundary, where the table of exchanges has no entry" % hit[0].name
    ctx.ob("empty", n, not bad, oc[0].where() if oc else fn.where(), bad)
    if init is not None and n == "SendAll":
        ctx.guard("empty", "InitializeCommunication", init.where(), lambda: initempty(ctx, C, init), 30)


def initempty(ctx, C, fn):
    r, evs = E.tree(ctx, C, fn, event=lambda n: last(n) in ("begin", "front", "back", "operator[]", "at", "size", "resize"))
    nrb = fld(fld(r.this.p, "rank_boundaries"), "#size")
    bad, w = "", fn.where()
    for o in E.occs(evs):
        if any(str(a).startswith("this.rank_boundaries[0]") for a in o.args) and not o.loops and conds_allow(o, {nrb: 0}) is not False:
            bad, w = "the first of no rank boundaries is used (%s)" % o, o.where()
            break
    ctx.ob("empty", "InitializeCommunication", not bad, w, bad)


# ------------------------------------------------------------------ neighbour file
def mirror(ctx, M, fn):
    r, evs = E.tree(ctx, M, fn, names=["dbmd_file", "locality_id", "submesh_id"],
                    event=lambda n: last(n) in ("operator>>", ">>", "push_back", "emplace_back"))
    oc = E.occs(evs)
    me = [r.args[1].p, r.args[2].p]
    pb = [o for o in oc if last(o.name) in ("push_back", "emplace_back")]
    last_pb = [o for o in pb if str(o.args[0]).endswith("rank_boundary_data")]
    if not last_pb:
        ctx.ob("mirror", "reader", None, fn.where(), "no entry appended")
        return
    # the values of the entry when it is appended
    got = {}
    def hook(I, e, fr, st, name, f, obj, this, argn):
        if last(name) in ("push_back", "emplace_back") and isinstance(obj, Loc) and str(obj.path).endswith("rank_boundary_data"):
            v = I.ev(argn[0], fr, st)
            p = v.path if isinstance(v, Loc) else v
            for f_ in ("locality_in", "locality_ex", "submesh_in", "submesh_ex"):
                got[f_] = read(st, fld(p, f_))
        return NotImplemented
    Run(M, fn, ["dbmd_file", "locality_id", "submesh_id"], hook=hook)
    # numbers of the head line in the order they are read
    heads = []
    for f_ in got.values():
        for y in t.subterms(f_):
            if y.op == "read" and y not in heads:
                heads.append(y)
    heads.sort(key=lambda y: y.args[1])
    if len(heads) != 4:
        ctx.ob("mirror", "head", None, fn.where(), "head line not recognised: %s" % {k: str(v) for k, v in got.items()})
        return
    bad = ""
    for A, B in (((1, 2), (3, 4)), ((1, 2), (1, 4)), ((5, 2), (3, 2)), ((2, 1), (1, 2))):
        fx = dict(zip(heads, A + B))
        for mine, other in ((A, B), (B, A)):
            fx.update(dict(zip(me, mine)))
            v = tuple(Ev(1, fixed=fx).ev(got[k], {}) for k in ("locality_in", "submesh_in", "locality_ex", "submesh_ex"))
            if v != mine + other and not bad:
                bad = "sub-domain %s next to %s reads (rank, sub-domain) %s and neighbour %s" % (mine, other, v[:2], v[2:])
    ctx.ob("mirror", "sub-domains", not bad, fn.where(), bad)
    # faces
    face = {}
    for o in pb:
        f_ = str(o.args[0]).rsplit(".", 1)[-1]
        if f_ in ("elements_in", "elements_ex", "bound_ids_in", "bound_ids_ex", "p"):
            face.setdefault(f_, []).append(o)
    rd = []
    for os in face.values():
        for o in os:
            for y in t.subterms(o.args[1]):
                if y.op == "read" and y not in rd and y not in heads:
                    rd.append(y)
    rd.sort(key=lambda y: y.args[1])
    if len(rd) != 5 or set(face) != {"elements_in", "elements_ex", "bound_ids_in", "bound_ids_ex", "p"}:
        ctx.ob("mirror", "faces", None, fn.where(), "face line not recognised: %s" % [(k, [str(o.args[1]) for o in v]) for k, v in face.items()])
        return
    fl = [l for o in face["p"] for l in o.loops if not E.is_search(l)]
    bad = ""
    allheads = {y for o in pb for c, s in o.conds for y in t.subterms(c) if y.op == "read"} - set(rd)
    hs = sorted(allheads, key=lambda y: y.args[1])
    for A, B in (((1, 2), (3, 4)), ((1, 2), (1, 4)), ((5, 2), (3, 2)), ((2, 1), (1, 2))):
        for mine, w in ((A, (11, 12, 0, 1, 7)), (B, (12, 11, 1, 0, 7))):
            # conditions refer to head values read earlier; identify them by order
            fx = dict(zip(rd, (11, 12, 0, 1, 7)))
            fx.update(dict(zip(me, mine)))
            fx.update(dict(zip(heads, A + B)))
            if len(hs) == 4:
                fx.update(dict(zip(hs, A + B)))
            elif set(hs) - set(heads):
                fx.update({y: (A + B)[remap(y, heads, hs)] for y in hs})
            v = []
            for k in ("elements_in", "elements_ex", "bound_ids_in", "bound_ids_ex", "p"):
                live = [o for o in face[k] if conds_allow(o, fx) is not False]
                v.append(Ev(1, fixed=fx).ev(live[0].args[1], {}) if len(live) == 1 else "%d entries" % len(live))
            if tuple(v) != w and not bad:
                bad = "faces of %s next to %s are read as (element, neighbour, side, neighbour's side, order) = %s, not %s" % (mine, B if mine is A else A, v, list(w))
    ctx.ob("mirror", "faces", not bad, face["p"][0].where(), bad)
    ctx.ob("mirror", "all faces", len({id(l) for l in fl}) == 1 and str(fl[0].args[0]) == "0" and "read" in str(fl[0].args[1]), face["p"][0].where(), "faces read: %s" % [[str(a) for a in l.args] for l in fl])
    # the writer of such a line writes what the reader expects
    for g in M.find_re(r"operator<<$"):
        if "DBPairMetaData" in g.psig:
            r2, ev2 = E.tree(ctx, M, g, names=["s", "d"], event=lambda n: last(n) in ("operator<<", "<<"))
            out = [str(o.args[1]) for o in E.occs(ev2) if last(o.name) in ("operator<<", "<<") and len(o.args) > 1]
            out = [x for x in out if x.startswith("d.")]
            want = ["d.elements.first", "d.elements.second", "d.bound_ids.first", "d.bound_ids.second", "d.p"]
            ctx.ob("mirror", "writer", out == want, g.where(), "written as %s" % out)


def remap(y, heads, hs):
    return hs.index(y) % 4


# ------------------------------------------------------------------ main
def thread(ctx, m, fn):
    r, evs = E.tree(ctx, m, fn, event=lambda n: n.startswith(("MPI_", "omp_")) or last(n) == "Run")
    oc = E.occs(evs)
    it = [o for o in oc if o.name in ("MPI_Init_thread", "MPI_Init")]
    rn = [o for o in oc if last(o.name) == "Run"]
    if not it or not rn:
        ctx.ob("thread", "start-up", None if it else False, fn.where(), "no initialisation of the message library before the run")
        return
    bad = ""
    if any(o.name == "MPI_Init" for o in it) or str(it[0].args[2]) != "3":
        bad = "the message library is started without full thread support"
    prov = [y for o in oc for c, s in o.conds for y in t.subterms(c) if y.op == "out" and "MPI_Init_thread" in str(y)]
    thr = [y for o in oc for c, s in o.conds for y in t.subterms(c) if y.op == "app" and str(y.args[0]).startswith("omp_get")]
    argc = r.args[0].p
    if not bad and not prov:
        bad = "the thread support granted is not examined"
    if not bad:
        ab = [o for o in oc if o.name in ("MPI_Abort", "abort", "exit", "throw")]
        for p_, n, stop in ((3, 8, False), (3, 1, False), (0, 8, True), (1, 2, True), (2, 2, True)):
            fx = {y: p_ for y in prov}
            fx.update({y: n for y in thr})
            fx[argc] = 2
            s = any(conds_allow(o, fx) is True for o in ab) or not any(conds_allow(o, fx) for o in rn)
            if stop and not s:
                bad = "%d threads communicate with support level %d" % (n, p_)
            if not stop and s and p_ == 3:
                bad = "%d threads are refused although fully supported" % n
    ctx.ob("thread", "start-up", not bad, it[0].where(), bad)


# ------------------------------------------------------------------ drivers
def order(ctx, S, fn):
    r, items = S.run(fn, names(fn))
    rec, snd = [], []
    for it in items:
        if it.kind == "comm":
            n, c = last(it.name), str(it.args[1])
            if n == "ReceiveAll":
                rec.append((c, it))
            elif n == "SendAll":
                snd.append((c, it))
    a, b = [c for c, _ in rec], [c for c, _ in snd]
    ctx.count("rounds", len(b))
    if not b and not a:
        return
    bad = "" if a == b else "received in the order %s, sent in the order %s; all exchanges of two sub-domains use one tag" % (a, b)
    ctx.ob("order", who(fn), not bad, rec[0][1].occ.where() if rec else fn.where(), bad)


def sized(ctx, P, fn, inst):
    r, evs = E.tree(ctx, P, fn, opaque=lambda n, g: last(n) in ("initialize", "InitializeCommunication", "read_mesh", "read_bcis", "read_dbmd", "preprocess_mesh_data", "initialize_problem_parameters", "StartLog") or "::Writer::" in n or "InputParameters::InputParameters" in n,
                    event=lambda n: last(n) in ("initialize", "InitializeCommunication"))
    oc = E.occs(evs)
    a = [o for o in oc if last(o.name) == "initialize"]
    b = [o for o in oc if last(o.name) == "InitializeCommunication"]
    if not b:
        ctx.ob("sized", inst, False, fn.where(), "requests are never bound to the buffers")
        return
    bad = ""
    if not a or not all(E.before(x, b[0]) for x in a):
        bad = "requests are bound before the buffers have their size"
    if [c for c in b[0].conds]:
        bad = "requests are bound only if %s" % (b[0].conds[0],)
    ctx.ob("sized", inst, not bad, b[0].where(), bad)


GROW = ("resize", "push_back", "emplace_back", "clear", "insert", "erase", "assign", "swap", "shrink_to_fit", "reserve", "pop_back", "operator=")


def later(ctx, P):
    """who changes the size of a message buffer"""
    bad = []
    n = 0
    for tu in P.tus.values():
        for fn in tu.fns.values():
            for x in P.nodes(fn):
                if x[0] not in ("mcall", "ocall"):
                    continue
                nm = last(x[4])
                if nm not in GROW:
                    continue
                obj = x[5] if x[0] == "mcall" else (x[6][0] if x[6] else None)
                if obj is None:
                    continue
                names_ = memnames(obj)
                if names_ & {"send_buffer", "receive_buffer"}:
                    n += 1
                    if "create_distributed_boundaries" not in fn.name:
                        bad.append("%s:%d %s" % (fn.file, x[1], fn.name))
    bad = sorted(set(bad))
    ctx.ob("sized", "never resized", (not bad) if n else None, bad[0] if bad else "", "size of a message buffer changed by %s" % bad)


def memnames(x):
    out = set()
    while isinstance(x, list) and x and x[0] in ("mem", "ocall", "mcall", "cast", "paren"):
        if x[0] == "mem":
            out.add(x[4])
            x = x[3]
        elif x[0] == "ocall":
            if last(x[4]) != "operator[]":
                break
            x = x[6][0]
        elif x[0] == "mcall":
            if last(x[4]) not in ("at", "front", "back", "begin", "end"):
                break
            x = x[5]
        else:
            x = x[-1]
    return out


def emptyrank(ctx, P):
    """uses of the first sub-domain where a rank may have none"""
    seen = set()
    n = 0
    for tu in P.tus.values():
        for fn in tu.fns.values():
            use = [x for x in P.nodes(fn) if x[0] == "mem" and len(x) > 7 and str(x[7]).startswith("OMPISimulationUnit")]
            if not use or (fn.file, fn.line) in seen or last(fn.name).startswith("operator()"):
                continue
            vec = {}
            hits = []
            for x in use:
                for y in walknodes(x):
                    o = None
                    if y[0] == "mcall" and last(y[4]) in ("front", "back"):
                        o = y[5]
                    elif y[0] == "ocall" and last(y[4]) == "operator[]" and len(y[6]) > 1 and const0(y[6][1]):
                        o = y[6][0]
                    if isinstance(o, list) and o[0] == "ref" and o[5] == "p":
                        hits.append(x)
                        vec[o[3]] = o[4]
            seen.add((fn.file, fn.line))
            n += 1
            ok = not hits or guarded(P, fn, vec)
            ctx.ob("empty", who(fn), ok, "%s:%d" % (fn.file, hits[0][1]) if hits else fn.where(), "the first sub-domain is used, but a rank without sub-domains is allowed")
    if not n:
        ctx.ob("empty", "rank", None, "", "no driver with a list of sub-domains")


def walknodes(x):
    stack, out = [x], []
    while stack:
        y = stack.pop()
        if isinstance(y, list):
            if y and isinstance(y[0], str):
                out.append(y)
            stack.extend(z for z in y if isinstance(z, list))
    return out


def const0(x):
    while isinstance(x, list) and x[0] in ("cast", "paren"):
        x = x[-1]
    return isinstance(x, list) and x[0] == "int"


def guarded(P, fn, pid):
    for x in P.nodes(fn):
        if x[0] == "mcall" and last(x[4]) == "empty" and isinstance(x[5], list) and x[5][0] == "ref" and x[5][3] in pid:
            return True
    return False
