"""Extraction of /repo's resolved program and loading of the records."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DGV_REPO", "/repo")
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include"
OMPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"

BASE = ["-DEHDG_SUPPORT", "-DGN_SUPPORT", "-DIHDG_SUPPORT", "-DRKDG_SUPPORT", "-DSWE_SUPPORT", "-DUSE_EIGEN",
        "-std=gnu++14", "-include", "stdexcept", "-w", "-isystem", "/usr/include/eigen3",
        "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
PAR = ["-I" + OMPI, "-I" + OMPI + "/openmpi", "-I" + PETSC, "-fopenmp", "-isystem", VERIF + "/extractor/include"]

# translation units: (source relative to the repository, flags).  'ompi' and
# 'serial' instantiate every solver (RKDG/EHDG/IHDG shallow water, GN).
TUS = {
    "ompi": ("source/simulation/ompi/simulation_ompi_base.cpp", PAR + ["-DHAS_PETSC"]),
    "serial": ("source/simulation/serial/simulation_base.cpp", []),
    "ompi_main": ("source/dgswemv2-ompi.cpp", PAR + ["-DHAS_PETSC"]),
    "serial_main": ("source/dgswemv2-serial.cpp", []),
    "comm": ("source/communication/ompi_communicator.cpp", PAR),
    "meta": ("source/preprocessor/mesh_metadata.cpp", []),
    "adcirc": ("source/preprocessor/ADCIRC_reader/adcirc_format.cpp", []),
    "stepper": ("source/simulation/stepper/explicit_ssp_rk_stepper.cpp", []),
    "dubiner": ("source/basis/bases_2D/basis_dubiner_2D.cpp", []),
    "legendre": ("source/basis/bases_1D/basis_legendre_1D.cpp", []),
    "polys": ("source/basis/polynomials/basis_polynomials.cpp", []),
    "shape": ("source/shape/shapes_2D/shape_straighttriangle.cpp", []),
    "dunavant": ("source/integration/integrations_2D/integration_dunavant_2D.cpp", []),
    "gauss": ("source/integration/integrations_1D/integration_gausslegendre_1D.cpp", []),
    "swein": ("source/problem/SWE/problem_input/swe_inputs.cpp", []),
    "part": ("partitioner/write_distributed_interfaces.cpp", []),
    "inputs": (VERIF + "/extractor/tu/inputs.cpp", []),
    "quad": ("mesh_generators/quad_mesh_generator.cpp", []),
}


class AnalysisBroken(Exception):
    pass


def extractor():
    src = VERIF + "/extractor/extract.cpp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = VERIF + "/.build"
    exe = "%s/dgx-%s" % (d, h)
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run([VERIF + "/extractor/build.sh", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(exe):
            raise AnalysisBroken("extractor does not build:\n" + r.stdout[-2000:])
    return exe


def tree_hash():
    h = hashlib.sha256()
    for top in ("source", "mesh_generators", "partitioner"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, top))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".hpp", ".cpp", ".h", ".ipp", ".tpp")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
    for f in ("extract.cpp", "tu/inputs.cpp"):
        h.update(open(VERIF + "/extractor/" + f, "rb").read())
    h.update(repr((sorted(TUS.items()), BASE, PAR)).encode())
    return h.hexdigest()[:24]


def extract(names):
    """extract the TUs (in parallel); returns {name: path}"""
    exe = extractor()
    th = tree_hash()
    cache = "%s/.build/x-%s" % (VERIF, th)
    os.makedirs(cache, exist_ok=True)
    # drop stale caches
    os.utime(cache)
    old = sorted((d for d in os.listdir(VERIF + "/.build") if d.startswith("x-") and d != "x-" + th),
                 key=lambda d: -os.path.getmtime(VERIF + "/.build/" + d))
    for d in old[5:]:
        shutil.rmtree(VERIF + "/.build/" + d, ignore_errors=True)
    procs = []
    out = {}
    for n in names:
        src, flags = TUS[n]
        dst = "%s/%s.jl" % (cache, n)
        out[n] = dst
        if os.path.exists(dst):
            continue
        tmp = "%s.%d" % (dst, os.getpid())
        roots = ",".join(REPO + "/" + t + "/" for t in ("source", "partitioner", "mesh_generators"))
        cmd = [exe, tmp, roots, src if src.startswith("/") else REPO + "/" + src, "--"] + BASE + ["-I" + REPO + "/source"] + flags
        procs.append((n, tmp, dst, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for n, tmp, dst, p in procs:
        o, _ = p.communicate()
        if p.returncode or not os.path.exists(tmp):
            raise AnalysisBroken("extraction of %s (%s) failed: %s" % (n, TUS[n][0], o[-1500:]))
        os.rename(tmp, dst)
    return out


def prepare():
    try:
        extract(list(TUS))
    except AnalysisBroken as e:
        print(e)
        sys.exit(2)
    print("extracted %d translation units" % len(TUS))


class Fn(object):
    __slots__ = ("tu", "d", "id", "name", "file", "line", "params", "body", "cls", "psig", "inits", "targs", "lam", "encl", "enclname", "static")

    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        self.id = d["id"]
        self.name = d["name"]
        self.file = d["file"]
        self.line = d["line"]
        self.params = d["params"]
        self.body = d["body"]
        self.cls = d["cls"]
        self.psig = d["psig"]
        self.inits = d.get("inits")
        self.targs = d.get("targs", "")
        self.lam = d.get("lambda")
        self.encl = d.get("encl")
        self.enclname = d.get("enclname")
        self.static = d.get("static")

    def where(self):
        return "%s:%d" % (rel(self.file), self.line)

    def __repr__(self):
        return "<%s %s>" % (self.name, self.where())


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p


class TU(object):
    def __init__(self, name, path):
        self.name = name
        self.fns = {}
        self.ext = {}
        self.vars = {}
        self.recs = {}
        self.types = []
        self.byname = {}
        self.lambdas = {}
        ended = False
        for l in open(path):
            d = json.loads(l)
            k = d["k"]
            if k == "fn":
                f = Fn(self, d)
                self.fns[f.id] = f
                self.byname.setdefault(f.name, []).append(f)
                if f.lam:
                    self.lambdas.setdefault(f.lam, []).append(f)
            elif k == "ext":
                self.ext[d["id"]] = d
            elif k == "var":
                self.vars[d["id"]] = d
            elif k == "rec":
                self.recs[d["type"]] = d
            elif k == "types":
                self.types = d["types"]
            elif k == "end":
                ended = True
        if not ended:
            raise AnalysisBroken("truncated extraction for " + name)


class Program(object):
    def __init__(self, names):
        paths = extract(names)
        self.tus = {n: TU(n, paths[n]) for n in names}
        self.index = {}
        self._callees, self._closure, self._reach = {}, {}, {}
        for tu in self.tus.values():
            for f in tu.fns.values():
                self.index.setdefault((f.name, f.psig), f)
        self.globs = {}
        for tu in self.tus.values():
            for v in tu.vars.values():
                if v.get("init") is not None:
                    self.globs.setdefault(v["name"], (tu, v))

    def find(self, name, tu=None, psig=None, targs=None):
        out = []
        for t in self.tus.values():
            if tu and t.name != tu:
                continue
            for f in t.byname.get(name, ()):
                if psig is not None and not psig(f.psig):
                    continue
                if targs is not None and not targs(f.targs):
                    continue
                out.append(f)
        return out

    def nodes(self, fn):
        """every expression/statement node of a function body (and its initialisers), outermost first"""
        out = []
        stack = [fn.inits, fn.body] if fn.inits else [fn.body]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    out.append(x)
                stack.extend(reversed([y for y in x if isinstance(y, list)]))
        return out

    def callees(self, fn):
        """[(name, Fn or None, node)] resolved calls in fn, lambdas it creates included"""
        m = self._callees.get((fn.tu.name, fn.id))
        if m is not None:
            return m
        out = []
        for n in self.nodes(fn):
            if n[0] in ("call", "mcall", "ocall", "ctor") and len(n) > 4 and isinstance(n[4], str):
                g = fn.tu.fns.get(n[3])
                if g is None:
                    ex = fn.tu.ext.get(n[3])
                    if ex is not None:
                        g = self.index.get((n[4], ex["psig"].replace(";", ",")))
                out.append((n[4], g, n))
            elif n[0] == "lambda":
                for g in fn.tu.lambdas.get(n[3], ()):
                    out.append((g.name, g, n))
        self._callees[(fn.tu.name, fn.id)] = out
        return out

    def closure(self, fn):
        """functions reachable from fn through resolved calls (fn included)"""
        m = self._closure.get((fn.tu.name, fn.id))
        if m is not None:
            return m
        seen, todo = {}, [fn]
        while todo:
            f = todo.pop()
            k = (f.tu.name, f.id)
            if k in seen:
                continue
            seen[k] = f
            for n, g, _ in self.callees(f):
                if g is not None:
                    todo.append(g)
        r = list(seen.values())
        self._closure[(fn.tu.name, fn.id)] = r
        return r

    def reaches(self, fn, pred, key=None):
        """does some call reachable from fn satisfy pred(name)?"""
        if key is not None:
            m = self._reach.get((key, fn.tu.name, fn.id))
            if m is not None:
                return m
        r = any(pred(n) for f in self.closure(fn) for n, g, _ in self.callees(f))
        if key is not None:
            self._reach[(key, fn.tu.name, fn.id)] = r
        return r

    def find_re(self, rx, tu=None):
        """functions whose qualified name matches, outside lambdas"""
        import re
        c = re.compile(rx)
        out = []
        for t in self.tus.values():
            if tu and t.name != tu:
                continue
            for n, fs in t.byname.items():
                if c.search(n) and "(lambda)" not in n:
                    out += fs
        return out

    def one(self, name, tu=None, psig=None, targs=None):
        r = self.find(name, tu, psig, targs)
        if not r:
            raise AnalysisBroken("anchor function not found: %s" % name)
        return r[0]
