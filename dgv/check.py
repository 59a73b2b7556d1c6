"""Obligations, verdicts, evidence."""
import json
import os
import signal
import sys
import time
import traceback

from . import load, terms as t, evalt
from .interp import Interp, Undecided, State, Loc, Mat, reify, mk
from .load import AnalysisBroken, rel

VERIF = load.VERIF


class Timeout(Exception):
    pass


class limit(object):
    """bound the time spent on one obligation"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*a):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Ctx(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs = []          # (rule, instance, verdict, where, msg)
        self.rules = {}        # rule -> text
        self.floors = {}
        self.stats = {}
        self.t0 = time.time()
        self.progs = {}

    # ------------------------------------------------------------- programs
    def prog(self, *names):
        key = tuple(names)
        if key not in self.progs:
            self.progs[key] = load.Program(list(names))
        return self.progs[key]

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ------------------------------------------------------------- rules
    def rule(self, name, text, floor=1):
        self.rules[name] = text
        self.floors[name] = floor

    def ob(self, rule, inst, verdict, where="", msg=""):
        assert rule in self.rules, rule
        self.obs.append((rule, inst, verdict, where, msg))

    def holds(self, rule, inst, where=""):
        self.ob(rule, inst, True, where)

    def eq(self, rule, inst, got, want, where, what="value"):
        """obligation: the two terms denote the same value"""
        from .spec import term
        got, want = term(got), term(want)
        try:
            v, how = evalt.same(got, want)
        except (RecursionError, Timeout) as e:
            v, how = None, repr(e)
        msg = "" if v else "%s is  %s  but must be  %s" % (what, str(got)[:900], str(want)[:900])
        self.count("term comparisons")
        self.ob(rule, inst, v, where, msg)
        return v

    def guard(self, rule, inst, where, f, secs=60):
        """run f(); anything the analysis cannot follow is an undecided obligation"""
        t0 = time.time()
        try:
            with limit(secs):
                return f()
        except Undecided as e:
            self.ob(rule, inst, None, where, "analysis cannot follow: %s" % e)
        except Timeout:
            self.ob(rule, inst, None, where, "time limit")
        except RecursionError:
            self.ob(rule, inst, None, where, "recursion limit")
        except (AttributeError, TypeError, KeyError, IndexError, AssertionError) as e:
            if os.environ.get("DGV_DEBUG"):
                traceback.print_exc()
            self.ob(rule, inst, None, where, "unexpected shape: %r" % e)
        finally:
            if os.environ.get("DGV_TRACE"):
                print("  .. %6.1fs %s %s" % (time.time() - t0, rule, inst), flush=True)
        return None

    # ------------------------------------------------------------- finish
    def finish(self):
        known = load_known()
        viol, kf, und = [], [], []
        dec = {}
        for rule, inst, v, where, msg in self.obs:
            if v is True:
                dec[rule] = dec.get(rule, 0) + 1
            elif v is False:
                dec[rule] = dec.get(rule, 0) + 1
                k = known.get((self.pid, rule, inst))
                if k is not None:
                    kf.append((rule, inst, where, k))
                else:
                    viol.append((rule, inst, where, msg))
            else:
                und.append((rule, inst, where, msg))
        for rule, inst, where, k in kf:
            print("KNOWN-FINDING: property=%s rule=%s %s: %s" % (self.pid, rule, inst, k))
        for rule, inst, where, msg in und[:40]:
            print("UNDECIDED property=%s rule=%s instance=%s at %s: %s" % (self.pid, rule, inst, where, msg[:300]))
        short = []
        for r, fl in self.floors.items():
            if dec.get(r, 0) < fl:
                short.append("%s: %d decided, at least %d expected" % (r, dec.get(r, 0), fl))
        n = sum(dec.values())
        expl = "Static analysis of %d obligations over the resolved program of /repo: %d discharged, %d violated, %d known findings, %d undecided. Rules: %s" % (
            len(self.obs), n - len(viol) - len(kf), len(viol), len(kf), len(und),
            "; ".join("[%s] %s (%d decided)" % (r, x, dec.get(r, 0)) for r, x in self.rules.items()))
        cov = {"explanation": expl[:20000], "obligations": len(self.obs), "discharged": n - len(viol) - len(kf), "violated": len(viol),
               "undecided": len(und), "known_findings": len(kf), "per_rule": {r: dec.get(r, 0) for r in self.rules}, "counts": self.stats,
               "functions_inlined": self.stats.get("functions inlined", 0),
               "instances": ["%s | %s | %s | %s" % (r, i, w, {True: "holds", False: "VIOLATED", None: "undecided"}[v]) for r, i, v, w, m in self.obs][:220]}
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": LEVEL.get(self.pid, "other"),
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        p = VERIF + "/evidence/%s.json" % self.pid
        s = json.dumps(ev, indent=1)
        while len(s) > 60000 and cov["instances"]:
            cov["instances"] = cov["instances"][:len(cov["instances"]) // 2]
            s = json.dumps(ev, indent=1)
        open(p, "w").write(s)
        if viol:
            rp = VERIF + "/evidence/%s.violations.txt" % self.pid
            with open(rp, "w") as f:
                for rule, inst, where, msg in viol:
                    f.write("property %s rule %s (%s)\n  instance: %s\n  at: %s\n  %s\n\n" % (self.pid, rule, self.rules[rule], inst, where, msg))
            for rule, inst, where, msg in viol[:6]:
                print("  %s: [%s] %s: %s" % (where, rule, inst, msg[:420]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if short:
            for s in short:
                print("ANALYSIS-LOST property=%s rule %s" % (self.pid, s))
            return 2
        print("OK property=%s: %d obligations decided, %d undecided (%.1fs)" % (self.pid, n, len(und), time.time() - self.t0))
        return 0


LEVEL = {}


def load_known():
    out = {}
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=ID rule=R instance=I | what
                head, what = l[len("finding:"):].split("|", 1)
                d = {}
                head = head.strip()
                a, rest = head.split(" ", 1)
                d["property"] = a.split("=", 1)[1]
                r, rest = rest.strip().split(" ", 1)
                d["rule"] = r.split("=", 1)[1]
                inst = rest.strip().split("=", 1)[1].strip()
                out[(d["property"], d["rule"], inst)] = what.strip()
    return out
