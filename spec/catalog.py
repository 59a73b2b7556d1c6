"""Catalogue of the properties: generates properties.jsonl and MANIFEST.json (run: python3 spec/catalog.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), technique=technique, note=note, na=na))


SRC = "source/"
SWE = SRC + "problem/SWE/"
GN = SRC + "problem/Green-Naghdi/"
VG = "value-graph dataflow over the type-checked program (libTooling extractor), algebraic normal forms"
TRUST = "Trusts the clang front end, the extractor and the value-graph engine in /verif/dgv; real arithmetic, not floating point."

exec(open(os.path.join(HERE, "spec", "entries.py")).read())


def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            n = p["statement"].count(". ") + 1
            assert n <= 3, (p["id"], n)
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                     "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P if not p["na"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
         "notes": "All checks are static: they parse /repo's current sources with clang (extractor/), and decide obligations on the resolved program; nothing of /repo is executed. No hooks in /repo."}
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
    for p in P:
        for f in p["files"]:
            assert os.path.exists("/repo/" + f), f
    print(len(P), "properties,", len(m["checks"]), "claimed")


if __name__ == "__main__":
    main()
