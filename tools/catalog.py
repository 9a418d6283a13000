#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries below."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
FR = ["src/viqa/fr_metrics/" + f + ".py" for f in ("fsim", "gsm", "mad", "msssim", "psnr", "qmeasure", "rmse", "ssim", "uqi", "vif", "vsi")]
NR = ["src/viqa/nr_metrics/cnr.py", "src/viqa/nr_metrics/snr.py", "src/viqa/nr_metrics/qmeasure.py"]
NR = [f for f in NR if os.path.exists("/repo/" + f)]
FR = [f for f in FR if os.path.exists("/repo/" + f)]
MET = FR + NR
LOAD = "src/viqa/utils/loading.py"
MISC = "src/viqa/utils/misc.py"
BASE = "src/viqa/_metrics.py"
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, note, observe=None):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None},
    })
    P[-1]["_note"] = note


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech, None)
    NA.append({"property": pid, "reason": reason})


VN_NOTE = ("Static: every path of the analysed functions is followed over symbolic inputs by an abstract interpreter of the syntax tree "
           "(value numbering, no execution and no solver); a violation names file, function and construct. Assumes the documented behaviour "
           "of numpy/scipy/piq/scikit-image calls; inputs are classed by dimensionality and pixel type. ")

exec(compile(open(os.path.join(VERIF, "tools", "entries.py"), encoding="utf-8").read(), "entries.py", "exec"))


def main():
    from vstatic.registry import CHECKS
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids)), "duplicate id"
    nas = {n["property"] for n in NA}
    checks = []
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            note = p.pop("_note")
            if p["id"] not in nas and p["id"] not in CHECKS:
                print("no check yet:", p["id"])
                continue
            assert len(p["title"]) <= 80, p["id"]
            for x in p["anchors"]["files"]:
                assert os.path.exists("/repo/" + x), (p["id"], x)
            f.write(json.dumps(p) + "\n")
            if p["id"] in nas:
                continue
            assert CHECKS[p["id"]]["title"] == p["title"], (p["id"], CHECKS[p["id"]]["title"], p["title"])
            checks.append({
                "property": p["id"],
                "quick_cmd": f"python3 check.py {p['id']} quick",
                "thorough_cmd": f"python3 check.py {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": CHECKS[p["id"]]["technique"],
                "level": CHECKS[p["id"]]["level"],
                "level_note": note,
            })
    missing = set(CHECKS) - set(ids)
    assert not missing, missing
    m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": NA,
         "notes": "All checks are static: they parse /repo's current sources (Python ast; clang's AST for the C extension) on every run and execute none of it."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
