"""Findings, evidence and exit codes."""
import hashlib
import json
import os
import sys
import time
import traceback

from .project import AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")


class Finding:
    def __init__(self, rule, construct, loc, message, detail=None):
        self.rule, self.construct, self.loc, self.message, self.detail = rule, construct, loc, message, detail

    @property
    def key(self):
        """identity: rule + file + function + construct (never a line number)"""
        f, _, q = self.loc
        return f"{self.rule}|{f}|{q}|{self.construct}"


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.findings = {}
        self.counts = {}
        self.floors = {}
        self.samples = {}
        self.assumptions = []
        self.rules = []
        self.functions = set()

    def rule(self, name, text):
        self.rules.append({"rule": name, "text": text})

    def ob(self, rule, n=1, what=None):
        """an obligation of `rule` was examined"""
        self.counts[rule] = self.counts.get(rule, 0) + n
        if what is not None:
            s = self.samples.setdefault(rule, [])
            if len(s) < 12:
                s.append(str(what))

    def floor(self, rule, n):
        """fail as analysis-broken when fewer than n obligations were found"""
        self.floors[rule] = n

    def bad(self, rule, construct, loc, message, detail=None):
        f = Finding(rule, construct, loc, message, detail)
        self.findings.setdefault(f.key, f)

    def assume(self, text):
        self.assumptions.append(text)


def known_keys(pid):
    res = {}
    if not os.path.exists(KNOWN):
        return res
    for line in open(KNOWN, encoding="utf-8"):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        parts = dict(p.split("=", 1) for p in line[6:].split(" ;; ")[0].split() if "=" in p)
        if parts.get("property") == pid and "key=" in line:
            key = line.split("key=", 1)[1].split(" ;; ")[0].strip()
            what = line.split(" ;; ", 1)[1] if " ;; " in line else key
            res[key] = what
    return res


def main(pid, title, fn, level, technique):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = os.environ.get("VERIF_SEED", "1")
    rep = Report(pid)
    broken = None
    try:
        fn(rep, tier)
    except AnalysisBroken as e:
        broken = f"{type(e).__name__}: {e}"
    except RecursionError as e:
        broken = f"RecursionError: {e}"
    except Exception:
        broken = traceback.format_exc()
    if broken is None and not rep.findings:
        for r, n in rep.floors.items():
            if rep.counts.get(r, 0) < n:
                broken = f"rule {r}: only {rep.counts.get(r, 0)} obligations found, expected at least {n}"
    known = known_keys(pid)
    new = [f for k, f in rep.findings.items() if k not in known]
    old = [f for k, f in rep.findings.items() if k in known]
    total = sum(rep.counts.values())
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(seed) if seed.isdigit() else 1,
        "level": level,
        "wall_s": round(time.time() - t0, 3),
        "assumptions": rep.assumptions,
        "coverage": {
            "explanation": f"{technique}. Rules: " + "; ".join(f"[{r['rule']}] {r['text']}" for r in rep.rules)
                           + f". Obligations examined: {total}; discharged: {max(total - len(rep.findings), 0)}.",
            "obligations": total,
            "discharged": max(total - len(rep.findings), 0),
            "obligations_per_rule": rep.counts,
            "samples": [{"rule": r, "case": x} for r, xs in sorted(rep.samples.items()) for x in xs],
            "functions_analysed": sorted(rep.functions)[:400],
            "repo": REPO,
        },
        "violations": len(new),
        "violation_list": [{"rule": f.rule, "construct": f.construct, "where": f"{f.loc[0]}:{f.loc[1]} in {f.loc[2]}",
                        "message": f.message} for f in new],
        "known_findings": [f.key for f in old],
    }
    if broken:
        ev["analysis_broken"] = broken
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {title}")
    for r, n in sorted(rep.counts.items()):
        print(f"  rule {r}: {n} obligations")
    for f in old:
        print(f"KNOWN-FINDING: property={pid} {known[f.key]}")
    if new:
        for i, f in enumerate(new[:10]):
            path = os.path.join(EVID, f"{pid}-replay-{i}.json")
            with open(path, "w", encoding="utf-8") as h:
                json.dump({"property": pid, "rule": f.rule, "key": f.key, "file": f.loc[0], "line": f.loc[1], "function": f.loc[2],
                           "construct": f.construct, "message": f.message, "detail": f.detail,
                           "reproduce": f"python3 {VERIF}/check.py {pid}"}, h, indent=1)
            print(f"  {f.loc[0]}:{f.loc[1]} in {f.loc[2]}: [{f.rule}] {f.message}")
            print(f"  key: {f.key}")
            print(f"VIOLATION property={pid} replay={path}")
        if len(new) > 10:
            print(f"  ... and {len(new) - 10} more, see evidence/{pid}.json")
        return 1
    if broken:
        print(f"ANALYSIS-BROKEN property={pid}: {broken}", file=sys.stderr)
        return 2
    print(f"OK property={pid}: {total} obligations, {len(old)} known findings, {time.time() - t0:.2f}s")
    return 0
