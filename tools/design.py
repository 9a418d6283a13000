#!/usr/bin/env python3
"""Writes DESIGN.md from design.template.md, methods.py, the catalogue, KNOWN_FINDINGS.txt and the planted bugs' meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ns = {}
exec(open(os.path.join(HERE, "methods.py"), encoding="utf-8").read(), ns)
METHODS = ns["METHODS"]
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8")]
man = json.load(open(os.path.join(VERIF, "MANIFEST.json"), encoding="utf-8"))
nas = {n["property"]: n["reason"] for n in man.get("not_applicable", [])}
out = ["## 2. How each claimed property is decided", ""]
for p in props:
    if p["id"] in nas:
        continue
    out += ["### %s %s" % (p["id"], p["title"]), "", "*" + p["statement"] + "*", "", METHODS[p["id"]].strip(), ""]
out += ["## 3. Not applicable", ""]
for p in props:
    if p["id"] in nas:
        out += ["* **%s %s.** %s" % (p["id"], p["title"], nas[p["id"]])]
out += ["", ns["DROPPED"].strip()]
fixed, known = [], []
for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), encoding="utf-8"):
    line = line.strip()
    if line.startswith("fixed:"):
        prop, commit, what = line[len("fixed: property="):].split(" ", 2)
        fixed.append("* `%s` (%s) %s" % (commit, prop, what))
    elif line.startswith("known:"):
        known.append("* " + line[6:].strip())
seeds = ["| id | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    d = json.load(open(f, encoding="utf-8"))
    name = os.path.basename(os.path.dirname(f))
    seeds.append("| %s | %s | %s | %s |" % (name, ns["MISSED"].get(name, d["property"]), d["what_it_breaks"].replace("|", "/"), str(d["needs"]).replace("|", "/")))
text = open(os.path.join(HERE, "design.template.md"), encoding="utf-8").read()
text = text.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXED@@", "\n".join(fixed)).replace("@@SEEDS@@", "\n".join(seeds))
text = text.replace("@@KNOWN@@", ("Recorded, not repaired:\n\n" + "\n".join(known)) if known else "No defect that a claimed property covers is left unrepaired.")
open(os.path.join(VERIF, "DESIGN.md"), "w", encoding="utf-8").write(text)
