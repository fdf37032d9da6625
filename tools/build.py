"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))

from properties import PROPS, NOT_APPLICABLE
from mpstat.registry import REGISTRY

na = {x["property"] for x in NOT_APPLICABLE}
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
missing = [i for i in ids if i not in na and i not in REGISTRY]
extra = [i for i in REGISTRY if i not in ids]
assert not missing and not extra, (missing, extra)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")

TECHNIQUE = ("abstract interpretation of the source (value numbering with "
             "gated joins), normal forms compared with the specification")
NOTE = ("Sound up to the listed assumptions for the shapes listed in the "
        "obligations: holds for all input values, not for samples. Trusts the "
        "models of the NumPy, SciPy and pytransform3d functions that are "
        "called, the front end for the compiled module, and real instead of "
        "floating point arithmetic. Comparisons whose normal forms differ but "
        "that no evaluation of the terms separates are counted as equal up to "
        "the normaliser in the evidence.")
checks = []
for i in ids:
    if i in na:
        continue
    o = REGISTRY[i][2]
    checks.append(dict(
        property=i, quick_cmd="python3-vt -m mpstat %s" % i,
        thorough_cmd="python3-vt -m mpstat %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=o.get("technique") or TECHNIQUE, level="other",
        level_note=o.get("note") or NOTE))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(
        version=1,
        setup_cmd="python3-vt -m compileall -q mpstat",
        hooks=dict(guard="none", enable="no hooks are needed",
                   source_commits=[]),
        checks=checks, not_applicable=NOT_APPLICABLE,
        notes="All checks read the sources in /repo and run nothing of it."),
        f, indent=1)
    f.write("\n")

# -- DESIGN.md -----------------------------------------------------------------
here = os.path.join(ROOT, "tools")
out = [open(os.path.join(here, "design_head.md")).read().rstrip(), "",
       "## Properties", ""]
reason = {x["property"]: x["reason"] for x in NOT_APPLICABLE}
bugs = {}
seeded = os.path.join(ROOT, "seeded")
results = {}
path = os.path.join(here, "seeded_results.json")
if os.path.exists(path):
    results = json.load(open(path))
for b in sorted(os.listdir(seeded)):
    bugs[b] = json.load(open(os.path.join(seeded, b, "meta.json")))
for p in PROPS:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    if i in na:
        out += ["Not applicable: " + reason[i], ""]
        continue
    o = REGISTRY[i][2]
    out += ["*What is decided.* " + o["rule"], ""]
    out += ["*Bounds.* %s. At least %d obligations must hold, otherwise the "
            "check reports that the analysis is broken (error exit). Cost: "
            "about %s." % (p["quantifier"]["text"].rstrip("."),
                           o["minimum"], o["cost"] or "5 s"), ""]
    out += ["*Beyond tests.* " + p["why_tests_cant"], ""]
    mine = [b for b in bugs if bugs[b]["property"] == i]
    if mine:
        out += ["*Planted bugs.* " + "; ".join(
            "`%s` (%s)" % (b, results.get(b, "not run")) for b in mine)
            + ".", ""]
out += [open(os.path.join(here, "design_tail.md")).read().rstrip(), ""]
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
