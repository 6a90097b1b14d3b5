#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import jobs as J

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    try:
        js = J.jobs(p, "quick")
    except KeyError:
        na.append({"property": p, "reason": "the check is not built yet"})
        continue
    mods = sorted({j["module"] for j in js} | {j["gen"][0] for j in js if "gen" in j})
    checks.append({
        "property": p,
        "quick_cmd": "python3 run.py %s quick" % p,
        "thorough_cmd": "python3 run.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "explicit TLA+ specification model checked with TLC; behaviours of the specification replayed into the code, and recorded executions of the code decided by TLC against it ("
                     + ", ".join(mods) + ")",
        "level": "model_checking",
        "level_note": J.NOTES.get(p, "Exhaustive on the machines within their constants, whose behaviours are all (quick: a sample) taken through the real code; every recorded execution of the real code "
                      "is decided by the specification. Assumes the recorders' drivers are representative and trusts TLC, numpy and scipy."),
    })
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: recorders use the documented interface only. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
