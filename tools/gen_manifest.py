"""Write MANIFEST.json for the properties that have a module in vf/props."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
have = {m.name[:3].upper() for m in (V / "vf/props").glob("p[0-9]*_*.py")}
TECH = {
    "P03": "stateful model-based property testing (Hypothesis) against a numpy reference model",
    "P04": "stateful property testing (Hypothesis): deep snapshots around random operation sequences",
    "P16": "stateful property testing (Hypothesis): accounting invariants over operation histories",
}
DEFAULT = "property-based testing (Hypothesis): generated inputs against an independent reference model / calendar and metamorphic relations"
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, DEFAULT), "level": "exploration",
            "level_note": "Random exploration with shrinking; no alarm means no counterexample among the generated cases (counts, classes and samples in "
                          "the evidence file). Trusts the reference calendar (zoneinfo/datetime), numpy, and the stated numerical tolerances."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); from vf import env; print(env.hypothesis_dir())\"",
       "checks": checks, "not_applicable": na,
       "notes": "No hooks: everything is judged through the public behaviour of the code in /repo (imported from its working tree, never built or copied)."}
(V / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not claimed")
