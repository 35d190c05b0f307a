"""Print class counts of an evidence file: tools/ev.py P17"""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(f"/verif/evidence/{p}.json"))
    print(p, d["wall_s"], d["violations"])
    for n, s in d["coverage"]["per_subcheck"].items():
        print("  ", n, s["evaluations"], "nt", s["distinct_nontrivial"], dict(list(s["classes"].items())[:24]))
