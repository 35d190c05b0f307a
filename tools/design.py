"""Prints the table of planted bugs for DESIGN.md; `caught` comes from build/detected.txt (written by tools/detect.py)."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
res = {}
for l in (V / "build" / "detected.txt").read_text().splitlines():
    n, p, rc, *case = l.split()
    res[n] = (p, rc, case[0].split("-")[1] if case else "")
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    p, rc, sub = res.get(d.name, (m["property"], "?", ""))
    rows.append((m["property"], d.name, f"{p} `{sub}`" if rc == "1" else "missed" if rc == "0" else "?", m["needs"]))
print("| planted bug | property | caught by | needs |\n|---|---|---|---|")
for a, b, c, d in sorted(rows):
    print(f"| {b} | {a} | {c} | {d} |")
