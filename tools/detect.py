"""Which planted bugs do the checks catch: python3 tools/detect.py [ID..] [--also P01,..]. Applies each to /repo, runs its property's quick check, undoes it."""
import json, pathlib, subprocess, sys, time
V = pathlib.Path(__file__).resolve().parent.parent
args = [a for a in sys.argv[1:] if not a.startswith("--")]
claimed = {c["property"] for c in json.loads((V / "MANIFEST.json").read_text())["checks"]} if False else None
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
for d in sorted((V / "seeded").iterdir()):
    if args and d.name not in args:
        continue
    p = json.loads((d / "meta.json").read_text())["property"]
    t = time.time()
    subprocess.run(["git", "-C", "/repo", "apply", str(d / "patch.diff")], check=True)
    try:
        r = subprocess.run(["python3", str(V / "check.py"), p], capture_output=True, text=True, cwd=V)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    (V / "build").mkdir(exist_ok=True)
    open(V / "build" / "detected.txt", "a").write(f"{d.name} {p} {r.returncode} {v[0].rsplit(chr(47), 1)[1] if v else str()}\n")
    print(f"{d.name:28} {p} {'CAUGHT' if r.returncode == 1 and v else 'missed'} rc={r.returncode} n={len(v)} {time.time()-t:.0f}s {pathlib.Path(v[0].split('replay=')[1]).name if v else r.stderr[-150:]}", flush=True)
