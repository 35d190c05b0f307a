"""Make a planted bug: python3 tools/seed.py specs.py [ID..] - builds /verif/seeded/<id>/ from (file, old, new) specs and tries the demo.

A spec module defines BUGS = {id: dict(property=, file=, old=, new=, needs=, breaks=, demo=)}.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:] or list(bugs)
SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""
for b in only:
    s = bugs[b]
    w = pathlib.Path("/tmp/w") / b
    subprocess.run(["rm", "-rf", str(w)]); subprocess.run(["cp", "-a", "/repo", str(w)], check=True)
    for file, old, new in s.get("edits") or [(s["file"], s["old"], s["new"])]:
        f = w / "portfolyo" / file
        t = f.read_text()
        assert t.count(old) == 1, (b, file, t.count(old))
        f.write_text(t.replace(old, new))
    d = V / "seeded" / b
    d.mkdir(parents=True, exist_ok=True)
    diff = subprocess.run(["git", "-C", str(w), "diff"], capture_output=True, text=True, check=True).stdout
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(s["demo"].strip() + "\n")
    (d / "demo.sh").write_text(SH); os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    r = []
    for cwd in ("/repo", str(w)):
        p = subprocess.run(["bash", str(d / "demo.sh")], cwd=cwd, capture_output=True, text=True)
        r.append(p.returncode)
        err = p.stderr.strip().splitlines()[-1:] or [""]
        print(b, "unchanged" if cwd == "/repo" else "changed", p.returncode, err[0][:200])
    print(b, "OK" if r[0] == 0 and r[1] != 0 else "*** DEMO DOES NOT DISCRIMINATE")
