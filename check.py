#!/usr/bin/env python3
"""Driver:  check.py P05 [--tier quick|thorough] [--seed N] [--jobs N] [--only sub]
            check.py --replay replays/<file>.json
Exit 0: held on everything explored; exit 1 + 'VIOLATION property=.. replay=..': broken; 2: harness error."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import env

FINDINGS = env.VERIF / "known_findings.json"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="vf-")
    try:
        if a.replay:
            return replay(a.replay, scratch)
        return run(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path, scratch):
    path = os.path.abspath(path)
    r = subprocess.run([env.PY, "-m", "vf.replay", path], env=env.child_env(scratch), cwd=scratch)
    return r.returncode


def known(prop):
    if not FINDINGS.exists():
        return []
    return [f for f in json.loads(FINDINGS.read_text())["findings"] if f["property"] == prop and f["status"] == "open"]


def run(a, scratch):
    t0 = time.time()
    e = env.child_env(scratch)
    softcap = 420.0 if a.tier == "quick" else 3300.0
    hardcap = softcap + 180
    # open findings: replay each recorded case; report, never fail on it
    for f in known(a.prop):
        cf = os.path.join(scratch, "kf.json")
        json.dump({"property": a.prop, "sub": f["sub"], "case": f["case"]}, open(cf, "w"))
        r = subprocess.run([env.PY, "-m", "vf.replay", cf], env=e, cwd=scratch, capture_output=True, text=True)
        if r.returncode == 1:
            print(f"KNOWN-FINDING: property={a.prop} {f['what']}")
        elif r.returncode != 0:
            print(r.stdout + r.stderr, file=sys.stderr)
            return 2
    procs, outs = [], []
    for k in range(a.jobs):
        o = os.path.join(scratch, f"out{k}.json")
        outs.append(o)
        cmd = [env.PY, "-m", "vf.worker", a.prop, str(k), str(a.jobs), a.tier, str(a.seed), o, str(softcap)]
        if a.only:
            cmd.append(a.only)
        procs.append(subprocess.Popen(cmd, env=e, cwd=scratch, stdout=subprocess.DEVNULL,
                                      stderr=open(o + ".err", "w"), start_new_session=True))
    failed_at = None
    grace = float(os.environ.get("VF_GRACE") or (25 if a.tier == "quick" else 90))  # for shrinking
    while True:
        alive = [p for p in procs if p.poll() is None]
        if not alive:
            break
        if failed_at is None and any(read(o).get("failures") for o in outs):
            failed_at = time.time()
        if (failed_at and time.time() - failed_at > grace) or time.time() - t0 > hardcap:
            for p in alive:
                p.kill()
            for p in alive:
                p.wait()
            break
        time.sleep(0.25)
    results = [read(o) for o in outs]
    failures = [f for r in results for f in r.get("failures", [])]
    herr = [r.get("harness_error") for r in results if r.get("harness_error")]
    crashed = [(k, procs[k].returncode) for k, r in enumerate(results) if not r.get("done") and not r.get("harness_error")]
    write_evidence(a, results, failures, time.time() - t0)
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f["case"])))
        f = failures[0]
        d = env.VERIF / "replays"
        d.mkdir(exist_ok=True)
        h = hashlib.md5(json.dumps(f["case"], sort_keys=True).encode()).hexdigest()[:10]
        path = d / f"{a.prop}-{f['sub']}-{h}.json"
        path.write_text(json.dumps({"property": a.prop, "sub": f["sub"], "case": f["case"], "error": f["error"],
                                    "traceback": f["traceback"], "seed": a.seed, "tier": a.tier}, indent=1))
        print(f"sub-check: {f['sub']}\ncase: {json.dumps(f['case'])[:3000]}\nerror: {f['error'][:3000]}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if herr or crashed:
        for h in herr:
            print("HARNESS ERROR", h, file=sys.stderr)
        for k, rc in crashed:
            print(f"HARNESS ERROR worker {k} ended with {rc}\n" + open(outs[k] + ".err").read()[-3000:], file=sys.stderr)
        return 2
    ev = sum(s["evaluations"] for r in results for s in r["subs"].values())
    print(f"{a.prop}: held on {ev} generated cases ({a.tier}, seed {a.seed}, {time.time()-t0:.0f} s)"
          + (" [time cap reached]" if any(r.get("capped") for r in results) else ""))
    return 0


def read(o):
    try:
        return json.load(open(o))
    except (OSError, ValueError):
        return {}


def write_evidence(a, results, failures, wall):
    sys.path.insert(0, str(env.VERIF))
    agg, rules = {}, {}
    for r in results:
        for n, s in r.get("subs", {}).items():
            if n not in agg:
                agg[n] = {"evaluations": 0, "nt": set(), "labels": {}, "samples": []}
            g = agg[n]
            rules[n] = s["rule"]
            g["evaluations"] += s["evaluations"]
            g["nt"] |= set(s["nt"])
            g["samples"] += s["samples"]
            for l, c in s["labels"].items():
                g["labels"][l] = g["labels"].get(l, 0) + c
    samples = []
    for n, g in agg.items():
        samples += [{"sub": n, "case": c} for c in g["samples"][:2]]
    if not samples:
        for n, g in agg.items():
            samples.append({"sub": n, "case": "(no sample kept)"})
    doc = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(g["evaluations"] for g in agg.values()),
            "distinct_nontrivial": sum(len(g["nt"]) for g in agg.values()),
            "rule": "Hypothesis-generated JSON cases, one share per worker process, seeded from VERIF_SEED. "
                    + " | ".join(f"{n}: {t}" for n, t in rules.items()),
            "samples": samples[:12],
            "per_subcheck": {n: {"evaluations": g["evaluations"], "distinct_nontrivial": len(g["nt"]),
                                 "classes": dict(sorted(g["labels"].items(), key=lambda kv: -kv[1])[:60])}
                             for n, g in agg.items()},
            "time_capped": any(r.get("capped") for r in results),
        },
        "assumptions": ["sampled exploration: absence of violations outside the generated cases is not established",
                        "reference calendar uses Python's zoneinfo/datetime; pandas, numpy and pint are trusted"],
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    d = env.VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{a.prop}.json").write_text(json.dumps(doc, indent=1))


if __name__ == "__main__":
    sys.exit(main())
