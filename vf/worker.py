"""One worker process: runs its share of the generated cases of all sub-checks of one property."""
import hashlib, importlib, json, os, sys, time, traceback
from . import env


def load(pid):
    import pkgutil
    from . import props
    for m in pkgutil.iter_modules(props.__path__):
        if m.name.lower().startswith(pid.lower() + "_"):
            return importlib.import_module(f"vf.props.{m.name}")
    raise SystemExit(f"harness: no module for {pid}")


def main(pid, shard, nshards, tier, seed, out, softcap, only=None):
    t0 = time.time()
    env.setup()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from .core import Ctx, HarnessError
    mod = load(pid)
    res = {"subs": {}, "failures": [], "harness_error": None, "capped": False}

    def flush():
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.replace(tmp, out)

    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        st = {"evaluations": 0, "nt": [], "labels": {}, "samples": [], "rule": sub.rule}
        res["subs"][sub.name] = st
        seen, best = set(), {}

        def run_case(case):
            if time.time() - t0 > softcap:
                res["capped"] = True
                return
            text = json.dumps(case, sort_keys=True)
            ctx = Ctx()
            try:
                sub.check(case, ctx)
            except HarnessError as e:
                res["harness_error"] = f"{sub.name}: {e}\ncase: {text}\n{traceback.format_exc()}"
                flush()
                os._exit(3)
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:
                if type(e).__module__.startswith("hypothesis"):
                    raise
                if not best or len(text) < len(best["text"]):
                    best.update(text=text, case=case, error=f"{type(e).__name__}: {e}"[:4000],
                                traceback=traceback.format_exc()[-6000:], sub=sub.name)
                    res["failures"] = [f for f in res["failures"] if f["sub"] != sub.name] + [dict(best)]
                    flush()
                raise
            st["evaluations"] += 1
            for l in ctx.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if ctx.nontrivial:
                h = hashlib.md5(text.encode()).hexdigest()[:12]
                if h not in seen:
                    seen.add(h)
                    if len(seen) % 40 == 3 and len(st["samples"]) < 3 and len(text) < 1500:
                        st["samples"].append(case)

        try:
            if shard == 0:
                for case in sub.examples:
                    run_case(case)
            n = -(-sub.n(tier) // nshards)
            s = int(hashlib.md5(f"{seed}/{pid}/{sub.name}/{shard}".encode()).hexdigest()[:8], 16)
            if n > 0:
                test = hypothesis.seed(s)(settings(
                    max_examples=n, deadline=None, database=None, print_blob=False, derandomize=False,
                    report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink))(given(sub.strategy())(run_case)))
                test()
        except Exception as e:
            if not any(f["sub"] == sub.name for f in res["failures"]):
                res["harness_error"] = f"{sub.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}"
                flush()
                sys.exit(3)
        st["nt"] = sorted(seen)
        flush()
        if res["failures"]:
            break
    res["done"] = True
    flush()


if __name__ == "__main__":
    a = sys.argv
    main(a[1], int(a[2]), int(a[3]), a[4], int(a[5]), a[6], float(a[7]), a[8] if len(a) > 8 else None)
