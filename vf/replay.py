"""Re-run one saved case without hypothesis: exit 1 if it still fails, 0 if not, 2 on harness errors."""
import json, sys, traceback
from . import env


def main(path):
    d = json.load(open(path))
    env.setup()
    from .core import Ctx, HarnessError
    from .worker import load
    mod = load(d["property"])
    sub = next(s for s in mod.SUBS if s.name == d["sub"])
    try:
        sub.check(d["case"], Ctx())
    except HarnessError:
        traceback.print_exc()
        return 2
    except Exception:
        traceback.print_exc()
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("case passes")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
