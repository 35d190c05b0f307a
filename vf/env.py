"""Process set-up shared by the check driver and its workers: where the code under test and
the property-testing library come from, and a quiet, side-effect-free environment."""
import os, sys, tempfile, zipfile, glob, warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VF_REPO", "/repo"))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NEED = ("hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals.py",
        "_hypothesis_ftz_detector.py", "_hypothesis_pytestplugin.py")


def hypothesis_dir() -> str:
    """Directory holding only hypothesis and what it needs. The environment of the code under test
    must not see any other package of the tooling environment, so that is never put on the path."""
    d = VERIF / "build" / "hyp"
    try:
        d.mkdir(parents=True, exist_ok=True)
    except OSError:
        d = Path(tempfile.gettempdir()) / f"vf-hyp-{os.getuid()}"
        d.mkdir(parents=True, exist_ok=True)
    if not (d / "hypothesis").exists():
        if os.path.isdir(os.path.join(PYVENV, "hypothesis")):
            for n in NEED:
                src = os.path.join(PYVENV, n)
                if os.path.exists(src):
                    try:
                        os.symlink(src, d / n)
                    except FileExistsError:
                        pass
        else:
            for pat in ("hypothesis-*-cp312-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
                for w in sorted(glob.glob("/opt/veriftools/wheels/" + pat))[:1]:
                    zipfile.ZipFile(w).extractall(d)
    return str(d)


def child_env(scratch: str) -> dict:
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", MPLCONFIGDIR=scratch, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
             PYTHONPATH=f"{REPO}:{VERIF}", VF_HYP=hypothesis_dir(), HYPOTHESIS_STORAGE_DIRECTORY=scratch,
             TMPDIR=scratch, COLUMNS="80")
    return e


def setup():
    """Inside a worker: make hypothesis importable and silence warnings."""
    h = os.environ.get("VF_HYP") or hypothesis_dir()
    if h not in sys.path:
        sys.path.append(h)
    warnings.simplefilter("ignore")
    import portfolyo as pf  # noqa: the code under test
    f = Path(pf.__file__).resolve()
    if REPO.resolve() not in f.parents:
        raise SystemExit(f"harness: portfolyo imported from {f}, not from {REPO}")
    warnings.simplefilter("ignore")
    return pf
