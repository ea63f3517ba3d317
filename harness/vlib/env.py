"""Environment of every check: the code under test is imported from /repo's working tree."""
import os
import sys
import tempfile

REPO = os.environ.get("BARTPY_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, "spec")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1

# never read or write byte code next to the sources (a stale .pyc must not stand in for changed code)
SCRATCH = tempfile.mkdtemp(prefix="bartverif.")
sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONPYCACHEPREFIX"] = sys.pycache_prefix
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["TQDM_DISABLE"] = "1"
# worker processes started by joblib must import the same tree
os.environ["PYTHONPATH"] = os.pathsep.join([REPO, os.path.join(VERIF, "harness")])
sys.path.insert(0, os.path.join(VERIF, "harness"))
sys.path.insert(0, REPO)


def assert_origin():
    import bartpy
    f = os.path.realpath(bartpy.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("bartpy imported from %s" % f)
