"""Make the real metalift code of the repository importable under python3-vt.

Nothing of metalift is copied: every check imports the modules from REPO's
current working tree.  The third-party packages metalift needs (llvmlite, mypy,
networkx, ...) come from the interpreter running the check or, when missing
there, from /opt/venv's site-packages (pure Python or ctypes, so they load in
CPython 3.12 too).
"""
import glob
import os
import sys
import warnings

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for _p in sorted(glob.glob("/opt/venv/lib/*/site-packages")):
    if _p not in sys.path:
        sys.path.append(_p)
# metalift caches nothing in the repository, but it writes ./synthesisLogs
SCRATCH = None


def scratch():
    """A scratch directory removed at exit; also the cwd of code that writes files."""
    global SCRATCH
    if SCRATCH is None:
        import atexit
        import shutil
        import tempfile

        SCRATCH = tempfile.mkdtemp(prefix="mlverif.")
        pid = os.getpid()
        atexit.register(
            lambda: os.getpid() == pid and shutil.rmtree(SCRATCH, ignore_errors=True)
        )
    return SCRATCH
