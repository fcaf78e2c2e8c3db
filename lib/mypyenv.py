"""Load the interpreted mypy the frontend needs (the compiled one cannot be subclassed)."""
import glob
import sys

_p = [p for p in sorted(glob.glob("/opt/venv/lib/*/site-packages"))]
_saved = list(sys.path)
sys.path[:0] = _p
import mypy.build  # noqa
import mypy.nodes  # noqa
import mypy.traverser  # noqa
import mypy.visitor  # noqa

sys.path[:] = _saved
