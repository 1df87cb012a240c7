"""Process set-up shared by every check.

* hypothesis (and its pure helpers) are loaded from the read-only tooling venv
  by an import finder limited to those names, so that the code under test keeps
  running on its own interpreter and numpy (/opt/venv, numpy 1.26);
* the code under test is imported from /repo's working tree.
"""
import importlib.machinery
import os
import sys
import warnings

REPO = os.path.realpath(os.environ.get("PBT_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
_NAMES = {"sortedcontainers", "mpmath", "sympy", "attr", "attrs"}


class _ToolFinder:
    """Resolve only hypothesis & friends from the tooling venv."""

    root = TOOLS

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if path is None and (name in _NAMES or "hypothesis" in name):
            return importlib.machinery.PathFinder.find_spec(name, [cls.root])
        return None


def _fallback_unpack():
    """If the tooling venv is missing, unpack the wheels into the scratch dir."""
    import glob
    import zipfile
    dst = os.path.join(os.environ.get("PBT_SCRATCH", "/tmp"), "tools")
    os.makedirs(dst, exist_ok=True)
    for pat in ("hypothesis-*-cp312-*", "sortedcontainers-*", "mpmath-*", "attrs-*"):
        for whl in glob.glob(os.path.join(WHEELS, pat)):
            with zipfile.ZipFile(whl) as z:
                z.extractall(dst)
    _ToolFinder.root = dst


if not os.path.isdir(os.path.join(TOOLS, "hypothesis")):
    _fallback_unpack()

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
if not any(getattr(f, "__name__", "") == "_ToolFinder" for f in sys.meta_path):
    sys.meta_path.insert(0, _ToolFinder)
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

np.seterr(all="ignore")
