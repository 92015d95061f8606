"""python -m mc.run C01 [quick|thorough] [--only CASE]"""
import importlib
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True

from . import core  # noqa: E402


def go():
    pid = sys.argv[1]
    import numpy as np

    np.seterr(all="ignore")
    import dsptoolbox

    where = os.path.realpath(dsptoolbox.__file__)
    assert where.startswith(os.environ.get("VERIF_REPO", "/repo") + "/"), where
    mod = importlib.import_module(f"checks.{pid.lower()}")
    return core.main(pid, mod.run, sys.argv[2:])


sys.exit(go())
