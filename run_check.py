#!/usr/bin/env python3
"""run_check.py <ID> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
FIX = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1",
       "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPMATH_NOGMPY": "1",
       "PYTHONPYCACHEPREFIX": "/nonexistent-pycache"}
if any(os.environ.get(k) != v for k, v in FIX.items()) or os.path.realpath(sys.prefix) != "/opt/venv":
    env = dict(os.environ)
    env.update(FIX)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse
import importlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    from mc import quiet  # noqa: F401
    import FIAT
    assert os.path.realpath(FIAT.__file__).startswith(os.path.realpath(REPO) + os.sep), FIAT.__file__
    from mc import runner
    mod = importlib.import_module("mc.props." + a.prop.lower())
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.main(a.prop, mod, a.tier, seed, a.replay)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
