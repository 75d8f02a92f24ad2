#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only NAME] [-v] [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("SYMX_BOOT") != "1":
    env = dict(os.environ, SYMX_BOOT="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONPYCACHEPREFIX="/nonexistent-pycache", PYTHONWARNINGS="ignore")
    env.setdefault("MPLCONFIGDIR", "/tmp/symx-mpl-%d" % os.getuid())
    os.execve(PY, [PY, "-X", "frozen_modules=on", os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, "/repo")
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import argparse  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--procs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    import importlib
    import pkgutil
    import lingam
    if not lingam.__file__.startswith("/repo/"):
        sys.exit("lingam is not imported from /repo: " + lingam.__file__)
    for m in pkgutil.walk_packages(lingam.__path__, "lingam."):
        importlib.import_module(m.name)
    from symx import run
    mod = importlib.import_module("harness." + a.prop.lower())
    if a.replay:
        return run.replay_file(a.prop, a.replay)
    return run.run_check(a.prop, a.tier, only=a.only, seed=int(os.environ.get("VERIF_SEED", "1")),
                         procs=a.procs, verbose=a.v, meta=getattr(mod, "META", None))


if __name__ == "__main__":
    sys.exit(main())
