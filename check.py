#!/usr/bin/env python3
"""Entry point of every check: python3 /verif/check.py Cxx [--tier quick|thorough]

Exit status 0: the property held on everything explored.
Exit status 1 with a line "VIOLATION property=<id> replay=<path>": it is broken.
Any other exit status: the machinery itself failed (never a verdict).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")

if __name__ == "__main__":
    if os.path.exists(VENV) and os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ)
        env["VERIF_REEXEC"] = "1"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONHASHSEED"] = "0"
        env.setdefault("OPENBLAS_NUM_THREADS", "1")
        env["OMP_NUM_THREADS"] = "1"
        env["MPLBACKEND"] = "Agg"
        env.pop("PYTHONPATH", None)
        os.execve(VENV, [VENV, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from harness import core
    sys.exit(core.main(sys.argv[1:]))
