#!/usr/bin/env python3
"""Evaluates planted bugs in scratch copies of /repo (never in /repo itself).

usage: evaluate.py [ID ...] [--all-checks] [--no-tests]
For each /verif/seeded/<ID>: applies patch.diff to a copy, runs the stable
tests, demo.sh on the clean copy and on the patched one, and the check of the
bug's property (or all checks) with VERIF_REPO pointing at the copy.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"


def run(cmd, cwd, env=None, timeout=900):
    full = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                OPENBLAS_NUM_THREADS="1", **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=full, capture_output=True,
                          text=True, timeout=timeout)


def evaluate(ident, every, tests):
    home = os.path.join(SEED, ident)
    meta = json.load(open(os.path.join(home, "meta.json")))
    work = tempfile.mkdtemp(prefix="plant_")
    out = [ident, meta["property"]]
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        mpl = {"MPLCONFIGDIR": os.path.join(work, "mpl")}
        demo = os.path.join(work, "elsewhere")
        shutil.copytree(home, demo)
        for name in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, name))
        res = run(["bash", os.path.join(demo, "demo.sh")], copy, mpl)
        out.append("demo-clean=" + ("ok" if res.returncode == 0 else "BAD"))
        if res.returncode:
            out.append(res.stdout[-300:] + res.stderr[-500:])
        res = run(["git", "apply", os.path.join(home, "patch.diff")], copy)
        if res.returncode:
            return out + ["PATCH-FAILS " + res.stderr]
        res = run(["bash", os.path.join(demo, "demo.sh")], copy, mpl)
        out.append("demo-bug=" + ("ok" if res.returncode else "NOT-FAILING"))
        if tests:
            xml = os.path.join(work, "j.xml")
            run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                 "--doctest-modules", "--continue-on-collection-errors",
                 "-o", "junit_family=xunit2", "--junitxml=" + xml, "tests",
                 "solidspy"], copy, dict(mpl, PYTHONPATH=copy))
            res = os.path.join(work, "res.json")
            run(["python3", "/opt/vp/results.py", res, "junit:" + xml], copy)
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = json.load(open(res))
            passed = set(passed.get("passed", passed))
            lost = [t for t in stable if t not in passed]
            out.append("tests=" + ("ok" if not lost else "LOST " + str(lost)))
        props = [meta["property"]]
        if every:
            props = [f"C{k:02d}" for k in range(1, 39)]
        for prop in props:
            res = run(["python3", os.path.join(HERE, "check.py"), prop], work,
                      dict(VERIF_REPO=copy, VERIF_EVIDENCE=os.path.join(
                          work, "evidence")))
            hit = res.returncode == 1 and \
                f"VIOLATION property={prop}" in res.stdout
            word = "CAUGHT" if hit else "missed" if res.returncode == 0 else \
                "ERROR " + (res.stdout + res.stderr)[-300:]
            if not every or hit or res.returncode not in (0, 1):
                out.append(f"{prop}={word}")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = ids or sorted(os.listdir(SEED))
    with cf.ThreadPoolExecutor(6) as pool:
        for item in pool.map(lambda i: evaluate(
                i, "--all-checks" in sys.argv, "--no-tests" not in sys.argv),
                ids):
            print(*item, flush=True)
