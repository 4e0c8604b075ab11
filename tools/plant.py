"""Writes planted bugs to /verif/seeded.  plant(id, property, edits, demo, needs, breaks)
edits: list of (file, old, new); demo: body of demo.py (fails by assertion)."""
import json
import os
import shutil
import subprocess
import tempfile

SEED = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "seeded")
HEAD = '''import importlib
import os
import sys
import tempfile
sys.path.insert(0, os.getcwd())
import numpy as np
import solidspy.assemutil as ass
import solidspy.femutil as fem
import solidspy.gaussutil as gau
import solidspy.postprocesor as pos
import solidspy.preprocesor as pre
import solidspy.solutil as sol
import solidspy.uelutil as uel
import solidspy.blochutil as blo

'''
SHELL = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
export MPLCONFIGDIR="$WORK/mpl" TMPDIR="$WORK"
HERE=$(cd "$(dirname "$0")" && pwd)
/opt/venv/bin/python "$HERE/demo.py"
'''


def plant(ident, prop, edits, demo, needs, breaks):
    work = tempfile.mkdtemp(prefix="plantw_")
    copy = os.path.join(work, "r")
    subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
    for name, old, new in edits:
        path = os.path.join(copy, "solidspy", name)
        with open(path) as fin:
            text = fin.read()
        assert text.count(old) == 1, (ident, name, text.count(old), old)
        with open(path, "w") as fout:
            fout.write(text.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True,
                          text=True, check=True).stdout
    assert diff, ident
    home = os.path.join(SEED, ident)
    os.makedirs(home, exist_ok=True)
    for name, text in (("patch.diff", diff), ("demo.sh", SHELL),
                       ("demo.py", HEAD + demo.lstrip("\n")),
                       ("meta.json", json.dumps(
                           {"property": prop, "needs": needs,
                            "what_it_breaks": breaks}, indent=1) + "\n")):
        with open(os.path.join(home, name), "w") as fout:
            fout.write(text)
    os.chmod(os.path.join(home, "demo.sh"), 0o755)
    shutil.rmtree(work)
