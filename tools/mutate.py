#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes of every function of SolidsPy.

usage: mutate.py [--module NAME] [--function NAME] [--sample N] [--seed S]
                 [--jobs J] [--out FILE]
Each mutant lives in a scratch copy.  Mutants killed by the stable tests are
counted and dropped; the others are given to the checks of the function's
properties.  Survivors are listed for inspection (equivalent or missed).
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS = {
    "eqcounter": "C01 C02", "DME": "C02 C24 C06", "ele_fun": "C03 C24 C06",
    "retriever": "C03", "assembler": "C03 C06", "dense_assem": "C03",
    "sparse_assem": "C03", "loadasem": "C04",
    "reassign_dof_bloch": "C23", "bloch_transform_mat": "C23",
    "eletype": "C02 C24 C17", "jacoper": "C24 C14 C08", "umat": "C15",
    "elast_mat": "C15", "elast_mat_axi": "C15", "str_el3": "C14 C17",
    "str_el4": "C14 C17", "str_el6": "C14 C17", "elast_diff_2d": "C14",
    "elast_diff_axi": "C14 C12", "elast_diff_3d": "C14",
    "fields_plot": "C26", "tri_plot": "C26", "plot_node_field": "C26",
    "plot_truss": "C26", "mesh2tri": "C22", "complete_disp": "C05",
    "strain_nodes": "C17 C24", "stress_truss": "C18", "eigvals": "C19",
    "principal_dirs": "C19", "energy": "C27", "readin": "C28",
    "echomod": "C28", "ele_writer": "C21", "node_writer": "C21",
    "boundary_conditions": "C21", "loading": "C21", "rect_grid": "C20",
    "solids_GUI": "C06 C26 C28", "solids_auto": "C06 C26", "static_sol": "C05",
    "elast_axi_quad9": "C12", "elast_tet4": "C11", "elast_hex8": "C11",
    "spring": "C10 C24", "truss2D": "C10 C24", "beam2DU": "C10 C24",
    "beam2D": "C10 C24"}
SKIP = {"initial_params", "elast_mat_2d"}


def props_of(func):
    if func in PROPS:
        return PROPS[func].split()
    if func.startswith("shape_"):
        return ["C13"]
    if func.startswith("gauss"):
        return ["C16"]
    if func.startswith("elast_"):
        return ["C08", "C09"]
    return []


BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add],
       ast.Div: [ast.Mult, ast.FloorDiv], ast.Pow: [ast.Mult],
       ast.MatMult: [ast.Mult]}
CMP = {ast.Eq: [ast.NotEq, ast.LtE, ast.GtE], ast.NotEq: [ast.Eq],
       ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE],
       ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}


def variants(node):
    """Replacements of one expression or statement."""
    out = []
    if isinstance(node, ast.BinOp):
        for new in BIN.get(type(node.op), []):
            item = copy.deepcopy(node)
            item.op = new()
            out.append(item)
        if isinstance(node.op, (ast.Add, ast.Sub)):
            out.append(copy.deepcopy(node.left))
    elif isinstance(node, ast.Compare) and len(node.ops) == 1:
        for new in CMP.get(type(node.ops[0]), []):
            item = copy.deepcopy(node)
            item.ops = [new()]
            out.append(item)
    elif isinstance(node, ast.BoolOp):
        item = copy.deepcopy(node)
        item.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        out.append(item)
        for k in range(len(node.values)):
            item = copy.deepcopy(node)
            del item.values[k]
            out.append(item if len(item.values) > 1 else item.values[0])
    elif isinstance(node, ast.UnaryOp):
        out.append(copy.deepcopy(node.operand))
    elif isinstance(node, ast.Constant):
        val = node.value
        if isinstance(val, bool):
            out.append(ast.Constant(not val))
        elif isinstance(val, int):
            out += [ast.Constant(val + 1)] + ([ast.Constant(val - 1)]
                                              if val > 0 else [])
        elif isinstance(val, float):
            out += [ast.Constant(val*1.0001 if val else 1.0)]
        elif isinstance(val, str) and val:
            out.append(ast.Constant(val + "x"))
    elif isinstance(node, ast.AugAssign):
        item = ast.Assign([copy.deepcopy(node.target)],
                          copy.deepcopy(node.value), lineno=0)
        out += [item, ast.Pass()]
    elif isinstance(node, ast.Assign):
        if not isinstance(node.targets[0], ast.Name):
            out.append(ast.Pass())
    elif isinstance(node, (ast.Raise, ast.Expr, ast.Continue)):
        out.append(ast.Pass())
    elif isinstance(node, ast.If):
        item = copy.deepcopy(node)
        item.test = ast.Constant(True)
        out.append(item)
        item = copy.deepcopy(node)
        item.test = ast.Constant(False)
        out.append(item)
    elif isinstance(node, ast.Call):
        if len(node.args) >= 2:
            item = copy.deepcopy(node)
            item.args[0], item.args[1] = item.args[1], item.args[0]
            out.append(item)
        for k in range(len(node.keywords)):
            item = copy.deepcopy(node)
            del item.keywords[k]
            out.append(item)
        if isinstance(node.func, ast.Attribute) and not node.args and \
                not node.keywords:
            out.append(copy.deepcopy(node.func.value))
    return out


def mutants(path):
    with open(path) as fin:
        tree = ast.parse(fin.read())
    for func in tree.body:
        if not isinstance(func, ast.FunctionDef) or func.name in SKIP:
            continue
        body = func.body
        if isinstance(body[0], ast.Expr) and \
                isinstance(body[0].value, ast.Constant):
            body = body[1:]
        places = []
        for top in body:
            for node in ast.walk(top):
                for field, val in ast.iter_fields(node):
                    if isinstance(val, list):
                        places += [(node, field, k) for k in range(len(val))
                                   if isinstance(val[k], ast.AST)]
                    elif isinstance(val, ast.AST):
                        places.append((node, field, None))
        places += [(func, "body", k) for k in range(len(func.body))
                   if func.body[k] in body]
        places += [(func.args, "defaults", k)
                   for k in range(len(func.args.defaults))]
        for node, field, k in places:
            val = getattr(node, field)
            old = val if k is None else val[k]
            if isinstance(node, ast.Raise) or isinstance(old, ast.JoinedStr):
                continue
            if isinstance(node, ast.Call) and \
                    getattr(node.func, "id", "") in ("print", "ValueError",
                                                     "TypeError"):
                continue
            for new in variants(old):
                if k is None:
                    setattr(node, field, new)
                else:
                    val[k] = new
                try:
                    text = ast.unparse(ast.fix_missing_locations(tree))
                except Exception:
                    text = None
                if k is None:
                    setattr(node, field, old)
                else:
                    val[k] = old
                if text:
                    yield (func.name, getattr(old, "lineno", 0),
                           ast.unparse(old)[:90],
                           ast.unparse(ast.fix_missing_locations(new))[:90],
                           text)


def run(cmd, cwd, env, timeout):
    full = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                OPENBLAS_NUM_THREADS="1", **env)
    try:
        return subprocess.run(cmd, cwd=cwd, env=full, capture_output=True,
                              text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def judge(item):
    module, func, line, old, new, text = item
    rec = {"module": module, "function": func, "line": line, "old": old,
           "new": new}
    work = tempfile.mkdtemp(prefix="mutant_")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "docs",
                                                      "examples", "paper"))
        with open(os.path.join(repo, "solidspy", module), "w") as fout:
            fout.write(text)
        env = {"MPLCONFIGDIR": os.path.join(work, "mpl"), "PYTHONPATH": repo}
        res = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                   "tests"], repo, env, 120)
        if res is None or res.returncode != 0:
            rec["verdict"] = "tests"
            return rec
        if ">>>" in text:       # doctests of the stable set
            xml = os.path.join(work, "j.xml")
            run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                 "--doctest-modules", "-o", "junit_family=xunit2",
                 "--continue-on-collection-errors",
                 "--junitxml=" + xml, "tests", "solidspy"], repo, env, 120)
            out = os.path.join(work, "res.json")
            run(["python3", "/opt/vp/results.py", out, "junit:" + xml], repo,
                {}, 60)
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = json.load(open(out))
            passed = set(passed.get("passed", passed))
            if any(t not in passed for t in stable):
                rec["verdict"] = "tests"
                return rec
        rec["verdict"] = "survived"
        for prop in props_of(func):
            res = run(["python3", os.path.join(HERE, "check.py"), prop], work,
                      {"VERIF_REPO": repo,
                       "VERIF_EVIDENCE": os.path.join(work, "ev")}, 900)
            if res is None:
                rec["verdict"] = "timeout " + prop
                return rec
            if res.returncode == 1 and "VIOLATION" in res.stdout:
                rec["verdict"] = "caught " + prop
                return rec
            if res.returncode != 0:
                rec["verdict"] = "ERROR " + prop
                rec["text"] = (res.stdout + res.stderr)[-800:]
                return rec
        return rec
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    par = argparse.ArgumentParser()
    par.add_argument("--module")
    par.add_argument("--function")
    par.add_argument("--sample", type=int)
    par.add_argument("--per-function", type=int, default=10**9)
    par.add_argument("--seed", type=int, default=1)
    par.add_argument("--jobs", type=int, default=6)
    par.add_argument("--out", default="/tmp/mutants.jsonl")
    args = par.parse_args()
    todo = []
    base = "/repo/solidspy"
    for name in sorted(os.listdir(base)):
        if not name.endswith(".py") or name.startswith("__"):
            continue
        if args.module and name != args.module:
            continue
        for mut in mutants(os.path.join(base, name)):
            if args.function and mut[0] not in args.function.split(","):
                continue
            todo.append((name,) + mut)
    random.Random(args.seed).shuffle(todo)
    total = len(todo)
    seen = {}
    some = []
    for item in todo:
        key = item[:2]
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= args.per_function:
            some.append(item)
    todo = some
    todo = todo[:args.sample]
    print(total, "mutants,", len(todo), "tried", flush=True)
    count = {}
    with cf.ThreadPoolExecutor(args.jobs) as pool, open(args.out, "w") as out:
        for rec in pool.map(judge, todo):
            key = rec["verdict"].split()[0]
            count[key] = count.get(key, 0) + 1
            out.write(json.dumps(rec) + "\n")
            out.flush()
            if key not in ("tests", "caught"):
                print(json.dumps(rec), flush=True)
    print(count)


if __name__ == "__main__":
    main()
