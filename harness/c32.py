"""C32: the report of an analysis is true."""
import importlib
import os
import re
import subprocess
import sys
import numpy as np
from harness import c06
from harness import elements as el
from harness import meshes as ms
from harness import util as u


def body(rng, fam, big):
    """One connected plane mesh: (family, points, connectivity)."""
    top = 6 if big else 2
    while True:
        pts, conn = ms.grid(rng, fam, rng.randrange(1, top + 1),
                            rng.randrange(1, top + 1), step=8,
                            jitter=rng.choice([0, 2]))
        arr = np.array(pts, float)
        if all(el.jacobian_ok(None, fam, arr[row], .1) if fam != "tri3"
               else c06.area3(arr[row]) > 8 for row in conn):
            return fam, pts, conn


def model(rng, ident, big):
    fam = rng.choice(["tri3", "tri6", "quad4", "quad9"])
    bodies = [body(rng, fam, big)]
    while rng.random() < .25:
        bodies.append(body(rng, fam, False))
    stray = rng.choice([0, 0, 0, 0, 1, 2])
    pts, conn, fams = [], [], []
    for k, (fam, some, rows) in enumerate(bodies):
        off = [100*k + rng.randrange(-9, 10), rng.randrange(-9, 10)]
        conn += [[c + len(pts) for c in row] for row in rows]
        fams += [fam]*len(rows)
        pts += [[p[0] + off[0], p[1] + off[1]] for p in some]
    for k in range(stray):
        pts.append([-30 - 5*k, rng.randrange(-9, 10)])
    num = len(pts)
    cons = [[0, 0] for _ in pts]
    for n in range(num - stray, num):
        cons[n] = rng.choice([[-1, -1]]*6 + [[-1, 0], [0, 0]])
    start = 0
    for fam, some, rows in bodies:
        mine = list(range(start, start + len(some)))
        start += len(some)
        how = rng.random()
        if how < .08:            # not supported
            continue
        if how < .15:            # one pin
            cons[rng.choice(mine)] = [-1, -1]
        elif how < .22:          # rollers along one axis
            c = rng.randrange(2)
            for n in rng.sample(mine, rng.randrange(1, len(mine) + 1)):
                cons[n][c] = -1
        elif how < .32:          # rollers on one straight line
            c = rng.randrange(2)
            n = rng.choice(mine)
            at = pts[n][c]
            for m in mine:
                if pts[m][c] == at:
                    cons[m][1 - c] = -1
            cons[n] = [-1, -1]
        else:
            for n in rng.sample(mine, rng.randrange(2, min(6, len(mine)) + 1)):
                cons[n] = rng.choice([[-1, -1], [-1, 0], [0, -1]])
    perm = rng.sample(range(num), num)
    where = {o: k for k, o in enumerate(perm)}
    pts = [pts[o] for o in perm]
    cons = [cons[o] for o in perm]
    conn = [[where[c] for c in row] for row in conn]
    order = rng.sample(range(len(conn)), len(conn))
    if rng.random() < .2:        # elements laid over each other
        order += rng.sample(order, rng.randrange(1, min(3, len(order)) + 1))
    loads = []
    if rng.random() < .15:       # a couple, or nothing
        a, b = rng.sample(range(num), 2)
        loads = [[a, 3, -2], [b, -3, 2]]
    else:
        for _ in range(rng.randrange(1, 5)):
            loads.append([rng.randrange(num), rng.randrange(-9, 10),
                          rng.randrange(-9, 10)])
    return {"id": ident, "nodes": pts, "conn": [conn[k] for k in order],
            "fams": [fams[k] for k in order], "cons": cons, "loads": loads}


def run(ctx):
    gui = importlib.import_module("solidspy.solids_GUI")
    import solidspy.assemutil as ass
    rng = ctx.rng
    num, big = ctx.pick((150, 12), (2500, 200))
    scen = [model(rng, k, k >= num) for k in range(num + big)]
    res = ctx.tlc("Report", scenarios=[
        {k: v for k, v in s.items() if k != "fams"} for s in scen])
    spec = {rec["id"]: rec for rec in res.lines("verdict")}
    for rec in scen:
        one(ctx, gui, ass, rec, spec[rec["id"]])
    programs(ctx, scen, spec)
    ctx.sample(scen[0])


def one(ctx, gui, ass, rec, spec):
    rng = ctx.rng
    size = rng.choice([1., 1., .001, 250.])
    young = rng.choice([1., 1e3, 210e9, 70e9, 1e-3, 3e7])
    nmat = rng.choice([1, 1, 3])
    mats = np.array([[young*rng.choice([1, 1, 2, 5]),
                      rng.choice([0, .25, .3, -.5])] for _ in range(nmat)])
    force = rng.choice([1., 1., 1e-4, 1e5, 1e-13, 1e12])
    loads = np.array(rec["loads"], float)*[1, force, force]
    cons = np.array(rec["cons"])
    nodes5 = ms.node_table(rng, np.array(rec["nodes"], float)*size, cons)
    eles = np.array([[k, ms.TYPES[f], rng.randrange(nmat)] + list(row)
                     for k, f, row in zip(ms.idents(rng, len(rec["conn"])),
                                          rec["fams"], rec["conn"])])
    info = {"nodes": nodes5, "elements": eles, "mats": mats, "loads": loads,
            "spec": spec}
    ctx.trace()
    ctx.count(spec["verdict"])
    data = {"nodes": nodes5[:, :3], "cons": cons, "elements": eles,
            "mats": mats, "loads": loads}
    if spec["verdict"] == "unbalanced":
        glob = u.call(stiffness, ass, data)
    folder = os.path.join(ctx.subdir("models"), str(rec["id"]))
    c06.write(rng, folder, nodes5, eles, mats, loads)
    runs = [("auto", u.call(gui.solids_auto, data, plot_contours=False)),
            ("files", u.call(gui.solids_GUI, plot_contours=False,
                             folder=folder))]
    for name, got in runs:
        if got.err:
            if spec["verdict"] == "balanced":
                ctx.fail("raised", dict(info, how=name, err=got.err))
            continue
        said = "not in equilibrium" in got.out.lower()
        for word, want in zip(("nodes", "elements", "equations"),
                              spec["count"]):
            hit = re.findall(rf"number of {word}\D*(\d+)", got.out, re.I)
            if hit != [str(want)]:
                ctx.fail("count", dict(info, how=name, word=word, spec=want,
                                       code=hit))
        if spec["verdict"] == "balanced" and said:
            ctx.fail("false-alarm", dict(info, how=name, out=got.out))
        if spec["verdict"] == "unbalanced" and not said:
            # rounding may balance the loads by accident
            if glob.err or imbalance(glob.val, got.val) < .02:
                ctx.count("accident")
                continue
            ctx.fail("silent", dict(info, how=name, out=got.out,
                                    code=u.safe_dense(got.val)))


def programs(ctx, scen, spec):
    """The program itself, started as one and told its folder."""
    rng = ctx.rng
    for verdict in ("balanced", "balanced", "unbalanced"):
        same = [s for s in scen if spec[s["id"]]["verdict"] == verdict
                and len(s["nodes"]) < 40]
        if not same:
            continue
        rec = rng.choice(same)
        unit = rng.choice([1., .01])
        nodes = ms.node_table(rng, np.array(rec["nodes"], float)*unit,
                              np.array(rec["cons"]))
        eles = np.array([[k, ms.TYPES[f], 0] + list(row) for k, (f, row) in
                         enumerate(zip(rec["fams"], rec["conn"]))])
        folder = os.path.join(ctx.subdir("programs"), f"job {rec['id']}")
        c06.write(rng, folder, nodes, eles, np.array([[1e3, .25]]),
                  np.array(rec["loads"], float))
        before = sorted(os.listdir(folder))
        style = rng.randrange(3)
        answer, where = [(folder, os.path.dirname(folder)),
                         ("", folder),
                         (os.path.basename(folder), os.path.dirname(folder))
                         ][style]
        code = rng.choice([["-m", "solidspy"], ["-c", "import solidspy; "
                                                "solidspy.solids_GUI()"]])
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONPATH=os.pathsep.join(
            [os.environ.get("VERIF_REPO", "/repo")]
            + os.environ.get("PYTHONPATH", "").split(os.pathsep)))
        env.pop("DISPLAY", None)
        run_ = subprocess.run([sys.executable, "-B"] + code, cwd=where,
                              env=env, input=answer + "\n", text=True,
                              capture_output=True, timeout=300)
        info = {"program": code, "answer": answer, "spec": spec[rec["id"]],
                "nodes": nodes, "elements": eles, "loads": rec["loads"],
                "code": run_.returncode, "out": run_.stdout[-1500:],
                "err": run_.stderr[-800:]}
        ctx.count("programs")
        ctx.trace()
        said = "not in equilibrium" in run_.stdout.lower()
        if verdict == "balanced":
            if run_.returncode:
                ctx.fail("program-failed", info)
                continue
            if said:
                ctx.fail("program-false-alarm", info)
            for word, want in zip(("nodes", "elements", "equations"),
                                  spec[rec["id"]]["count"]):
                hit = re.findall(rf"number of {word}\D*(\d+)", run_.stdout,
                                 re.I)
                if hit != [str(want)]:
                    ctx.fail("program-count", dict(info, word=word))
        if sorted(os.listdir(folder)) != before:
            ctx.fail("program-left-files", info)


def stiffness(ass, data):
    oper, eqs, neq = ass.DME(data["cons"], data["elements"])
    mat, _ = ass.assembler(data["elements"], data["mats"], data["nodes"], neq,
                           oper, sparse=False)
    return u.dense(mat), np.asarray(eqs), ass.loadasem(data["loads"], eqs, neq)


def imbalance(system, disp):
    mat, eqs, rhs = system
    vec = np.zeros(len(rhs))
    free = eqs >= 0
    vec[eqs[free]] = np.asarray(disp, float)[free]
    gap = np.linalg.norm(mat @ vec - rhs)/np.linalg.norm(rhs)
    return gap if np.isfinite(gap) else np.inf
