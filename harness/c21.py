"""C21: mesh import keeps groups, constraints and loads where they belong."""
import numpy as np
from harness import util as u

NNODE = {"triangle": 3, "triangle6": 6, "quad": 4}


def scenario(rng, ident):
    many = rng.random() < .07        # long lines with many nodes
    num = rng.randrange(100, 160) if many else rng.randrange(6, 26)
    low = rng.choice([1, 1, 100, 250, 40000, 70000, -2])
    numbers = [low, low + rng.choice([1, 3, 5])]
    phys = lambda: rng.randrange(numbers[0], numbers[1] + 1)
    cells = []
    for tag in rng.sample(list(NNODE), rng.choice([1, 1, 2, 3])):
        size = rng.randrange(1, 13) if not many else rng.randrange(100, 400)
        cells.append({"tag": tag,
                      "conn": [rng.sample(range(num), NNODE[tag])
                               for _ in range(size)],
                      "phys": [phys() for _ in range(size)]})
    nlin = rng.randrange(250, 400) if many else rng.randrange(1, 15)
    lphys = [phys() for _ in range(nlin)]
    if many and rng.random() < .7:      # nearly all on the same line
        lphys = [v if rng.random() < .05 else lphys[0] for v in lphys]
    return {"id": ident,
            "points": [[rng.randrange(-99, 100) for _ in range(3)]
                       for _ in range(num)],
            "cells": cells, "first": rng.choice([0, 0, 1, 17, 120, 250, 32765]),
            "lines": [rng.sample(range(num), 2) for _ in range(nlin)],
            "lphys": lphys, "numbers": numbers}


def run(ctx):
    import solidspy.preprocesor as pre
    rng = ctx.rng
    scen = [scenario(rng, k) for k in range(ctx.pick(60, 800))]
    res = ctx.tlc("Import", ctx.pick("Import", "ImportDeep"), scenarios=scen,
                  simulate=(ctx.pick(110, 3000), ctx.pick(8, 17)), workers=1)
    for rec in res.lines("import"):
        replay(ctx, pre, scen[rec["id"]], rec)
        ctx.trace()
    ctx.sample([{k: v for k, v in h.items() if k not in ("flags",)}
                for h in res.lines("import")[0]["hist"]])


def replay(ctx, pre, mesh, rec):
    rng = ctx.rng
    kind = rng.choice([np.int64, np.int32, np.int64, np.uint64])
    if mesh["numbers"][0] < 0:
        kind = np.int64
    wide = 1                       # numbers of groups that lie far apart
    if kind in (np.int64, np.uint64) and rng.random() < .3:
        wide = rng.choice([256, 65536, 2**24, 2**31])
    low = mesh["numbers"][0]
    tag = lambda n: low + wide*(n - low)
    # in front, nodes that no group uses
    lead = rng.choice([0]*12 + [33000, 66000])
    small = rng.choice([kind, kind, kind, np.int16, np.uint8])
    if lead + len(mesh["points"]) > np.iinfo(small).max:
        small = kind
    cells = {c["tag"]: (np.array(c["conn"]) + lead).astype(small)
             for c in mesh["cells"]}
    cell_data = {c["tag"]: {"gmsh:physical": np.array([*map(tag, c["phys"])], kind),
                            "gmsh:geometrical": np.zeros(len(c["phys"]), int)}
                 for c in mesh["cells"]}
    cells["line"] = (np.array(mesh["lines"]) + lead).astype(kind)
    cell_data["line"] = {"gmsh:physical": np.array(
        [*map(tag, mesh["lphys"])], kind),
                         "gmsh:geometrical": np.ones(len(mesh["lphys"]), int)}
    points = np.array([[7, k % 31, 0] for k in range(lead)] +
                      mesh["points"], float)*rng.choice(
        [1/8, 1/8, 1/3, 2.**-30, 1e-9, 1e7])
    if rng.random() < .2:                   # far away, as on a map
        points = points + rng.choice([[4.5e6, 2.1e6, 2e6], [-3e7, 4e6, 0],
                                      [1e4]*3])
    if rng.random() < .3:
        points = points[:, :2]
    before = {k: v.copy() for k, v in cells.items()}
    pts0 = points.copy()
    info = {"cells": {k: v.tolist() for k, v in cells.items()},
            "physical": {k: v["gmsh:physical"].tolist()
                         for k, v in cell_data.items()}}
    got = u.call(pre.node_writer, points, {})
    num = len(points)
    want = np.zeros((num, 5))
    want[:, 0] = np.arange(num)
    want[:, 1:3] = points[:, :2]
    if got.err or not u.close(got.val, want, 1., 0):
        ctx.fail("node_writer", dict(info, err=got.err, points=points,
                                     code=u.safe_dense(got.val)))
        return
    table = got.val
    done = []
    for op in rec["hist"]:
        step = {k: v for k, v in op.items() if k not in ("rows", "flags")}
        step["phys"] = tag(op["phys"])
        done.append(step)
        where = dict(info, history=done)
        if op["op"] == "block":
            got = u.call(pre.ele_writer, cells, cell_data, op["tag"],
                         tag(op["phys"]), op["ty"], op["mat"], op["nini"])
            try:
                nf, arr = got.val
                ok = (int(nf) == op["nf"] and nf == op["nf"])
                shape = (len(op["rows"]), 3 + NNODE[op["tag"]])
                rows = [r[:3] + [n + lead for n in r[3:]] for r in op["rows"]]
                arr = np.asarray(arr)
                ok = ok and arr.shape == shape and \
                    arr.dtype.kind in "iu" and arr.tolist() == rows
            except Exception:
                ok = False
            if not ok:
                ctx.fail("block", dict(where, err=got.err, spec=op["rows"],
                                       code=repr(got.val)[:600]))
        elif op["op"] == "bc":
            got = u.call(pre.boundary_conditions, cells, cell_data,
                         tag(op["phys"]), table, op["bx"], op["by"])
            want[lead:, 3:] = op["flags"]
            if got.err or not (u.close(got.val, want, 1., 0)
                               and u.close(table, want, 1., 0)):
                ctx.fail("boundary", dict(where, err=got.err,
                                          spec=op["flags"],
                                          code=u.safe_dense(got.val)))
                return
            table = got.val
        else:
            scale = rng.choice([1, .5, 1e-3, 10.**rng.randrange(-30, 16)])
            got = u.call(pre.loading, cells, cell_data, tag(op["phys"]),
                         op["px"]*scale, op["py"]*scale)
            expect = np.array([[n - 1 + lead, op["px"]*scale/op["share"],
                                op["py"]*scale/op["share"]]
                               for n in op["nodes"]])
            val = u.safe_dense(got.val)
            if np.ndim(val) == 2 and np.shape(val) == expect.shape:
                val = val[np.argsort(val[:, 0], kind="stable")]
            if got.err or not (u.close(val, expect, 60*scale, 1e-12) and
                               np.array_equal(val[:, 0], expect[:, 0])):
                ctx.fail("load", dict(where, err=got.err, spec=expect,
                                      code=u.safe_dense(got.val)))
        ctx.count(op["op"])
    if not (all(np.array_equal(before[k], cells[k]) for k in before)
            and np.array_equal(points, pts0)):
        ctx.fail("mesh-changed", dict(info, history=done))
