"""C34: a model imported from a mesh analyses as that mesh."""
import importlib
import os
import numpy as np
from harness import c06
from harness import util as u

TAGS = {"tri3": ("triangle", 3), "tri6": ("triangle6", 3),
        "quad4": ("quad", 4)}


def scenario(rng, ident, big):
    while True:
        rec = c06.plane(rng, ident, big)
        if rec["fam"] in TAGS and [-1, -1] in rec["cons"]:
            break
    low = rng.choice([1, 1, 7, 100])
    script = blocks(rng, rec, low) + held(rng, rec) + loaded(rng, rec)
    renumber(rng, rec, script, low)
    return rec


def blocks(rng, rec, low):
    """Elements in physical groups, two of which may share a material."""
    ngrp = rng.choice([1, 1, 2, 3])
    nmat = len(rec["mats"])
    group_mat = [rng.randrange(nmat) for _ in range(ngrp)]
    cells = rec.pop("conn")
    where = [rng.randrange(ngrp) for _ in cells]
    order = rng.sample(range(ngrp), ngrp)
    rec["conn"] = [c for g in order for c, w in zip(cells, where) if w == g]
    rec["mat"] = [group_mat[g] for g in order for w in where if w == g]
    rec["cells"], rec["cphys"] = cells, [low + w for w in where]
    rec["first"] = rng.choice([0, 0, 1, 40])
    # the written type is the one of the family
    ty = rec["types"][0]
    return [{"op": "block", "phys": low + g, "ty": ty, "mat": group_mat[g]}
            for g in order]


def held(rng, rec):
    """Support calls: a later call has the last word on shared nodes."""
    rec["lines"], rec["lphys"] = [], []
    pats = {}
    for node, row in enumerate(rec["cons"]):
        pats.setdefault(tuple(row), []).append(node)
    order = [p for p in pats if p != (0, 0)]
    rng.shuffle(order)
    if (0, 0) in pats and rng.random() < .3:
        order.insert(rng.randrange(len(order) + 1), (0, 0))
    # free nodes may only be touched by calls before the freeing one
    late = {p: k for k, p in enumerate(order)}
    ops = []
    for k, pat in enumerate(order):
        mine = rng.sample(pats[pat], len(pats[pat]))
        after = [n for q, nodes in pats.items()
                 if late.get(q, -1) > k for n in nodes]
        chain = mine + rng.sample(after, min(len(after), rng.randrange(3)))
        rng.shuffle(chain)
        if len(chain) == 1:
            chain = chain*2
        add_line(rec, chain, "bc", len(ops), rng)
        ops.append({"op": "bc", "to": list(pat)})
    return ops


def loaded(rng, rec):
    """Groups of several nodes, then one for every node that is free."""
    held_all = [n for n, r in enumerate(rec["cons"]) if r == [-1, -1]]
    free = [n for n, r in enumerate(rec["cons"]) if r != [-1, -1]]
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        many = rng.sample(range(len(rec["nodes"])),
                          rng.randrange(2, len(rec["nodes"]) + 1))
        add_line(rec, many, "load", len(ops), rng)
        ops.append({"op": "load"})
    for node in rng.sample(free, len(free)):
        chain = [node] + rng.sample(held_all,
                                    rng.randrange(1, min(len(held_all), 3)
                                                  + 1))
        add_line(rec, chain, "load", len(ops), rng)
        ops.append({"op": "load"})
    return ops


def add_line(rec, chain, kind, num, rng):
    pairs = list(zip(chain, chain[1:]))
    if len(chain) > 2 and rng.random() < .4:     # closed or branched lines
        pairs.append((chain[-1], rng.choice(chain[:-1])))
    for pair in pairs:
        rec["lines"].append(list(pair) if rng.random() < .5
                            else list(pair)[::-1])
        rec["lphys"].append((kind, num))


def renumber(rng, rec, script, low):
    """Group numbers of the lines; the lines in any order."""
    names = sorted(set(rec["lphys"]))
    nums = rng.sample(range(low, low + 2*len(names) + 3), len(names))
    which = dict(zip(names, nums))
    count = {"bc": 0, "load": 0}
    for step in script:
        if step["op"] in count:
            step["phys"] = which[step["op"], count[step["op"]]]
            count[step["op"]] += 1
    order = rng.sample(range(len(rec["lines"])), len(rec["lines"]))
    rec["lines"] = [rec["lines"][k] for k in order]
    rec["lphys"] = [which[rec["lphys"][k]] for k in order]
    # loads and supports in any order: they touch different tables
    sup = [s for s in script if s["op"] == "bc"]
    rest = [s for s in script if s["op"] == "load"]
    blk = [s for s in script if s["op"] == "block"]
    mixed = []
    while sup or rest or blk:
        part = rng.choice([p for p in (sup, rest, blk) if p])
        mixed.append(part.pop(0))
    rec["script"] = mixed


def run(ctx):
    gui = importlib.import_module("solidspy.solids_GUI")
    import solidspy.preprocesor as pre
    rng = ctx.rng
    num, big = ctx.pick((70, 3), (900, 60))
    scen = [scenario(rng, k, k >= num) for k in range(num + big)]
    res = ctx.tlc("Build", scenarios=scen)
    for rec in scen:
        one(ctx, gui, pre, rec, res.json(f"bu{rec['id']}"))
    ctx.sample({k: scen[0][k] for k in ("fam", "nodes", "cells", "cphys",
                                        "script")})


def one(ctx, gui, pre, rec, spec):
    rng = ctx.rng
    mats = c06.moduli(rng, rec)
    size = rng.choice([1., 1., .001, 250.])
    amp = rng.choice([1., 1., 1e-4])
    forces = c06.nodal_forces(rec, spec, mats)*amp
    top = np.abs(forces).max() or mats[0, 0]*amp
    tag, wide = TAGS[rec["fam"]]
    points = np.array(rec["nodes"], float)*size
    points = np.hstack([points, rng.choice([0., 3.])*np.ones((len(points),
                                                              1))])
    cells = {tag: np.array(rec["cells"]), "line": np.array(rec["lines"])}
    data = {tag: {"gmsh:physical": np.array(rec["cphys"])},
            "line": {"gmsh:physical": np.array(rec["lphys"])}}
    if rng.random() < .3:            # points as groups, never imported
        cells["vertex"] = np.array([[0], [1]])
        data["vertex"] = {"gmsh:physical": np.array([1, 2])}
    want = np.array(rec["u"], float)*amp
    info = {"points": points, "cells": cells, "data": data,
            "script": rec["script"], "mats": mats}
    ctx.trace()
    ctx.count(rec["fam"])
    rows, sums = amounts(rng, spec, forces, top)

    def build():
        nodes = pre.node_writer(points, {})
        parts, loads = [], []
        nini = rec["first"]
        amount = iter(rows)
        for step in rec["script"]:
            if step["op"] == "block":
                nini, arr = pre.ele_writer(cells, data, tag, step["phys"],
                                           step["ty"], step["mat"], nini)
                parts.append(arr)
            elif step["op"] == "bc":
                nodes = pre.boundary_conditions(cells, data, step["phys"],
                                                nodes, *step["to"])
            else:
                loads.append(pre.loading(cells, data, step["phys"],
                                         *next(amount)))
        return nodes, np.vstack(parts), np.vstack(loads)
    got = u.call(build)
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    nodes, eles, loads = got.val
    if not u.safe(lambda: np.array_equal(eles, spec["table"])):
        ctx.fail("elements", dict(info, spec=spec["table"], code=eles))
        return
    if not u.safe(lambda: np.array_equal(nodes[:, 3:], spec["flags"])):
        ctx.fail("flags", dict(info, spec=spec["flags"], code=nodes))
        return
    total = np.zeros_like(forces)
    if not u.safe(lambda: [np.add.at(total, loads[:, 0].astype(int),
                                     loads[:, 1:])]) or \
            not u.close(total, sums, 8*top, 1e-9):
        ctx.fail("loads", dict(info, spec=sums, code=loads))
        return
    if rng.random() < .5:
        how = "auto"
        got = u.call(gui.solids_auto, {
            "nodes": nodes[:, :3], "cons": nodes[:, 3:], "elements": eles,
            "mats": mats, "loads": loads}, plot_contours=False)
    else:
        how = "files"
        folder = os.path.join(ctx.subdir("models"), str(rec["id"]))
        c06.write(rng, folder, nodes, eles, mats, loads)
        got = u.call(gui.solids_GUI, plot_contours=False, folder=folder)
    scale = np.abs(want).max()
    tol = 1e-8*scale if scale else 1e-9*amp
    if got.err or not u.close(got.val, want, 1., tol):
        ctx.fail("displacements", dict(info, how=how, err=got.err, spec=want,
                                       code=u.safe_dense(got.val)))


def amounts(rng, spec, forces, top):
    """Totals to hand to each load group, and the nodal sums they make."""
    sums = np.zeros_like(forces)
    rows = [None]*len(spec["given"])
    flags = spec["flags"]
    last = {}
    for k, group in enumerate(spec["given"]):
        free = [n - 1 for n in group if flags[n - 1] != [-1, -1]]
        if len(free) == 1:
            last[free[0]] = k            # this group finishes the node
    for k, group in enumerate(spec["given"]):
        if k not in last.values():
            tot = np.array([rng.choice([0, 1., -2.5, 7.])*top
                            for _ in range(2)])
            rows[k] = tot
            sums[[n - 1 for n in group]] += tot/len(group)
    for node, k in last.items():
        group = spec["given"][k]
        tot = (forces[node] - sums[node])*len(group)
        rows[k] = tot
    for node, k in last.items():
        group = spec["given"][k]
        sums[[n - 1 for n in group]] += rows[k]/len(group)
    return rows, sums
