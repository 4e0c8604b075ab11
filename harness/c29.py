"""C29: analyses of frames and beams return the manufactured solution."""
import numpy as np
from harness import meshes as ms
from harness import util as u


def tree(rng, ident, big):
    """Members with axial deformation grow a tree from the supports."""
    num = rng.randrange(2, 40 if big else 9)
    pts = [[rng.randrange(-20, 21), rng.randrange(-20, 21)]]
    cons = [[-1, -1, -1]]
    conn, types = [], []
    while len(pts) < num:
        new = [rng.randrange(-20, 21), rng.randrange(-20, 21)]
        if rng.random() < .4:
            new[rng.randrange(2)] = pts[-1][rng.randrange(2)]
        old = rng.randrange(len(pts))
        gap = np.hypot(new[0] - pts[old][0], new[1] - pts[old][1])
        if new in pts or not 3 < gap < 25:
            continue
        pts.append(new)
        conn.append(rng.choice([[old, len(pts) - 1], [len(pts) - 1, old]]))
        types.append(8)
        cons.append(rng.choice([[0, 0, 0]]*4 + [
            [-1, 0, 0], [0, -1, 0], [0, 0, -1], [-1, -1, 0], [-1, -1, -1]]))
        if rng.random() < .4:
            old = rng.randrange(len(pts) - 1)
            conn.append([len(pts) - 1, old])
            types.append(rng.choice([7, 8, 8]))
    return pts, cons, conn, types


def line(rng):
    """A continuous beam along an axis: every axial motion is restrained."""
    axis = rng.randrange(2)
    num = rng.randrange(2, 9)
    org = [rng.randrange(-20, 21), rng.randrange(-20, 21)]
    pts, cons = [], []
    at = 0
    for _ in range(num):
        pts.append([org[0] + at*(1 - axis), org[1] + at*axis])
        row = [0, 0, 0]
        row[axis] = -1
        cons.append(row)
        at += rng.choice([1, 2, 3, 5, 8])
    if rng.random() < .5:                    # clamped somewhere
        cons[rng.randrange(num)] = [-1, -1, -1]
    else:                                    # at least two supports
        for k in rng.sample(range(num), 2):
            cons[k][1 - axis] = -1
    for row in cons:
        if rng.random() < .15:
            row[rng.choice([1 - axis, 2])] = -1
    conn = [rng.choice([[k, k + 1], [k + 1, k]]) for k in range(num - 1)]
    kind = rng.choice([[7], [7], [7, 8]])
    return pts, cons, conn, [rng.choice(kind) for _ in conn]


def scenario(rng, ident, big):
    while True:
        pts, cons, conn, types = (line(rng) if rng.random() < .35
                                  else tree(rng, ident, big))
        if any(0 in row for row in cons):
            break
    num = len(pts)
    perm = rng.sample(range(num), num)
    where = {o: k for k, o in enumerate(perm)}
    pts = [pts[o] for o in perm]
    cons = [cons[o] for o in perm]
    conn = [[where[c] for c in row] for row in conn]
    order = rng.sample(range(len(conn)), len(conn))
    disp = [[0 if c == -1 else rng.randrange(-9, 10) for c in row]
            for row in cons]
    nmat = rng.choice([1, 2, 3])
    return {"id": ident, "nodes": pts, "cons": cons, "u": disp,
            "conn": [conn[k] for k in order],
            "types": [types[k] for k in order],
            "mat": [rng.randrange(nmat) for _ in order], "nmat": nmat}


def sections(rng, rec, size):
    """(modulus, second moment, area) rows that suit both element types."""
    wide = rng.choice([3, 3, 4])
    base = rng.choice([1., 1., 2e11, 3.5])
    thin = rng.choice([1., 1., 1., 1e-3])        # slender members
    return np.array([[base*rng.choice([1, 2]), size**2*rng.uniform(.5, 20)*thin,
                      rng.uniform(.5, 4), rng.uniform(1, 9)][:wide]
                     for _ in range(rec["nmat"])])


def held(rec, spec, mats, size, amp):
    """Sums of the end forces each node receives from the specification."""
    out = np.zeros((len(rec["nodes"]), 3))
    for node, box in enumerate(spec["inbox"]):
        for end in box:
            young, inert, area = mats[rec["mat"][end["e"]], :3]
            length = np.sqrt(end["l2"])
            axial = young*area*amp/size/length**3
            bend = young*inert*amp/size**3/length**5
            for c in range(2):
                out[node, c] += axial*end["ax"][c] + bend*end["sh"][c]
            out[node, 2] += young*inert*amp/size**2/length**3*end["mo"]
    return out


def solve(ass, sol, pos, rec, data, sparse):
    """The documented building blocks, one after the other."""
    oper, table, neq = ass.DME(data["cons"].copy(), data["eles"], ndof_node=3)
    stiff, mass = ass.assembler(data["eles"], data["mats"], data["nodes"],
                                neq, oper, sparse=sparse)
    rhs = ass.loadasem(data["loads"], table, neq, ndof_node=3)
    unk = sol.static_sol(stiff, rhs)
    return {"u": pos.complete_disp(table, data["nodes"], unk, ndof_node=3),
            "energy": pos.energy(unk, stiff), "work": rhs @ unk,
            "neq": neq, "table": table}


def free_forces(ass, data, disp):
    """Nodal forces, reactions included, of the unsupported model."""
    cons = np.zeros_like(data["cons"])
    oper, table, neq = ass.DME(cons, data["eles"], ndof_node=3)
    stiff, _ = ass.assembler(data["eles"], data["mats"], data["nodes"], neq,
                             oper)
    return (stiff @ disp.ravel()).reshape(-1, 3)


def run(ctx):
    import solidspy.assemutil as ass
    import solidspy.solutil as sol
    import solidspy.postprocesor as pos
    rng = ctx.rng
    num, big = ctx.pick((120, 6), (2000, 150))
    scen = [scenario(rng, k, k >= num) for k in range(num + big)]
    res = ctx.tlc("Frames", scenarios=scen)
    for rec in scen:
        one(ctx, ass, sol, pos, rec, res.json(f"fr{rec['id']}"))
    ctx.sample({k: scen[0][k] for k in ("nodes", "conn", "types", "cons",
                                        "u")})


def one(ctx, ass, sol, pos, rec, spec):
    rng = ctx.rng
    size = rng.choice([1., 1., .01, 40., 2.**-18, 1e5])
    amp = rng.choice([1., 1., 1e-5])
    mats = sections(rng, rec, size)
    units = np.array([amp, amp, amp/size])
    force = held(rec, spec, mats, size, amp)
    want = np.array(rec["u"], float)*units
    cons = np.array(rec["cons"])
    loads = rows(rng, cons, force)
    place = np.zeros(2)
    if size != .01 and rng.random() < .3:   # far from the origin, exactly
        place = np.array([rng.choice([-1, 1])*2.**rng.randrange(8, 17)
                          for _ in place])
    data = {"cons": cons, "mats": mats, "loads": loads,
            "nodes": ms.node_table(rng, (np.array(rec["nodes"], float)
                                         + place)*size),
            "eles": np.array([[k, t, m] + c for k, t, m, c in zip(
                ms.idents(rng, len(rec["conn"])), rec["types"], rec["mat"],
                rec["conn"])])}
    info = dict(data, u=want)
    ctx.trace()
    ctx.count("beams" if 7 in rec["types"] and 8 not in rec["types"]
              else "frames" if 7 not in rec["types"] else "mixed")
    scale = np.abs(want/units).max() or 1.
    for sparse in (True, False):
        got = u.call(solve, ass, sol, pos, rec, data, sparse)
        info["sparse"] = sparse
        if got.err:
            ctx.fail("raised", dict(info, err=got.err))
            continue
        if not u.safe(lambda: got.val["neq"] == spec["neq"] and np.array_equal(
                np.asarray(got.val["table"]), spec["eqn"])):
            ctx.fail("numbering", info)
        if not u.safe(lambda: u.close(np.asarray(got.val["u"])/units,
                                      want/units, scale, 1e-7)):
            ctx.fail("displacements", dict(info, code=got.val["u"]))
        elif not u.safe(lambda: abs(got.val["energy"] + .5*got.val["work"])
                        <= 1e-7*np.sum(np.abs(force*want)) + 1e-300):
            ctx.fail("energy", dict(info, code=got.val["energy"]))
    got = u.call(free_forces, ass, data, want)
    top = np.array([np.abs(force[:, :2]).max(), np.abs(force[:, :2]).max(),
                    np.abs(force[:, 2]).max()])
    top = np.maximum(top, np.max(top*[1, 1, 1/size])*np.array([1, 1, size]))
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
    elif not u.safe(lambda: got.val.shape == force.shape and np.all(
            np.abs(got.val - force) <= 1e-8*top + 1e-300)):
        ctx.fail("reactions", dict(info, spec=force, code=got.val))


def rows(rng, cons, force):
    """Load rows in any order, split, with anything on restrained parts."""
    out = []
    for node, row in enumerate(force):
        row = np.where(cons[node] == -1, rng.choice([0., 1.])*row
                       + rng.uniform(-1, 1)*np.abs(force).max(), row)
        if rng.random() < .25:
            part = row*rng.choice([.5, .25, -1.])
            out.append([node, *part])
            row = row - part
        if rng.random() < .25:               # the last component apart
            out += [[node, *row[:-1], 0.], [node, *(0.*row[:-1]), row[-1]]]
        elif np.any(row):
            out.append([node, *row])
    rng.shuffle(out)
    return np.array(out or [[0, 0, 0, 0]], float)
