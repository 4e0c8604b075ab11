"""C30: models of user-supplied elements return the manufactured solution."""
import itertools
import numpy as np
from harness import c06
from harness import c29
from harness import meshes as ms
from harness import util as u
from harness.c11 import HEX, hex_dets

POISSON = [(0, 1), (1, 4), (-1, 4), (1, 3), (-1, 2), (3, 10), (2, 5)]
UEL = {"quad8": ("elast_quad8", 16), "tet4": ("elast_tet4", 12),
       "hex8": ("elast_hex8", 24)}


def quad8(rng, ident, big):
    while True:
        rec = c06.plane(rng, ident, big)
        if rec["fam"] != "quad9" or not rec["lin"]:
            continue
        keep = sorted({c for row in rec["conn"] for c in row[:8]})
        new = {c: k for k, c in enumerate(keep)}
        cons = [rec["cons"][c] for c in keep]
        fixed = [k for k, row in enumerate(cons) if row == [-1, -1]]
        others = [k for k, row in enumerate(cons) if -1 in row]
        if not fixed or len(others) < 2:
            continue
        rec.update(fam="quad8", cons=cons, nodes=[rec["nodes"][c]
                                                  for c in keep],
                   u=[rec["u"][c] for c in keep],
                   conn=[[new[c] for c in row[:8]] for row in rec["conn"]])
        if stiff_enough(rec):
            return rec


def stiff_enough(rec):
    """The supports leave no rigid motion (rotation well restrained)."""
    pts = np.array(rec["nodes"], float)
    dim = pts.shape[1]
    pts = pts - pts.mean(axis=0)
    pts = pts/np.abs(pts).max()
    cols = []
    for c in range(dim):
        mot = np.zeros_like(pts)
        mot[:, c] = 1
        cols.append(mot.ravel())
    for a, b in itertools.combinations(range(dim), 2):
        mot = np.zeros_like(pts)
        mot[:, a], mot[:, b] = pts[:, b], -pts[:, a]
        cols.append(mot.ravel())
    held = np.array(rec["cons"]).ravel() == -1
    mat = np.array(cols).T[held]
    return mat.shape[0] >= mat.shape[1] and \
        np.linalg.svd(mat, compute_uv=False)[-1] > .15


def lattice(rng, top):
    size = [rng.randrange(1, top + 1) for _ in range(3)]
    num = {}
    pts = []
    for ijk in itertools.product(*(range(n + 1) for n in size)):
        num[ijk] = len(pts)
        pts.append([2*v for v in ijk])
    cells = [[num[i + (c[0] + 1)//2, j + (c[1] + 1)//2, k + (c[2] + 1)//2]
              for c in HEX.astype(int)]
             for i, j, k in itertools.product(*(range(n) for n in size))]
    return size, num, np.array(pts), cells


TETS = [[0, 1, 2, 6], [0, 2, 3, 6], [0, 3, 7, 6], [0, 7, 4, 6], [0, 4, 5, 6],
        [0, 5, 1, 6]]


def solid(rng, ident, big):
    fam = rng.choice(["tet4", "hex8"])
    while True:
        _, _, ref, cells = lattice(rng, 3 if big else 2)
        low = np.array(rng.choice([
            [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [0, 1, 0],
                                                [0, 0, 2]],
            [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[2, 0, 1], [0, 1, 0],
                                                 [-1, 0, 1]],
            [[1, 0, 1], [1, 1, 0], [0, 1, 1]]]))
        pts = ref @ low.T
        conn = [[c[k] for k in tet] for c in cells for tet in TETS] \
            if fam == "tet4" else cells
        if rng.random() < .6:                    # moved nodes
            pts = 2*pts + np.array([[rng.randrange(-1, 2) for _ in range(3)]
                                    for _ in pts])
        arr = pts.astype(float)
        if fam == "tet4":
            vols = [np.linalg.det(arr[row[1:]] - arr[row[0]]) for row in conn]
            ok = min(vols) > .3*max(vols)
        else:
            dets = np.array([hex_dets(arr[row]) for row in conn])
            ok = dets.min() > .3*dets.max()
        if not ok:
            continue
        cons = [[0, 0, 0] for _ in pts]
        org = np.array([rng.randrange(-6, 7) for _ in range(3)])
        if fam == "tet4":
            lin = []
            row = rng.choice(conn)
            for node in rng.sample(row, 3):
                cons[node] = [-1, -1, -1]
            for node in range(len(pts)):
                if rng.random() < .15:
                    cons[node] = [rng.choice([0, -1]) for _ in range(3)]
            disp = [[0 if c == -1 else rng.randrange(-3, 4) for c in r]
                    for r in cons]
        else:                    # the plane of three nodes stays in place
            one, two, three = rng.sample(rng.choice(conn), 3)
            nor = np.cross(pts[two] - pts[one], pts[three] - pts[one])
            nor = nor//max(np.gcd.reduce(nor), 1)
            if not np.any(nor) or np.abs(nor).max() > 4:
                continue
            amp = np.array([rng.randrange(-2, 3) for _ in range(3)])
            lin = np.outer(amp, nor).tolist()
            disp = [[int(a*(nor @ (p - pts[one]))) for a in amp] for p in pts]
            for node in (one, two, three):
                cons[node] = [-1, -1, -1]
            for node, row in enumerate(disp):
                for c in range(3):
                    if row[c] == 0 and rng.random() < .4:
                        cons[node][c] = -1
        pts = pts + org
        perm = rng.sample(range(len(pts)), len(pts))
        where = {o: k for k, o in enumerate(perm)}
        rng.shuffle(conn)
        nmat = rng.choice([1, 2])
        rec = {"id": ident, "fam": fam, "lin": lin,
               "nodes": [pts[o].tolist() for o in perm],
               "cons": [cons[o] for o in perm], "u": [disp[o] for o in perm],
               "conn": [[where[c] for c in row] for row in conn],
               "mats": [list(rng.choice(POISSON)) for _ in range(nmat)],
               "mat": [rng.randrange(nmat) for _ in conn]}
        if any(0 in r for r in rec["cons"]) and stiff_enough(rec):
            return rec


def stress(dim, young, nu, grad):
    eps = (grad + grad.T)/2
    if dim == 2:
        return young/(1 - nu**2)*((1 - nu)*eps + nu*np.trace(eps)*np.eye(2))
    return young/(1 + nu)*(eps + nu/(1 - 2*nu)*np.trace(eps)*np.eye(3))


def solve(ass, sol, pos, uel, rec, data, sparse):
    dim = data["cons"].shape[1]
    size = UEL[rec["fam"]][1]
    kwargs = {"ndof_node": dim, "ndof_el_max": max(size, 18),
              "ndof_el": lambda iet: size}
    oper, table, neq = ass.DME(data["cons"].copy(), data["eles"], **kwargs)
    stiff, mass = ass.assembler(data["eles"], data["mats"], data["nodes"],
                                neq, oper, sparse=sparse, uel=uel)
    rhs = ass.loadasem(data["loads"], table, neq, ndof_node=dim)
    unk = sol.static_sol(stiff, rhs)
    full = pos.complete_disp(table, data["nodes"], unk, ndof_node=dim)
    # the unsupported model
    oper, table, neq = ass.DME(np.zeros_like(data["cons"]), data["eles"],
                               **kwargs)
    stiff, mass = ass.assembler(data["eles"], data["mats"], data["nodes"],
                                neq, oper, sparse=not sparse, uel=uel)
    return full, stiff, mass


def last_columns(uel, lead):
    """A routine of the user that keeps other data in front."""
    def routine(coord, params):
        return uel(coord, params[lead:])
    return routine


def run(ctx):
    import solidspy.assemutil as ass
    import solidspy.solutil as sol
    import solidspy.postprocesor as pos
    import solidspy.uelutil as uel
    rng = ctx.rng
    num, big = ctx.pick((54, 3), (600, 60))
    scen = [(quad8 if rng.random() < .3 else solid)(rng, k, k >= num)
            for k in range(num + big)]
    res = ctx.tlc("Space", scenarios=scen)
    for rec in scen:
        one(ctx, ass, sol, pos, uel, rec, res.json(f"sp{rec['id']}"))
    ctx.sample({k: scen[0][k] for k in ("fam", "nodes", "conn", "cons", "u")})


def one(ctx, ass, sol, pos, uel, rec, spec):
    rng = ctx.rng
    dim = len(rec["nodes"][0])
    size = rng.choice([1., 1., .01, 40.])
    amp = rng.choice([1., 1., 1e-5])
    base = rng.choice([1., 2e11, 3.5])
    mats = np.array([[base*rng.choice([1, 1, 2]), p/q, rng.uniform(1, 9)]
                     for p, q in rec["mats"]])
    force = np.zeros((len(rec["nodes"]), dim))
    volume = np.zeros(len(rec["conn"]))
    for node, box in enumerate(spec["inbox"]):
        for ele, vec in box:
            row = mats[rec["mat"][ele]]
            grad = np.array(spec["grads"][ele]["num"], float)
            grad *= amp/size/spec["grads"][ele]["den"]
            vec = np.array(vec, float)/spec["fden"]*size**(dim - 1)
            force[node] += stress(dim, row[0], row[1], grad) @ vec
            volume[ele] += vec[0]*(rec["nodes"][node][0] - rec["nodes"][
                rec["conn"][ele][0]][0])*size
    want = np.array(rec["u"], float)*amp
    cons = np.array(rec["cons"])
    types = rng.choice([[1], [9], [21, 40]])
    eles = np.array([[k, rng.choice(types), m] + c for k, m, c in
                     zip(ms.idents(rng, len(rec["conn"])), rec["mat"],
                         rec["conn"])])
    xyz = np.array(rec["nodes"], float)*size
    nodes = np.hstack([np.array(ms.idents(rng, len(xyz)))[:, None], xyz])
    wide = mats                 # the routine's own columns may be the last
    lead = rng.choice([0, 0, 2, 4])
    uel = getattr(uel, UEL[rec["fam"]][0])
    if lead:
        wide = np.hstack([np.array([[rng.uniform(-5, 5) for _ in range(lead)]
                                    for _ in mats]), mats])
        uel = last_columns(uel, lead)
    data = {"cons": cons, "mats": wide, "nodes": nodes, "eles": eles,
            "loads": c29.rows(rng, cons, force)}
    if data["loads"].shape[1] != dim + 1:
        data["loads"] = np.zeros((1, dim + 1))
    info = dict(data, fam=rec["fam"], u=want)
    ctx.trace()
    ctx.count(rec["fam"])
    got = u.call(solve, ass, sol, pos, uel, rec, data, rng.random() < .6)
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    full, stiff, mass = got.val
    scale = np.abs(want).max() or amp
    if not u.close(full, want, scale, 1e-7):
        ctx.fail("displacements", dict(info, code=u.safe_dense(full)))
    out = u.call(lambda: (u.dense(stiff) @ want.ravel()).reshape(-1, dim))
    if out.err or not u.close(out.val, force, np.abs(force).max()
                              or base*amp, 1e-8):
        ctx.fail("forces", dict(info, spec=force, code=out.val))
    # a unit acceleration of the whole model moves its whole mass
    total = np.sum(volume*mats[rec["mat"], 2])
    lumped = u.call(lambda: u.dense(mass).reshape(
        len(xyz), dim, len(xyz), dim).sum(axis=(0, 2)))
    if lumped.err or not u.close(lumped.val, total*np.eye(dim), total, 1e-8):
        ctx.fail("mass", dict(info, spec=total, code=lumped.val))
