"""C33: the stiffness resists every deformation, and nothing else."""
import itertools
import numpy as np
from harness import elements as el
from harness import meshes as ms
from harness import util as u
from harness.c11 import HEX, hex_dets
from harness.c30 import TETS, UEL

PRIMES = (32749, 32719)
ANCHORS = {"tri3": [1, 2, 3], "tri6": [1, 2, 3], "quad4": [1, 2, 3],
           "quad9": [1, 2, 3], "quad8": [1, 2, 3], "tet4": [1, 2, 3, 4],
           "hex8": [1, 2, 4, 5]}
POISSON = [0., .25, -.25, 1/3, -.5, .3, .4, .45, .49, -.9]


def plane(rng, big):
    """A plane mesh with missing elements: hinges, islands, loose nodes."""
    fam = rng.choice(["tri3", "tri3", "quad4", "quad4", "tri6", "quad9",
                      "quad8"])
    top = {"tri3": 4, "quad4": 4, "tri6": 2, "quad9": 2, "quad8": 2}[fam]
    while True:
        curve = rng.choice([0, 0, 1]) \
            if fam in ("tri6", "quad9", "quad8") else 0
        pts, conn = ms.grid(rng, "quad9" if fam == "quad8" else fam,
                            rng.randrange(1, top + 2*big),
                            rng.randrange(1, top + big), curve=curve)
        arr = np.array(pts, float)
        if fam == "quad8":
            conn = [row[:8] for row in conn]
        if not all(el.jacobian_ok(None, fam, arr[row], .1) for row in conn):
            continue
        how = rng.random()
        if how < .35:
            keep = conn
        elif how < .7:
            keep = [c for c in conn if rng.random() < .6]
        else:                    # a checkerboard hangs on its corners
            cut = rng.randrange(2)
            mid = np.array([[pts[c][k] for c in row] for row in conn
                            for k in range(2)]).reshape(len(conn), 2, -1)
            cell = np.floor(mid.mean(axis=2)/8).sum(axis=1)
            keep = [c for c, z in zip(conn, cell) if z % 2 == cut]
        if keep:
            break
    conn = keep
    used = sorted({c for row in conn for c in row})
    if rng.random() < .7:                        # drop the loose nodes
        new = {c: k for k, c in enumerate(used)}
        pts = [pts[c] for c in used]
        conn = [[new[c] for c in row] for row in conn]
    return fam, pts, conn


def bars(rng, big):
    """Random trusses, statically determinate or not."""
    num = rng.randrange(2, 16 if big else 9)
    pts = []
    span = rng.choice([2, 4, 10])
    while len(pts) < num:
        new = [rng.randrange(span*2), rng.randrange(span*2)]
        if new not in pts:
            pts.append(new)
        if len(pts) >= 4*span*span:
            break
    if rng.random() < .3:                # nearly parallel members
        axis, far = rng.randrange(2), 10**rng.randrange(1, 8)
        pts = [[v*far if k == axis else v for k, v in enumerate(p)]
               for p in pts]
    pairs = list(itertools.combinations(range(len(pts)), 2))
    rng.shuffle(pairs)
    pairs = pairs[:rng.randrange(1, max(2, min(len(pairs),
                                               2*len(pts)) + 1))]
    conn = [rng.choice([[a, b], [b, a]]) for a, b in pairs]
    conn += [rng.choice(conn)[::-1] for _ in range(rng.choice([0, 0, 1]))]
    return "bars", pts, conn


def frame(rng, big):
    num = rng.randrange(2, 12 if big else 7)
    pts = []
    while len(pts) < num:
        new = [rng.randrange(8), rng.randrange(8)]
        if new not in pts:
            pts.append(new)
    pairs = list(itertools.combinations(range(num), 2))
    rng.shuffle(pairs)
    pairs = pairs[:rng.randrange(1, min(len(pairs), num + 2) + 1)]
    return "frame", pts, [rng.choice([[a, b], [b, a]]) for a, b in pairs]


def solid(rng, big):
    fam = rng.choice(["tet4", "hex8"])
    size = rng.choice([(1, 1, 1), (2, 1, 1), (1, 2, 1)] + [(2, 1, 2)]*big)
    while True:
        num = {}
        pts = []
        for ijk in itertools.product(*(range(n + 1) for n in size)):
            num[ijk] = len(pts)
            pts.append([4*v + rng.randrange(-1, 2) for v in ijk])
        cells = [[num[i + (c[0] + 1)//2, j + (c[1] + 1)//2,
                      k + (c[2] + 1)//2] for c in HEX.astype(int)]
                 for i, j, k in itertools.product(*(range(n) for n in size))]
        arr = np.array(pts, float)
        if fam == "hex8":
            dets = np.array([hex_dets(arr[row]) for row in cells])
            if dets.min() < .3*dets.max():
                continue
            conn = cells
        else:
            conn = [[c[k] for k in tet] for c in cells for tet in TETS]
            vols = [np.linalg.det(arr[r[1:]] - arr[r[0]]) for r in conn]
            if min(vols) < .2*max(vols):
                continue
        keep = [c for c in conn if rng.random() < .8]
        if keep:
            return fam, pts, keep


def supports(rng, num, wide):
    how = rng.random()
    if how < .25:
        dense = 0.
    elif how < .5:
        dense = rng.choice([.05, .1, .3])
    else:
        dense = None
    cons = [[0]*wide for _ in range(num)]
    if dense is None:                    # a few supported nodes
        firm = rng.random() < .4
        for k in rng.sample(range(num), min(num, rng.choice([1, 2, 2, 3]))):
            cons[k] = [-1 if firm else rng.choice([0, -1, -1])
                       for _ in range(wide)]
    else:
        cons = [[-1 if rng.random() < dense else 0 for _ in range(wide)]
                for _ in range(num)]
    return cons


def scenario(rng, ident, big):
    while True:
        how = rng.random()
        make = plane if how < .42 else bars if how < .68 else \
            frame if how < .87 else solid
        fam, pts, conn = make(rng, big)
        dim = len(pts[0])
        wide = 3 if fam == "frame" else dim
        cons = supports(rng, len(pts), wide)
        free = sum(row.count(0) for row in cons)
        if not 1 <= free <= (90 if big else 52):
            continue
        if fam == "bars":
            types = [rng.choice([5, 6]) for _ in conn]
            kinds = ["bar"]*len(conn)
        elif fam == "frame":
            types = [rng.choice([7, 8, 8]) for _ in conn]
            kinds = ["beamu" if t == 7 else "beam" for t in types]
        else:
            types = [ms.TYPES.get(fam, 1)]*len(conn)
            kinds = ["rigid"]*len(conn)
        return {"id": ident, "dim": dim, "fam": fam, "nodes": pts,
                "cons": cons, "conn": conn, "kinds": kinds, "types": types,
                "anchors": ANCHORS.get(fam, [1, 2]), "turns": wide > dim}


def materials(rng, fam):
    num = rng.choice([1, 2, 3])
    base = rng.choice([1., 1., 2e11, 1e-9, 40.])
    rho = rng.choice([1., 1., 7.8e3])
    rows = []
    for _ in range(num):
        young = base*rng.choice([1., 2., 3.])
        if fam == "bars":
            rows.append([young, rng.choice([1., 2., .5]),
                         rho*rng.choice([1, 2])])
        elif fam == "frame":
            rows.append([young, rng.choice([1., 3., .5]),
                         rho*rng.choice([1, 2]), rng.choice([1., 2.])])
        else:
            rows.append([young, rng.choice(POISSON), rho*rng.choice([1, 2])])
    return np.array(rows)


def spectrum(mat):
    """Eigenvalues of the matrix with its diagonal scaled to one."""
    diag = np.diag(mat).copy()
    if np.any(diag < 0) or not np.all(np.isfinite(mat)):
        return None
    diag[diag == 0] = 1.
    sca = 1/np.sqrt(diag)
    return np.linalg.eigvalsh(sca[:, None]*mat*sca)


def symmetric(mat):
    """Symmetric to rounding, relative to the two directions involved."""
    size = np.sqrt(np.abs(np.diag(mat)))
    return bool(np.all(np.isfinite(mat)) and np.all(
        np.abs(mat - mat.T) <= 1e-9*np.outer(size, size)))


def nulls(vals):
    """Fewest and most zero eigenvalues, allowing for rounding."""
    return int(np.sum(np.abs(vals) < 1e-12)), int(np.sum(vals < 1e-9))


def run(ctx):
    import solidspy.assemutil as ass
    import solidspy.uelutil as uel
    rng = ctx.rng
    num, big = ctx.pick((300, 20), (5000, 600))
    scen = [scenario(rng, k, k >= num) for k in range(num + big)]
    res = ctx.tlc("Mechanisms", scenarios=scen)
    for rec in scen:
        both = [res.json(f"me{rec['id']}_{p}") for p in PRIMES]
        spec = max(both, key=lambda r: r["rank"])
        one(ctx, ass, uel, rec, spec)
    ctx.sample({k: scen[0][k] for k in ("fam", "nodes", "conn", "types",
                                        "cons")})


def one(ctx, ass, uel, rec, spec):
    rng = ctx.rng
    fam = rec["fam"]
    size = rng.choice([1., 1., 1e-3, 512., .37])
    nodes = ms.node_table(rng, np.array(rec["nodes"], float)*size)
    mats = materials(rng, fam)
    ids = ms.idents(rng, len(rec["conn"]))
    eles = np.array([[ids[k], rec["types"][k], rng.randrange(len(mats))] + row
                     for k, row in enumerate(rec["conn"])], dtype=int)
    cons = np.array(rec["cons"], dtype=rng.choice([int, float]))
    info = {"family": fam, "nodes": nodes, "elements": eles, "mats": mats,
            "cons": cons, "spec": spec}
    kwd, other = {}, {}
    if fam in UEL:
        name, ndof = UEL[fam]
        kwd = {"ndof_el": lambda _: ndof,
               "ndof_el_max": ndof + rng.choice([0, 0, 5])}
        other = {"uel": getattr(uel, name)}
    sparse = rng.random() < .5

    def steps():
        oper, _, neq = ass.DME(cons, eles, ndof_node=cons.shape[1], **kwd)
        stiff, mass = ass.assembler(eles, mats, nodes, neq, oper,
                                    sparse=sparse, **other)
        return neq, u.dense(stiff), u.dense(mass)
    got = u.call(steps)
    ctx.trace()
    ctx.count(fam)
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    neq, stiff, mass = got.val
    free = spec["free"]
    if neq != free or stiff.shape != (free, free) or mass.shape != stiff.shape:
        ctx.fail("shape", dict(info, neq=neq))
        return
    for name, mat in (("stiffness", stiff), ("mass", mass)):
        if not u.safe(lambda: symmetric(mat)):
            ctx.fail(f"{name} not symmetric", info)
            return
    vals = u.call(spectrum, stiff).val
    if vals is None or vals[0] < -1e-9:
        ctx.fail("stiffness is indefinite", dict(info, eigenvalues=vals))
        return
    want = free - spec["rank"]
    few, many = nulls(vals)
    if rec["fam"] == "bars" and np.ptp(rec["nodes"], axis=0).max() > 100:
        few = 0                      # nearly parallel: zero up to rounding
    if few != many:
        ctx.count("near mechanisms")
    if want:
        ctx.count("with mechanisms")
    if not few <= want <= many:
        ctx.fail("mechanisms", dict(info, want=want, code=[few, many],
                                    eigenvalues=vals[:want + 4]))
    if fam == "frame":
        return                               # density and area are optional
    if fam == "bars" and 5 in rec["types"]:
        return                               # springs have no mass
    vals = u.call(spectrum, mass).val
    few, many = (None, None) if vals is None else nulls(vals)
    if vals is None or vals[0] < -1e-9 or not few <= spec["loose"] <= many:
        ctx.fail("massless motions", dict(info, want=spec["loose"],
                                          eigenvalues=vals))
