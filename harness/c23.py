"""C23: Bloch reduction ties image to reference degrees of freedom."""
import numpy as np
from harness import util as u


def scenario(rng, ident):
    nx, ny = rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 1, 2, 3, 4])
    if ident % 120 == 60:       # a large cell
        nx, ny = rng.randrange(9, 12), rng.randrange(9, 12)
    mode = rng.choice(["both", "both", "both", "x", "y"])
    if ident % 240 == 20:       # a long one, most of it images
        nx, ny, mode = rng.randrange(100, 130), 1, "y"
    base = rng.choice([(2, 0, 0, 2), (3, 0, 1, 2), (2, 1, -1, 3), (1, 0, 0, 5)])
    jig = {}
    grid = [(i, j) for j in range(ny + 1) for i in range(nx + 1)]
    if rng.random() < .6:
        rng.shuffle(grid)
    node = {ij: k for k, ij in enumerate(grid)}
    org = [rng.randrange(-7, 8), rng.randrange(-7, 8)]
    xy = []
    for i, j in grid:
        off = [0, 0]
        if 0 < i < nx and 0 < j < ny:
            off = [rng.randrange(-1, 2), rng.randrange(-1, 2)]
        xy.append([org[0] + i*base[0] + j*base[2] + off[0],
                   org[1] + i*base[1] + j*base[3] + off[1]])
    pairs, copies = [], {}
    for i, j in grid:
        copies.setdefault((0 if i == nx and mode != "y" else i,
                           0 if j == ny and mode != "x" else j),
                          []).append((i, j))
    anyone = rng.random() < .4         # any copy may be the reference
    for key, some in copies.items():
        ref = rng.choice(some) if anyone else key
        pairs += [[node[ij], node[ref]] for ij in some if ij != ref]
    rng.shuffle(pairs)
    dims = 2
    wave = [rng.randrange(-12, 13) for _ in range(2)]
    if rng.random() < .3:      # a cell in space, or one seen along a line
        dims = rng.choice([3, 3, 1])
        if dims == 3:
            low = [rng.randrange(-3, 4) for _ in range(3)]
            xy = [p + [low[0]*p[0] + low[1]*p[1] + low[2]] for p in xy]
            wave.append(rng.randrange(-12, 13))
        else:
            xy, wave = [p[:1] for p in xy], wave[:1]
    per = rng.choice([1, 2, 2, 3]) if ident % 240 != 20 else 3
    total = per*len(grid)
    order = list(range(total))
    style = rng.random()
    if style < .5:
        rng.shuffle(order)
    elif style < .7:           # component by component
        order = [c*len(grid) + n for n in range(len(grid)) for c in range(per)]
    dofs = [order[n*per:(n + 1)*per] for n in range(len(grid))]
    return {"id": ident, "xy": xy, "pairs": pairs, "dofs": dofs,
            "ndofs": total, "wave": wave}


def run(ctx):
    import solidspy.blochutil as bl
    rng = ctx.rng
    scen = [scenario(rng, k) for k in range(ctx.pick(250, 4000))]
    res = ctx.tlc("Bloch", scenarios=scen)
    for rec in scen:
        one(ctx, bl, rec, res.json(f"bloch{rec['id']}"))
    ctx.sample({k: scen[0][k] for k in ("xy", "pairs", "dofs", "wave")})


def one(ctx, bl, rec, spec):
    rng = ctx.rng
    ima = [p[0] for p in rec["pairs"]]
    ref = [p[1] for p in rec["pairs"]]
    dof_pairs = [(a, b) for i, r in rec["pairs"]
                 for a, b in zip(rec["dofs"][i], rec["dofs"][r])]
    if rng.random() < .4:
        rng.shuffle(dof_pairs)
    dofs_ima = [p[0] for p in dof_pairs]
    dofs_ref = [p[1] for p in dof_pairs]
    ctx.trace()
    info = {"xy": rec["xy"], "pairs": rec["pairs"], "dofs": rec["dofs"],
            "wave/12": rec["wave"]}
    got = u.call(bl.reassign_dof_bloch, rec["ndofs"], list(dofs_ima),
                 list(dofs_ref))
    if got.err or not u.safe(lambda: [int(v) for v in got.val] == spec["num"]
                             and list(got.val) == spec["num"]):
        ctx.fail("numbering", dict(info, err=got.err, spec=spec["num"],
                                   code=repr(got.val)[:500]))
    unit = rng.choice([1., .5, 1e-3, 40., 2.**-28, 1e7])
    # the cell may lie far from the origin
    far = 2**rng.choice([6, 14, 24]) if rng.random() < .4 else 0
    if unit == 1e-3:
        far = 0
    coords = (np.array(rec["xy"], float) + far)*unit
    wave = 2*np.pi/12*np.array(rec["wave"], float)/unit
    if unit == 1. and rng.random() < .3:
        coords = coords.astype(int)
    coords, wave = u.relay(rng, coords), u.relay(rng, wave)
    ref_dof = {r: list(rec["dofs"][r]) for r in ref}
    ima_dof = {i: list(rec["dofs"][i]) for i in ima}
    got = u.call(bl.bloch_transform_mat, wave, coords, rec["ndofs"],
                 list(ref), list(ima), list(dofs_ref), list(dofs_ima),
                 ref_dof, ima_dof, list(spec["num"]))
    want = np.zeros((rec["ndofs"], spec["count"]), complex)
    for row, (col, phase) in enumerate(spec["rows"]):
        want[row, col] = np.exp(2j*np.pi*phase/12)
    if got.err or not u.close(got.val, want, 1., 1e-9):
        ctx.fail("transformation", dict(info, err=got.err,
                                        spec=spec["rows"],
                                        code=repr(u.safe_dense(got.val))[:900]))
    # general wavevectors: the phases are additive in the wavevector
    k_any = np.array([rng.uniform(-9, 9) for _ in rec["wave"]])/unit
    small = rng.choice([1., 1., 1e-3, 1e-7, 1e-10])
    k_any = k_any*small        # and waves much longer than the cell
    if rng.random() < .3:      # decaying (evanescent) waves
        k_any = k_any + .1j*small*np.array([rng.uniform(-1, 1)
                                      for _ in rec["wave"]])/unit
    got = u.call(bl.bloch_transform_mat, k_any, coords, rec["ndofs"],
                 list(ref), list(ima), list(dofs_ref), list(dofs_ima),
                 ref_dof, ima_dof, list(spec["num"]))
    tie = np.zeros(want.shape)
    where = {d: n for n, row in enumerate(rec["dofs"]) for d in row}
    ties = dict(rec["pairs"])
    for row, (col, _) in enumerate(spec["rows"]):
        n = where[row]
        diff = coords[n] - coords[ties.get(n, n)]
        want[row] = 0
        tie[row, col] = 1
        want[row, col] = np.exp(1j*(k_any @ diff))
    if got.err or not u.close(got.val, want, np.abs(want).max(), 1e-9) \
            or not u.close(u.dense(got.val) - tie, want - tie,
                           np.abs(want - tie).max(), 1e-9 + 1e-14/small):
        ctx.fail("any-wavevector", dict(info, k=k_any, err=got.err))
