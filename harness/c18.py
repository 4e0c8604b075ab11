"""C18: truss stresses follow from the members' elongations."""
import numpy as np
from harness import meshes as ms
from harness import util as u


def scenario(rng, ident, all_dirs):
    if all_dirs:            # a star: every direction of a small grid
        pts = [[rng.randrange(-5, 6), rng.randrange(-5, 6)]]
        for dx in range(-3, 4):
            for dy in range(-3, 4):
                if dx or dy:
                    pts.append([pts[0][0] + dx, pts[0][1] + dy])
        conn = [[0, k] if rng.random() < .5 else [k, 0]
                for k in range(1, len(pts))]
    else:
        num = rng.randrange(2, 12)
        pts = []
        while len(pts) < num:
            p = [rng.randrange(-25, 26), rng.randrange(-25, 26)]
            if p not in pts:
                pts.append(p)
        conn = [rng.sample(range(num), 2)
                for _ in range(rng.randrange(1, 3*num))]
    rng.shuffle(conn)
    disp = [[rng.randrange(-20, 21) for _ in range(2)] for _ in pts]
    return {"id": ident, "nodes": pts, "conn": conn, "u": disp}


def run(ctx):
    import solidspy.postprocesor as pos
    rng = ctx.rng
    scen = [scenario(rng, k, k % 8 == 0) for k in range(ctx.pick(160, 2500))]
    res = ctx.tlc("TrussStress", scenarios=scen)
    for rec in scen:
        spec = res.json(f"truss{rec['id']}")
        one(ctx, pos, rng, rec, spec)
    together(ctx, pos, rng, [(rec, res.json(f"truss{rec['id']}"))
                             for rec in scen])
    ctx.sample({"scenario": scen[1], "stress": res.json("truss1")})


def together(ctx, pos, rng, items):
    """All the trusses side by side in one table, in any order."""
    lead = rng.choice([33000, 66000])      # nodes without members
    xy, disp = [[0, 0]]*lead, [[0, 0]]*lead
    conn, frac = [], []
    for rec, spec in items:
        conn += [[len(xy) + n for n in row] for row in rec["conn"]]
        xy += rec["nodes"]
        disp += rec["u"]
        frac += spec["stress"]
    order = rng.sample(range(len(conn)), len(conn))
    nmat = 400
    mats = np.array([[rng.uniform(.1, 9), rng.uniform(.1, 9)]
                     for _ in range(nmat)])
    ids = [rng.randrange(nmat) for _ in conn]
    eles = np.array([[k, 6, ids[k]] + conn[k] for k in order])
    nodes = np.column_stack([ms.idents(rng, len(xy)), np.array(xy, float)])
    got = u.call(pos.stress_truss, nodes, eles, mats, np.array(disp, float))
    frac = np.array(frac, float)[order]
    want = mats[eles[:, 2], 0]*frac[:, 0]/frac[:, 1]
    ctx.trace()
    ctx.count("together", len(eles))
    if got.err or not u.safe(lambda: np.shape(got.val) == want.shape and
                             np.abs(got.val - want).max() <= 1e-8):
        bad = u.safe(lambda: int(np.abs(got.val - want).argmax()))
        ctx.fail("together", {"members": len(eles), "first": bad,
                              "err": got.err})


def one(ctx, pos, rng, rec, spec):
    scale = rng.choice([1., 1., .25, 2.**-8, 512., 2.**-24, 2.**23])
    nmat = rng.randrange(1, 5)
    wide = rng.choice([2, 2, 3, 5])
    mats = np.array([[rng.choice([1., 2e11, 7e-3, rng.uniform(.1, 9)]),
                      rng.choice([1., 1e-4, 250., 1e-11, 1e7,
                                  rng.uniform(.1, 9)]),
                      rng.uniform(.1, 9), 0., 1.][:wide]
                     for _ in range(nmat)])
    if rng.random() < .2:       # whole numbers, kept as such
        mats = np.array([[rng.randrange(1, 99) for _ in range(wide)]
                         for _ in range(nmat)])
    ids = [rng.randrange(nmat) for _ in rec["conn"]]
    eles = np.array([[k, 6, ids[k]] + row
                     for k, row in enumerate(rec["conn"])])
    eles[:, 0] = ms.idents(rng, len(eles))
    xy = np.array(rec["nodes"], float)*scale
    num = len(xy)
    nodes = np.hstack([np.array(ms.idents(rng, num))[:, None], xy]
                      + ([np.zeros((num, 2))] if rng.random() < .5 else []))
    amp = rng.choice([1., 1e-4, 3.])
    disp = np.array(rec["u"], float)*amp
    shift = rng.choice([0., 0., 1., 64., 2.**21, 2.**34])*amp
    disp = disp + shift
    if amp == 1. and rng.random() < .3:
        disp = disp.astype(int)
    if scale == 1. and rng.random() < .3:
        nodes = nodes.astype(int)
    nodes, eles, mats, disp = (u.relay(rng, arr)
                               for arr in (nodes, eles, mats, disp))
    got = u.call(pos.stress_truss, nodes, eles, mats, disp)
    ctx.trace()
    ctx.count("members", len(eles))
    frac = np.array(spec["stress"], float)
    young = mats[ids, 0]
    want = young*frac[:, 0]/frac[:, 1]*amp/scale
    length = np.sqrt(frac[:, 1])*scale
    size = young*np.abs(disp).max()/length
    if got.err:
        ctx.fail("raised", {"nodes": nodes, "elements": eles, "mats": mats,
                            "err": got.err})
        return
    ok = u.safe(lambda: np.shape(got.val) == want.shape and np.all(
        np.abs(np.asarray(got.val, float) - want) <= 1e-10*size + 1e-300))
    if not ok:
        ctx.fail("stress", {"nodes": nodes, "elements": eles, "mats": mats,
                            "disp": disp, "spec": want, "code": got.val})
