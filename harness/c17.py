"""C17: nodal strains and stresses are averages over the adjoining elements."""
import math
import numpy as np
from harness import elements as el
from harness import meshes as ms
from harness import util as u

POISSON = [0., .25, -.25, 1/3, .45, -.5, .1, -.9, .499]


def scenario(rng, ident, big, crowd=False):
    fam = rng.choice(["tri3", "tri6", "quad4"])
    top = 8 if big else 3
    low = 1
    if big and not crowd and ident % 2:        # many elements with curved fields
        fam = "tri6" if ident % 4 == 1 else "quad4"
        low = 4 if fam == "tri6" else 7
    if fam == "tri6":
        top = min(top, 5)
    while True:
        if low == 1 and fam.startswith("tri") and rng.random() < .15:
            pts, conn = ms.fan(rng, fam)
            break
        if crowd:
            fam = "tri3"
            pts, conn = ms.crowd(rng, rng.choice([260, 300]))
            break
        pts, conn = ms.grid(rng, fam, rng.randrange(low, top + 1),
                            rng.randrange(low, top + 1), step=8,
                            jitter=rng.choice([0, 2]),
                            curve=rng.choice([0, 0, 1]) if fam == "tri6"
                            else 0)
        arr = np.array(pts, float)
        if all(fam == "tri3" or el.jacobian_ok(None, fam, arr[row], .1)
               for row in conn):
            break
    org = [rng.randrange(-30, 31), rng.randrange(-30, 31)]
    far = [1, 1]                # a slender model
    if fam == "tri3" and rng.random() < .2:
        far[rng.randrange(2)] = rng.choice([40, 120])
    pts = [[far[0]*(p[0] + org[0]), far[1]*(p[1] + org[1])] for p in pts]
    if rng.random() < .5 and not crowd and low == 1:       # a subset of the elements, without orphans
        conn = conn[:rng.randrange(1, len(conn) + 1)]
        used = sorted({c for row in conn for c in row})
        new = {c: k for k, c in enumerate(used)}
        pts = [pts[c] for c in used]
        conn = [[new[c] for c in row] for row in conn]
    nmat = rng.choice([1, 1, 2, 3, 5])
    mat = [rng.randrange(nmat) for _ in conn]
    lin = []
    if far == [1, 1] and rng.random() < .35:
        lin = [[rng.randrange(-4, 5) for _ in range(2)] for _ in range(2)]
        disp = (np.array(pts) @ np.array(lin).T + [3, -7]).tolist()
    else:
        disp = [[rng.randrange(-9, 10) for _ in range(2)] for _ in pts]
    if rng.random() < .35 and len(conn) > 1:      # some elements at rest, or
        still = rng.choice([[0, 0], [0, 0], [3, -2]])           # translated
        for row in rng.sample(conn, max(1, len(conn)//rng.choice([2, 3, 9]))):
            for node in row:
                disp[node] = still
        lin = []
    return {"id": ident, "fam": fam, "nodes": pts, "conn": conn, "u": disp,
            "mat": mat, "nmat": nmat, "lin": lin}


def run(ctx):
    import solidspy.postprocesor as pos
    rng = ctx.rng
    scen = [scenario(rng, k, False) for k in range(ctx.pick(110, 1200))]
    scen += [scenario(rng, len(scen) + k, True)
             for k in range(ctx.pick(4, 40))]
    scen += [scenario(rng, len(scen) + k, True, True)
             for k in range(ctx.pick(1, 5))]
    res = ctx.tlc("NodalAverage", scenarios=scen)
    for rec in scen:
        one(ctx, pos, rec, res.json(f"avg{rec['id']}"))
    for fam in ("tri3", "tri6", "quad4"):
        some = [r for r in scen if r["fam"] == fam]
        one(ctx, pos, *side_by_side(
            [(r, res.json(f"avg{r['id']}")) for r in some + some[:300]],
            rng.choice([0, 33000, 33000])))
    ctx.sample({k: scen[0][k] for k in ("fam", "nodes", "conn", "u")})


def side_by_side(items, lead):
    """Meshes of one family as one mesh whose parts do not touch."""
    big = {"nodes": [], "conn": [], "u": [], "mat": [], "nmat": 0, "lin": []}
    full = {"inbox": [[]]*lead}
    big["nodes"] = [[k % 211, k % 97] for k in range(lead)]  # in no element
    big["u"] = [[k % 5, k % 7] for k in range(lead)]
    for rec, spec in items:
        if spec["root"] != items[0][1]["root"]:
            continue
        here, mats = len(big["nodes"]), big["nmat"]
        big["fam"] = rec["fam"]
        big["conn"] += [[n + here for n in row] for row in rec["conn"]]
        big["mat"] += [m + mats for m in rec["mat"]]
        big["nodes"] += rec["nodes"]
        big["u"] += rec["u"]
        big["nmat"] += rec["nmat"]
        full["root"] = spec["root"]
        full["inbox"] += [[[val[0] + mats] + list(val[1:]) for val in box]
                          for box in spec["inbox"]]
    return big, full


def one(ctx, pos, rec, spec):
    rng = ctx.rng
    scale = rng.choice([1., 1., .5, 2.**-9, 64., 2.**-24, 2.**23])
    amp = rng.choice([1., 1e-5, 2.5])
    rows = []
    wide = rng.choice([2, 2, 3, 4])
    for _ in range(rec["nmat"] + rng.choice([0, 1])):
        rows.append([rng.choice([1., 2e11, 1e3, rng.uniform(.5, 9)]),
                     rng.choice(POISSON), rng.uniform(1, 9e3),
                     rng.uniform(1, 9)][:wide])
    mats = np.array(rows)
    nodes = ms.node_table(rng, np.array(rec["nodes"], float)*scale,
                          rng.choice([None, np.zeros((len(rec["nodes"]), 2))]))
    eles = ms.element_table(rng, rec["fam"], rec["conn"], rec["mat"])
    disp = np.array(rec["u"], float)*amp
    if amp == 1. and rng.random() < .3:
        disp = disp.astype(int)
    nodes, eles, mats, disp = (u.relay(rng, arr)
                               for arr in (nodes, eles, mats, disp))
    got = u.call(pos.strain_nodes, nodes, eles, mats, disp)
    ctx.trace()
    ctx.count(rec["fam"])
    info = {"fam": rec["fam"], "nodes": nodes, "elements": eles, "mats": mats,
            "disp": disp}
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    root = math.sqrt(spec["root"])
    eps = np.zeros((len(nodes), 3))
    sig = np.zeros((len(nodes), 3))
    esz, stiff = 0., np.zeros((len(nodes), 1))
    for node, box in enumerate(spec["inbox"]):
        for mat, *vals in box:
            val = [v[0] + v[1]*root for v in vals]
            strain = np.array(val[:3])/val[3]*amp/scale
            young, nu = mats[mat, :2]
            stress = young/(1 - nu**2)*np.array([
                strain[0] + nu*strain[1], nu*strain[0] + strain[1],
                (1 - nu)/2*strain[2]])
            eps[node] += strain/len(box)
            sig[node] += stress/len(box)
            esz = max(esz, np.abs(strain).max())
            stiff[node] = max(stiff[node, 0], young)
    esz = max(esz, amp/scale*1e-3)
    # nodes are judged against the size of what they receive
    try:
        got_eps, got_sig = (u.dense(v).astype(float) for v in got.val)
        assert got_eps.shape == eps.shape and got_sig.shape == sig.shape
    except Exception:
        ctx.fail("malformed", dict(info, code=repr(got.val)[:500]))
        return
    used = [k for k, box in enumerate(spec["inbox"]) if box]
    if not np.all(np.abs(got_eps - eps)[used] <= 1e-9*esz):
        ctx.fail("strains", dict(info, spec=eps, code=got_eps))
    if not np.all(np.abs(got_sig - sig)[used] <= (1e-9*stiff*esz)[used]):
        ctx.fail("stresses", dict(info, spec=sig, code=got_sig))
