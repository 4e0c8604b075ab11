"""C14: strain operators differentiate displacement fields exactly."""
import math
import numpy as np
from harness import c11
from harness import elements as el
from harness import util as u

SQ3, S15 = 1/math.sqrt(3), math.sqrt(15)
A1, A2 = (6 - S15)/21, (6 + S15)/21
RULES = {
    "tri3": [(1/6, 1/6), (2/3, 1/6), (1/6, 2/3)],
    "tri6": [(A1, A1), (1 - 2*A1, A1), (A1, 1 - 2*A1), (A2, 1 - 2*A2),
             (A2, A2), (1 - 2*A2, A2), (1/3, 1/3)],
    "quad4": [(r, s) for r in (-SQ3, SQ3) for s in (-SQ3, SQ3)]}
ROUTINES = {"tri3": "str_el3", "tri6": "str_el6", "quad4": "str_el4"}


def plane_nodes(rng, fam, shift=0):
    """Small integer nodes with a positive Jacobian everywhere."""
    top = 2 if fam in ("tri3", "quad4") else 3
    while True:
        jac = np.array([[rng.randrange(-top, top + 1) for _ in range(2)]
                        for _ in range(2)], float)
        if np.linalg.det(jac) <= 0:
            continue
        fac = 4 if fam in ("tri3", "tri6") else 2
        pts = np.array(el.REF2[fam]) @ jac*fac
        pts += np.array([[rng.choice([0, 0, rng.uniform(-1.2, 1.2)])
                          for _ in range(2)] for _ in pts])
        pts = np.rint(pts)
        if fam == "tri3" or el.jacobian_ok(None, fam, pts, .1):
            if fam == "tri3":
                a, b = pts[1] - pts[0], pts[2] - pts[0]
                if a[0]*b[1] - a[1]*b[0] <= 0:
                    continue
            pts += [rng.randrange(-9, 10), rng.randrange(-9, 10)]
            far = 150 if fam in ("tri3", "quad4") else 20
            pts[:, rng.randrange(2)] *= rng.choice([1]*5 + [far])
            if shift:
                pts[:, 0] += shift - pts[:, 0].min()
            return pts.astype(int).tolist()


def tet_nodes(rng):
    while True:
        pts = np.array([[rng.randrange(-6, 7) for _ in range(3)]
                        for _ in range(4)])
        jac = (pts[1:] - pts[0]).astype(float)
        if np.linalg.det(jac) > .02*np.linalg.norm(jac)**3:
            return pts.tolist()


def hex_nodes(rng):
    while True:
        jac = np.array([[rng.randrange(-2, 3) for _ in range(3)]
                        for _ in range(3)], float)
        if np.linalg.det(jac) <= .1*np.linalg.norm(jac)**3/5.2:
            continue
        pts = np.rint(c11.HEX @ jac + np.array(
            [[rng.uniform(-.9, .9) for _ in range(3)] for _ in range(8)]))
        dets = c11.hex_dets(pts)
        if dets.min() > .15*dets.max() > 0:
            return pts.astype(int).tolist()


def point(rng, fam):
    q = rng.choice([1, 2, 2, 3] if fam != "hex8" else [1, 2])
    dim = 3 if fam in ("tet4", "hex8") else 2
    simplex = fam in ("tri3", "tri6", "tet4")
    while True:
        pt = [rng.randrange(0 if simplex else -q, q + 1) for _ in range(dim)]
        if not simplex or sum(pt) <= q:
            return q, pt + [0]*(3 - dim)


def scenarios(ctx):
    rng = ctx.rng
    out = []
    for fam in el.FAMS2:
        for num in range(ctx.pick(30, 300)):
            axi = num % 2
            q, pt = point(rng, fam)
            out.append({"id": len(out), "kind": "point", "fam": fam, "q": q,
                        "pt": pt, "axi": axi, "lin": [],
                        "nodes": plane_nodes(rng, fam, rng.randrange(1, 9)
                                             if axi else 0)})
    for fam, make in (("tet4", tet_nodes), ("hex8", hex_nodes)):
        for _ in range(ctx.pick(40, 400)):
            q, pt = point(rng, fam)
            out.append({"id": len(out), "kind": "point", "fam": fam, "q": q,
                        "pt": pt, "axi": 0, "lin": [], "nodes": make(rng)})
    for fam in RULES:
        for num in range(ctx.pick(25, 300)):
            nodes = plane_nodes(rng, fam)
            lin = []
            disp = [[rng.randrange(-9, 10) for _ in range(2)] for _ in nodes]
            if num % 3 == 0:
                lin = [[rng.randrange(-4, 5) for _ in range(2)]
                       for _ in range(2)]
                disp = (np.array(nodes) @ np.array(lin).T
                        + [rng.randrange(-9, 10), 3]).tolist()
            out.append({"id": len(out), "kind": "routine", "fam": fam,
                        "nodes": nodes, "u": disp, "lin": lin})
    return out


def run(ctx):
    import solidspy.femutil as fem
    scen = scenarios(ctx)
    res = ctx.tlc("StrainOps", scenarios=scen)
    for rec in scen:
        spec = res.json(f"op{rec['id']}")
        ctx.trace()
        if rec["kind"] == "point":
            at_point(ctx, fem, rec, spec)
        else:
            routine(ctx, fem, rec, spec)
        ctx.count(rec["kind"] + "_" + rec["fam"]
                  + ("_axi" if rec.get("axi") else ""))
    ctx.sample({"scenario": scen[0], "spec": res.json("op0")})


def layout(rng, nodes, scale):
    xy = np.array(nodes, float)*scale
    kind = rng.randrange(4)
    if kind == 0 and scale == 1.:
        return np.array(nodes)
    if kind == 1:
        return np.asfortranarray(xy)
    return xy


def at_point(ctx, fem, rec, spec):
    rng, fam = ctx.rng, rec["fam"]
    dim = 3 if fam in ("tet4", "hex8") else 2
    scale = rng.choice([1., 1., .5, 2.**-9, 256., 2.**-24,
                        2.**23, 2.**42])
    coord = layout(rng, rec["nodes"], scale)
    arg = [v/rec["q"] for v in rec["pt"][:dim]]
    shape = getattr(fem, "shape_" + fam)
    if dim == 3:
        if fam == "hex8" and rng.random() < .5:
            got = u.call(fem.elast_diff_3d, *arg, coord)
        else:
            got = u.call(fem.elast_diff_3d, *arg, coord, shape)
    elif rec["axi"]:
        got = u.call(fem.elast_diff_axi, *arg, coord, shape)
    else:
        got = u.call(fem.elast_diff_2d, *arg, coord, shape)
    info = {"fam": fam, "axi": rec["axi"], "coord": coord, "point": arg}
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    try:
        hmat, bmat, det = got.val
        hmat, bmat, det = u.dense(hmat), u.dense(bmat), float(det)
    except Exception as exc:
        ctx.fail("malformed", dict(info, err=repr(exc)))
        return
    shp = np.array(spec["N"], float)/spec["nden"]
    num = len(shp)
    hwant = np.kron(shp, np.eye(dim))
    if not u.close(hmat, hwant, 1., 1e-11):
        ctx.fail("interpolation", dict(info, spec=hwant, code=hmat))
    dwant = spec["det"]/float(spec["dden"])**dim*scale**dim
    if not abs(det - dwant) <= 1e-10*dwant:
        ctx.fail("determinant", dict(info, spec=dwant, code=det))
    gra = np.array(spec["G"], float)/spec["det"]/scale
    rows = {2: [(0, 0, 0), (1, 1, 1), (2, 0, 1), (2, 1, 0)],
            3: [(0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 1, 2), (3, 2, 1),
                (4, 0, 2), (4, 2, 0), (5, 0, 1), (5, 1, 0)]}[dim]
    bwant = np.zeros((4 if rec["axi"] else 3*(dim - 1), dim*num))
    for row, comp, der in rows:
        bwant[row, comp::dim] = gra[der]
    if rec["axi"]:
        bwant[3, 0::2] = np.array(spec["N"], float)/spec["X"]/scale
        # the same section beyond the axis: there is no such point
        beyond = np.array(coord, float)
        beyond[:, 0] -= rng.choice([1.01, 1.25, 3.])*(
            spec["X"]/spec["nden"]*scale)
        got = u.call(fem.elast_diff_axi, *arg, beyond, shape)
        if not got.err:
            ctx.fail("negative-radius", dict(info, coord=beyond))
        # ... and so close to it that only the hoop strain counts
        close = np.array(coord, float)
        near = np.ptp(close[:, 0])*2.**-rng.randrange(3, 20)
        close[:, 0] += near - spec["X"]/spec["nden"]*scale
        got = u.call(fem.elast_diff_axi, *arg, close, shape)
        tiny = bwant.copy()
        tiny[3, 0::2] = np.ravel(shp)/near
        if got.err or not u.safe(lambda: u.close(
                u.dense(got.val[1])[:3], tiny[:3], None, 1e-8) and u.close(
                    u.dense(got.val[1])[3], tiny[3], None, 1e-7)):
            ctx.fail("next-to-axis", dict(info, coord=close, err=got.err,
                                          spec=tiny, code=got.val and
                                          got.val[1]))
    if not u.close(bmat, bwant, None, 1e-10):
        ctx.fail("strain-matrix", dict(info, spec=bwant, code=bmat))


def poly(terms, pts):
    pts = np.asarray(pts, float)
    out = np.zeros(len(pts))
    for coef, i, j, _ in terms:
        out += coef*pts[:, 0]**i*pts[:, 1]**j
    return out


def routine(ctx, fem, rec, spec):
    rng, fam = ctx.rng, rec["fam"]
    scale = rng.choice([1., 1., .5, 2.**-9, 256., 2.**-24,
                        2.**23, 2.**42])
    coord = layout(rng, rec["nodes"], scale)
    amp = rng.choice([1., 1e-6, 3.])
    disp = np.array(rec["u"], float).ravel()*amp
    got = u.call(getattr(fem, ROUTINES[fam]), coord, disp)
    info = {"routine": ROUTINES[fam], "coord": coord, "u": disp}
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    ref = RULES[fam]
    sca = spec["scale"]
    pos = np.column_stack([poly(spec["pos"][c], ref)
                           for c in range(2)])/sca*scale
    det = poly(spec["det"], ref)
    eps = np.column_stack([poly(spec["eps"][c], ref)/det
                           for c in range(3)])*amp/scale
    try:
        cod_eps, cod_pos = (u.dense(v).astype(float) for v in got.val)
        assert cod_eps.shape == eps.shape and cod_pos.shape == pos.shape
    except Exception:
        ctx.fail("malformed", dict(info, code=repr(got.val)[:500]))
        return
    # each integration point once, its strain in the same row
    dist = np.linalg.norm(cod_pos[:, None] - pos[None], axis=2)
    match = dist.argmin(axis=1)
    size = np.linalg.norm(pos - pos.mean(axis=0), axis=1).max()
    size = max(size, 1e-3*np.abs(pos).max())
    if sorted(match) != list(range(len(pos))) or not np.all(
            dist.min(axis=1) <= 1e-9*size):
        ctx.fail("positions", dict(info, spec=pos, code=cod_pos))
        return
    tol = 1e-9*max(np.abs(eps).max(), 1e-3*amp/scale)
    if not np.all(np.abs(cod_eps - eps[match]) <= tol):
        ctx.fail("strains", dict(info, spec=eps[match], code=cod_eps,
                                 positions=cod_pos))
