"""C11: solid element matrices are symmetric, objective and exact."""
import numpy as np
from harness import util as u
from harness.c08 import coordinates

SOLID = {"tet4": "elast_tet4", "hex8": "elast_hex8"}
POISSON = [(0, 1), (1, 4), (-1, 4), (1, 3), (-1, 2), (3, 10), (2, 5),
           (49, 100), (499, 1000), (49999, 100000), (-99, 100)]
HEX = np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1],
                [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]], float)


def affine(rng, ident, fam):
    while True:
        jac = [[2*rng.randrange(-3, 4) for _ in range(3)] for _ in range(3)]
        det = np.linalg.det(np.array(jac, float))
        size = np.linalg.norm(np.array(jac, float))**3
        if det > .02*size:
            break
    return {"id": ident, "fam": fam, "kind": "affine",
            "j": jac, "x0": [rng.randrange(-12, 13) for _ in range(3)]}


def slender(rng, ident, fam):
    """Flat and needle-like images of the reference element."""
    far = 2*rng.choice([12, 60] if fam == "tet4" else [8, 16])
    sizes = [far, rng.choice([far, 2]), 2]
    rng.shuffle(sizes)
    while True:
        cols = rng.sample(range(3), 3)
        jac = [[sizes[i]*rng.choice([1, -1]) if cols[i] == k
                else rng.choice([0, 0, 2, -2]) for k in range(3)]
               for i in range(3)]
        if np.linalg.det(np.array(jac, float)) > .5*np.prod(sizes):
            break
    return {"id": ident, "fam": fam, "kind": "affine",
            "j": jac, "x0": [rng.randrange(-12, 13) for _ in range(3)]}


def hex_dets(pts, ends=(-1, 0, 1)):
    out = []
    for r in ends:
        for s in ends:
            for t in ends:
                grad = np.array([
                    HEX[:, 0]*(1 + s*HEX[:, 1])*(1 + t*HEX[:, 2]),
                    HEX[:, 1]*(1 + r*HEX[:, 0])*(1 + t*HEX[:, 2]),
                    HEX[:, 2]*(1 + r*HEX[:, 0])*(1 + s*HEX[:, 1])])/8
                out.append(np.linalg.det(grad @ pts))
    return np.array(out)


def distorted(rng, ident):
    form = rng.random()
    while True:
        jac = np.array([[rng.randrange(-4, 5) for _ in range(3)]
                        for _ in range(3)], float)
        if np.linalg.det(jac) < .2*np.linalg.norm(jac)**3/5.2:
            continue
        pts = HEX @ jac + np.array([[rng.uniform(-1.5, 1.5) for _ in range(3)]
                                    for _ in range(8)])
        pts = np.rint(pts)
        if form < .35:          # prisms over a distorted base, and frusta
            lift = np.rint(2*jac[2])
            taper = 0 if form < .25 else .5
            top = pts[:4] + lift
            top += taper*(pts[0] - pts[:4])
            pts[4:] = np.rint(top)
            turn = rng.choice([[0, 1, 2, 3, 4, 5, 6, 7],
                               [0, 3, 7, 4, 1, 2, 6, 5],
                               [0, 4, 5, 1, 3, 7, 6, 2]])
            pts = pts[turn]
        pts = pts + np.array([rng.randrange(-9, 10) for _ in range(3)])
        dets = hex_dets(pts)
        if dets.min() > .2*dets.max() and dets.min() > 1:
            return {"id": ident, "fam": "hex8", "kind": "distorted",
                    "nodes": pts.astype(int).tolist()}


def run(ctx):
    import solidspy.uelutil as uel
    rng = ctx.rng
    scen = []
    for _ in range(ctx.pick(30, 400)):
        scen.append(affine(rng, len(scen), "tet4"))
    for _ in range(ctx.pick(24, 300)):
        scen.append(affine(rng, len(scen), "hex8"))
    for _ in range(ctx.pick(30, 300)):
        scen.append(distorted(rng, len(scen)))
    for _ in range(ctx.pick(8, 80)):
        scen.append(slender(rng, len(scen), "tet4"))
        scen.append(slender(rng, len(scen), "hex8"))
    res = ctx.tlc("SolidElements", scenarios=scen)
    for rec in scen:
        one(ctx, uel, rng, rec, res.json(f"ele{rec['id']}"))
    ctx.sample({"scenario": scen[0], "K": res.json("ele0")["K"][:2],
                "denominators": res.json("ele0")["kden"]})


def one(ctx, uel, rng, rec, spec):
    fam = rec["fam"]
    spec = dict(spec, xy=spec["xyz"])
    scale, xyz = coordinates(rng, spec)
    p, q = rng.choice(POISSON)
    young = rng.choice([1., 2.5, 2e11, 7e-4, rng.uniform(.1, 50),
                        10.**rng.randrange(-15, 16)])
    dens = rng.choice([1., 0., 7850., rng.uniform(.1, 9)])
    par = rng.choice([np.array, list, tuple])([young, p/q, dens])
    got = u.call(getattr(uel, SOLID[fam]), xyz, par)
    info = {"fam": fam, "kind": rec["kind"], "coord": np.array(xyz),
            "params": list(par)}
    ctx.trace()
    ctx.count(f"{fam}_{rec['kind']}")
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    kmat, mmat = (u.safe_dense(v) for v in got.val)
    if rng.random() < .4:
        thin(ctx, uel, rng, rec, spec)
    if rec["kind"] == "affine":
        det, gden = spec["kden"]
        want = young*(p/q/(1 + p/q)/(1 - 2*p/q)*np.array(spec["K"], float)
                      + .5/(1 + p/q)*np.array(spec["S"], float)
                      )/det/gden*scale
        if not u.close(kmat, want):
            ctx.fail("stiffness", dict(info, spec=want, code=kmat))
            return
        unit = np.array(spec["M"], float)/spec["mden"]*scale**3
        want = np.kron(unit, np.eye(3))*dens
        if not u.close(mmat, want, (dens or 1)*np.abs(unit).max()):
            ctx.fail("mass", dict(info, spec=want, code=mmat))
    ref = u.safe_abs_max(kmat)
    if not u.close(kmat, np.transpose(kmat), ref, 1e-10):
        ctx.fail("symmetry", dict(info, code=kmat))
    if not u.close(mmat, np.transpose(mmat), u.safe_abs_max(mmat), 1e-10):
        ctx.fail("mass-symmetry", dict(info, code=mmat))
    grad = np.array(spec["F"], float)/spec["fden"]*scale**2
    lam = young*(p/q)/(1 + p/q)/(1 - 2*p/q)
    mu = young/2/(1 + p/q)
    pos = np.array(spec["xyz"], float)*scale
    pos = pos - pos[0]
    size = np.abs(pos).max()
    fields = [np.zeros((3, 3))]
    for i in range(3):
        for j in range(3):
            fld = np.zeros((3, 3))
            fld[i, j] = 1
            fields.append(fld)
    for i, j in ((0, 1), (1, 2), (2, 0)):
        fld = np.zeros((3, 3))
        fld[i, j], fld[j, i] = 1, -1
        fields.append(fld)
    fields.append(np.array([[rng.randrange(-5, 6) for _ in range(3)]
                            for _ in range(3)], float))
    for fld in fields:
        shift = np.array([rng.randrange(-3, 4) for _ in range(3)])
        disp = (pos @ fld.T + shift*size).ravel()
        eps = (fld + fld.T)/2
        sig = lam*np.trace(eps)*np.eye(3) + 2*mu*eps
        want = (grad @ sig).ravel()
        ok = u.safe(lambda: u.close(kmat @ disp, want,
                                    ref*np.abs(disp).max(), 1e-9))
        if not ok:
            ctx.fail("linear-field", dict(info, gradient=fld, spec=want,
                                          code=kmat @ disp))
            break


def thin(ctx, uel, rng, rec, spec):
    """The element stretched along the axes, as far as one likes.

    Integrals of products of two derivatives scale with the product of the
    factors over the two of the derivatives, the rest with the product.
    """
    fam = rec["fam"]
    base = np.array(spec["xyz"], float)
    while True:
        fac = np.array([2.**rng.choice([0, 0, 3, 6, 8, 10])
                        for _ in range(3)])
        # shapes that are all but degenerate are refused, by design
        dets = (hex_dets(base*fac) if fam == "hex8" else
                np.linalg.det((base[1:] - base[0])*fac))
        if np.min(dets) > 1e-6*np.ptp(base*fac, axis=0).max()**3:
            break
    scale, _ = coordinates(rng, spec)
    xyz = np.array(spec["xyz"], float)
    xyz = xyz + [rng.choice([0, 0, 5, -40]) for _ in range(3)]
    p, q = rng.choice(POISSON)
    young = rng.choice([1., 2.5, 2e11, 7e-4])
    dens = rng.choice([1., 7850., .3])
    got = u.call(getattr(uel, SOLID[fam]), u.relay(rng, xyz*fac*scale),
                 np.array([young, p/q, dens]))
    info = {"fam": fam, "kind": rec["kind"], "coord": xyz*fac*scale,
            "params": [young, p/q, dens]}
    ctx.trace()
    ctx.count("stretched")
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    kmat, mmat = (u.safe_dense(v) for v in got.val)
    lam = young*(p/q)/(1 + p/q)/(1 - 2*p/q)
    mu = young/2/(1 + p/q)
    num = len(xyz)
    if rec["kind"] == "affine":
        det, gden = spec["kden"]
        gram = np.array(spec["K"], float)/det/gden*scale
        assert np.allclose(strain_part(gram, num), np.array(
            spec["S"], float)/det/gden*scale, atol=1e-9*np.abs(gram).max())
        every = np.tile(fac, num)
        gram = gram*np.prod(fac)/np.outer(every, every)
        want = lam*gram + mu*strain_part(gram, num)
        unit = np.sqrt(np.diag(want))
        if not u.safe(lambda: u.close(kmat/np.outer(unit, unit),
                                      want/np.outer(unit, unit), 1., 1e-8)):
            ctx.fail("stretched-stiffness", dict(info, spec=want, code=kmat))
            return
        want = np.kron(np.array(spec["M"], float)/spec["mden"], np.eye(3)
                       )*dens*np.prod(fac*scale)
        if not u.close(mmat, want, np.abs(want).max()):
            ctx.fail("stretched-mass", dict(info, spec=want, code=mmat))
            return
    grad = (np.array(spec["F"], float)/spec["fden"]*scale**2
            * np.prod(fac)/fac)
    pos = (xyz - xyz[0])*fac*scale
    unit = np.sqrt(np.maximum(np.diag(kmat), 0))
    for _ in range(3):
        fld = np.array([[rng.randrange(-5, 6)/fac[j] for j in range(3)]
                        for _ in range(3)])
        eps = (fld + fld.T)/2
        sig = lam*np.trace(eps)*np.eye(3) + 2*mu*eps
        disp = (pos @ fld.T).ravel()
        top = np.sum(unit*np.abs(disp)) + 1e-300
        if not u.safe(lambda: np.all(np.abs(
                kmat @ disp - (grad @ sig).ravel()) <= 1e-8*unit*top)):
            ctx.fail("stretched-field", dict(info, gradient=fld,
                                             spec=(grad @ sig).ravel(),
                                             code=kmat @ disp))
            return


def strain_part(gram, num):
    """The integrals that go with the shear modulus."""
    tens = gram.reshape(num, 3, num, 3)
    lap = np.einsum("ikjk->ij", tens)
    return np.transpose(tens, (0, 3, 2, 1)).reshape(3*num, 3*num) \
        + np.kron(lap, np.eye(3))
