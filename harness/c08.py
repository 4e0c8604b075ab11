"""C08: plane element stiffness is symmetric, objective and exact."""
import numpy as np
from harness import elements as el
from harness import util as u

PLANE = {"tri3": "elast_tri3", "tri6": "elast_tri6", "quad4": "elast_quad4",
         "quad8": "elast_quad8", "quad9": "elast_quad9"}


def scenarios(ctx, fams=el.FAMS2):
    rng = ctx.rng
    out = []
    # exhaustive small Jacobians for the cheap families
    for fam in [x for x in ("tri3", "quad4") if x in fams]:
        top = ctx.pick(1, 2)
        vals = range(-top, top + 1)
        for jac in [((2*a, 2*b), (2*c, 2*d)) for a in vals for b in vals
                    for c in vals for d in vals if a*d - b*c > 0]:
            out.append(el.affine(rng, len(out), fam,
                                 jac=([*jac[0]], [*jac[1]])))
    for fam in fams:
        for _ in range(ctx.pick(14, 150)):
            out.append(el.affine(rng, len(out), fam))
        for _ in range(ctx.pick(14, 150)):
            out.append(el.curved(rng, len(out), fam))
        for _ in range(ctx.pick(6, 80)):
            out.append(el.slender(rng, len(out), fam))
    for fam in ("quad4", "quad8", "quad9"):
        for _ in range(ctx.pick(10, 120)):
            out.append(el.straight(rng, len(out), fam))
    return out


def parameters(rng, fam):
    """Material row: Young modulus of any size, Poisson ratio, density."""
    young = rng.choice([1., 2.5, 2e11, 7e-4, rng.uniform(.1, 50),
                        10.**rng.randrange(-15, 16)])
    p, q = rng.choice(el.POISSON)
    row = [young, p/q]
    if fam == "quad8" or rng.random() < .6:
        row.append(rng.choice([1., 0., 7850., rng.uniform(.1, 9)]))
    kind = rng.randrange(3)
    return p, q, (np.array(row) if kind == 0 else
                  row if kind == 1 else tuple(row))


def coordinates(rng, spec):
    """Nodal coordinates at some scale and in some memory layout."""
    scale = rng.choice([1., 1., .25, 1e-3, 37.5, 1e3, 2.**-25, 1e7])
    xy = np.array(spec["xy"], dtype=float)
    for k in range(xy.shape[1]):     # an element may lie anywhere
        span = xy[:, k].max() - xy[:, k].min()
        xy[:, k] += rng.choice([0, 0, -xy[:, k].max(), -xy[:, k].min(),
                                -xy[:, k].max() - rng.choice([1, span]),
                                1 - xy[:, k].min(), 7*span, -60*span])
    xy = xy*scale
    kind = rng.randrange(4)
    if scale == 1. and kind == 0:
        xy = xy.astype(int)
    elif kind == 1:
        xy = np.asfortranarray(xy)
    elif kind == 2:
        wide = np.zeros((len(xy), xy.shape[1] + 1))
        wide[:, 1:] = xy
        xy = wide[:, 1:]
    return scale, xy


def plane_stress(young, p, q):
    nu = p/q
    return young/(1 - nu**2)*np.array([[1, nu, 0], [nu, 1, 0],
                                       [0, 0, (1 - nu)/2]])


def run(ctx):
    import solidspy.uelutil as uel
    rng = ctx.rng
    scen = scenarios(ctx)
    res = ctx.tlc("PlaneElements", scenarios=scen)
    for rec in scen:
        spec = res.json(f"ele{rec['id']}")
        fam = rec["fam"]
        p, q, par = parameters(rng, fam)
        scale, xy = coordinates(rng, spec)
        got = u.call(getattr(uel, PLANE[fam]), xy, par)
        info = {"fam": fam, "kind": rec["kind"], "coord": np.array(xy),
                "params": list(par)}
        ctx.trace()
        if got.err:
            ctx.fail("raised", dict(info, err=got.err))
            continue
        kmat = u.safe_dense(got.val[0])
        if rec["kind"] == "affine":
            det, den = spec["kden"]
            nu = p/q
            want = (par[0]*nu/(1 - nu**2)*np.array(spec["K"], float)
                    + par[0]/2/(1 + nu)*np.array(spec["S"], float))/det/den
            if not u.close(kmat, want):
                ctx.fail("stiffness", dict(info, spec=want, code=kmat))
                continue
        ref = u.safe_abs_max(kmat)
        if not u.close(kmat, np.transpose(kmat), ref, 1e-10):
            ctx.fail("symmetry", dict(info, code=kmat))
        # linear fields: translations, rotation, constant strains
        grad = np.array(spec["F"], float)/spec["fden"]*scale
        cmat = plane_stress(par[0], p, q)
        # exact coordinates, about the element (no round-off from far away)
        pos = np.array(spec["xy"], float)*scale
        pos = pos - pos[0]
        size = np.abs(pos).max()
        for fld in (np.zeros((2, 2)), np.array([[0, -1.], [1, 0]]),
                    np.array([[1., 0], [0, 0]]), np.array([[0., 0], [0, 1]]),
                    np.array([[0., 1], [1, 0]]),
                    np.array([[rng.randrange(-5, 6) for _ in range(2)]
                              for _ in range(2)], float)):
            shift = np.array([rng.randrange(-3, 4), rng.randrange(-3, 4)])
            disp = (pos @ fld.T + shift*size).ravel()
            eps = np.array([fld[0, 0], fld[1, 1], fld[0, 1] + fld[1, 0]])
            sig = cmat @ eps
            want = np.column_stack((grad[:, 0]*sig[0] + grad[:, 1]*sig[2],
                                    grad[:, 0]*sig[2] + grad[:, 1]*sig[1]))
            ok = u.safe(lambda: u.close(kmat @ disp, want.ravel(),
                                        ref*np.abs(disp).max(), 1e-9))
            if not ok:
                ctx.fail("linear-field", dict(info, gradient=fld,
                                              spec=want.ravel(), code=kmat @ disp))
                break
        ctx.count(f"{fam}_{rec['kind']}")
    one = res.json("ele0")
    ctx.sample({"scenario": scen[0], "xy": one["xy"], "K": one["K"][:2],
                "denominators": one["kden"]})
