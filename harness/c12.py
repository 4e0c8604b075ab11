"""C12: the axisymmetric element respects its symmetries and weighting."""
import math
import numpy as np
from harness import elements as el
from harness import util as u

POISSON = [(0, 1), (1, 4), (-1, 4), (1, 3), (-1, 2), (2, 5),
           (499, 1000), (-99, 100), (49999, 100000)]
REF = np.array(el.REF2["quad9"], float)


def rect(rng, ident):
    a, b = rng.randrange(1, 5), rng.randrange(1, 5)
    far = rng.choice([0, 0, 15, 45])         # thin rings, exact in 32 bits
    if far:
        a = b = 1
    p, q = rng.choice(POISSON)   # only the harness needs it
    thin = rng.choice([0, 0, 0, 6, 9, 12, 15, -3, -7, -11, -20])
    while q > 999 and thin:      # one source of cancellation at a time
        p, q = rng.choice(POISSON)
    return {"id": ident, "kind": "rect", "a": a, "b": b,
            "x0": far or a + rng.choice([0, 1, 2, 5, 9]),
            "z0": rng.randrange(-9, 10), "p": p, "q": q,
            "thin": thin}


def mean_radius(rec):
    """Rings far thinner than the exact energies of the specification reach
    in 32 bits lie further out: what is affine in the mean radius (masses,
    energies of axial motions) is continued there, and to holes far
    narrower than those of whole numbers."""
    if rec["thin"] < 0:
        return rec["a"]*(1 + 2.**rec["thin"])
    return rec["x0"]*2**rec["thin"]


def quad(rng, ident):
    while True:
        pts = [[rng.randrange(0, 24), rng.randrange(-9, 12)]
               for _ in range(4)]
        dets = el.corner_dets(pts)
        if dets.min() > 0 and dets.min() > .15*dets.max():
            break
    p, q = rng.choice(POISSON)
    return {"id": ident, "kind": "quad", "corners": pts, "p": p, "q": q}


def geometry(rec):
    if rec["kind"] == "rect":
        return np.column_stack((mean_radius(rec) + rec["a"]*REF[:, 0],
                                rec["z0"] + rec["b"]*REF[:, 1]))
    c = np.array(rec["corners"], float)
    mid = (c + np.roll(c, -1, axis=0))/2
    return np.vstack((c, mid, [c.mean(axis=0)]))


def basis(rec, spec, pos):
    """Columns: nodal vectors of the specification's fields."""
    cols = []
    if rec["kind"] == "rect":
        for radial, i, j in spec["fields"]:
            if radial and rec["thin"]:
                continue
            val = REF[:, 0]**i*REF[:, 1]**j
            vec = np.zeros((9, 2))
            vec[:, 1 - radial] = val*(pos[:, 0] if radial else 1)
            cols.append(vec.ravel())
    else:
        one = np.ones(9)
        for k, val in ((0, pos[:, 0]), (1, pos[:, 1]), (1, pos[:, 0]),
                       (1, one)):
            vec = np.zeros((9, 2))
            vec[:, k] = val
            cols.append(vec.ravel())
    return np.array(cols).T


def run(ctx):
    import solidspy.uelutil as uel
    rng = ctx.rng
    scen = []
    for _ in range(ctx.pick(60, 600)):
        scen.append(rect(rng, len(scen)))
    for _ in range(ctx.pick(60, 600)):
        scen.append(quad(rng, len(scen)))
    res = ctx.tlc("Axisym", scenarios=scen)
    factors = set()
    for rec in scen:
        one(ctx, uel, rng, rec, res.json(f"axi{rec['id']}"), factors)
    if len(factors) > 1:
        ctx.fail("weight-factor", {"factors": sorted(factors)})
    ctx.sample({"scenario": scen[0], "plain": res.json("axi0")["plain"][:2]})


def agree(got, want, noise, tol=1e-9):
    """Entrywise, relative to the energies of the two fields and to the
    round-off of the products they are sums of."""
    size = np.sqrt(np.maximum(np.abs(np.diag(want)), 1e-30))
    size = np.maximum(size, 1e-3*size.max())
    return bool(np.all(np.abs(got - want) <= tol*np.outer(size, size)
                       + 1e-12*noise))


def one(ctx, uel, rng, rec, spec, factors):
    scale = rng.choice([1., .25, 2.**-7, 64., 1e-5, 1e4, 1e-9, 1e9])
    pos = geometry(rec)
    coord = pos*scale
    if scale == 1. and np.all(coord % 1 == 0) and rng.random() < .4:
        coord = coord.astype(int)
    young = rng.choice([1., 2e11, 7e-4, rng.uniform(.1, 50)])
    dens = rng.choice([1., 7850., rng.uniform(.1, 9)])
    par = rng.choice([np.array, list, tuple])([young, rec["p"]/rec["q"], dens])
    got = u.call(uel.elast_axi_quad9, coord, par)
    ctx.trace()
    ctx.count(rec["kind"])
    info = {"kind": rec["kind"], "coord": coord, "params": list(par)}
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    kmat, mmat = (u.safe_dense(v) for v in got.val)
    if not u.safe(lambda: kmat.shape == (18, 18) and mmat.shape == (18, 18)
                  and np.all(np.isfinite(kmat))
                  and np.all(np.isfinite(mmat))):
        ctx.fail("shape", dict(info, stiff=kmat, mass=mmat))
        return
    kref, mref = u.safe_abs_max(kmat), u.safe_abs_max(mmat)
    if not u.close(kmat, kmat.T, kref, 1e-10):
        ctx.fail("symmetry", dict(info, code=kmat))
    if not u.close(mmat, mmat.T, mref, 1e-10):
        ctx.fail("mass-symmetry", dict(info, code=mmat))
    axial = np.tile([0., 1.], 9)
    if not np.abs(kmat @ axial).max() <= 1e-9*kref:
        ctx.fail("axial-translation", dict(info, code=kmat @ axial))
    # the directions of motion are uncoupled in the mass
    if np.abs(mmat[0::2, 1::2]).max() > 1e-12*mref or not u.close(
            mmat[0::2, 0::2], mmat[1::2, 1::2], mref, 1e-12):
        ctx.fail("mass-directions", dict(info, code=mmat))
    # constant radial displacement: only the hoop strain resists
    radial = np.tile([1., 0.], 9)
    energy = radial @ kmat @ radial
    nu = rec["p"]/rec["q"]
    hoop = young*(1 - nu)/(1 + nu)/(1 - 2*nu)
    area = 4*rec["a"]*rec["b"] if rec["kind"] == "rect" else spec["area"]/6
    xmin, xmax = pos[:, 0].min(), pos[:, 0].max()
    low = hoop*area/xmax**2*min(1., xmin*scale)
    high = math.inf                     # an element that touches the axis
    if xmin > 0:
        high = hoop*area/xmin**2*max(1., 2*math.pi*xmax*scale)
    if not .5*low <= energy <= 2*high:
        ctx.fail("hoop-resistance", dict(info, energy=energy,
                                         bounds=[low, high]))
    # exact energies: scale^0 for plane strain energy of u ~ 1
    fields = basis(rec, spec, pos)
    gram = fields.T @ kmat @ fields
    noise = np.abs(fields).T @ np.abs(kmat) @ np.abs(fields)
    den = np.prod([float(v) for v in spec["den"]])
    if rec.get("thin"):
        axials = [k for k, f in enumerate(spec["fields"]) if not f[0]]
        move = mean_radius(rec) - rec["x0"]
        spec = dict(spec)
        for k in ("plain", "weighted"):
            spec[k] = np.array(spec[k], float)[np.ix_(axials, axials)]
            spec["m" + k] = np.array(spec["m" + k], float)
        for k in ("", "m"):
            spec[k + "weighted"] = spec[k + "weighted"] + \
                move*spec[k + "plain"]
        ctx.count("thin rings")
    mfld = mmat[0::2, 0::2]
    if rec["kind"] == "rect":
        mwant = {k: dens*np.array(spec["m" + k], float)/spec["mden"]*scale**2
                 for k in ("plain", "weighted")}
    else:
        mwant = {"plain": dens*spec["area"]/6*scale**2,
                 "weighted": dens*spec["moment"]/6*scale**2}
        mfld = mfld.sum()
    lame = np.array([young*nu/(1 + nu)/(1 - 2*nu), young/2/(1 + nu)])
    kwant = {k: np.array(spec[k], float) @ lame/den
             for k in ("plain", "weighted")}

    def matches(name, fac):
        kw, mw = kwant[name]*fac, mwant[name]*fac
        return (agree(gram, kw, noise), bool(np.all(
            np.abs(mfld - mw) <= 1e-9*np.abs(mw).max())))

    for fac in (1., 2*math.pi):
        if matches("weighted", fac*scale) == (True, True):
            factors.add(fac)
            return
    ctx.fail("integrals", dict(info, energies=gram, spec=kwant["weighted"],
                               code_matches_plain=matches("plain", 1.)))
