"""C38: element matrices follow the element when turned, mirrored, relisted."""
import numpy as np
from harness import c11, c12
from harness import elements as el
from harness import util as u
from harness.c08 import PLANE

ROUTINE = dict(PLANE, axi9="elast_axi_quad9", tet4="elast_tet4",
               hex8="elast_hex8", spring="spring", truss="truss2D",
               beam2D="beam2D", beam2DU="beam2DU")
POISSON = [0., .5, .25, -.25, 1/3, -.5, .3, .4, .49, -.9]
# powers of the size in stiffness and mass
POWER = {"plane": (0, 2), "solid": (1, 3), "axi9": (1, 3), "spring": (0, 0),
         "truss": (-1, 1)}


def sort(kind):
    return "plane" if kind in PLANE else "solid" if kind in c11.SOLID else kind


def plane(rng, kind):
    form = rng.choice(["curved", "curved", "straight", "slender", "affine"])
    fam = "quad9" if kind == "axi9" else kind
    if form == "straight" and fam.startswith("quad"):
        corners = np.array(el.straight(rng, 0, fam)["corners"], float)
        pts = np.vstack((corners, (corners + np.roll(corners, -1, axis=0))/2,
                         [corners.mean(axis=0)]))[:len(el.REF2[fam])]
    elif form in ("curved", "straight"):
        pts = np.array(el.curved(rng, 0, fam)["nodes"], float)
        num = 3 if fam.startswith("tri") else 4
        if len(pts) >= 2*num and rng.random() < .5:     # some sides straight
            mixed = pts.copy()
            for k in rng.sample(range(num), rng.randrange(1, num)):
                mixed[num + k] = (pts[k] + pts[(k + 1) % num])/2
            if el.jacobian_ok(None, fam, mixed, .05):
                pts = mixed
    else:
        rec = getattr(el, form)(rng, 0, fam)
        pts = np.array(el.REF2[fam]) @ np.array([rec["j1"], rec["j2"]], float)
        pts = pts + rec["x0"]
    if kind == "axi9":
        if form == "straight" and rng.random() < .5:
            return c12.geometry(c12.quad(rng, 0))
        span = np.ptp(pts[:, 0])
        pts[:, 0] += rng.choice([.2, 1, 9])*span - pts[:, 0].min()
    return pts


def solid(rng, kind):
    form = rng.choice(["distorted", "distorted", "affine", "slender"])
    if kind == "hex8" and form == "distorted":
        return np.array(c11.distorted(rng, 0)["nodes"], float)
    rec = (c11.slender if form == "slender" else c11.affine)(rng, 0, kind)
    ref = c11.HEX if kind == "hex8" else np.vstack((np.zeros(3), np.eye(3)))
    return ref @ np.array(rec["j"], float) + rec["x0"]


def member(rng):
    while True:
        far = rng.choice([2, 9, 40, 1000])
        ends = [[rng.randrange(-far, far + 1) for _ in range(2)]
                for _ in range(2)]
        if rng.random() < .3:
            ends[1][rng.randrange(2)] = ends[0][rng.randrange(2)]
        if ends[0] != ends[1]:
            return np.array(ends, float)


def params(rng, kind):
    if kind == "spring":
        return [rng.choice([1., 7.5, 1e6])]
    if kind in ("truss", "beam2D", "beam2DU"):
        num = {"truss": 2, "beam2D": 3, "beam2DU": 2}[kind]
        row = [rng.choice([1., 2., .3, 17.]) for _ in range(num)]
        return row + [rng.choice([.5, 3., 20.])]*(rng.random() < .6)
    while True:
        pois = rng.choice(POISSON)
        if pois < .5 or kind in PLANE:
            break
    row = [rng.choice([1., 8/3, 210e9, 1e-3]), pois]
    given = kind not in ("tri3", "tri6", "quad4", "quad9",
                         "truss") or rng.random() < .6
    return row + [rng.choice([.5, 3., 7800.])]*given


def turned(mat, rec, kind):
    """The matrix of the listed nodes in turned axes."""
    rot = np.array(rec["map"], float)/rec["len"]
    if kind.startswith("beam"):
        rot = np.block([[rot, np.zeros((2, 1))],
                        [np.zeros((1, 2)), np.full((1, 1), rec["det"])]])
    dim = len(rot)
    old = [dim*(p - 1) + c for p in rec["perm"] for c in range(dim)]
    trans = np.kron(np.eye(len(rec["perm"])), rot)
    return trans @ mat[np.ix_(old, old)] @ trans.T


def run(ctx):
    import solidspy.uelutil as uel
    rng = ctx.rng
    res = ctx.tlc("Symmetry", ctx.pick("Symmetry", "SymmetryDeep"))
    places = {}
    for rec in res.lines("symmetry"):
        places.setdefault(rec["kind"], []).append(rec)
    assert set(places) == set(ROUTINE)
    for kind, recs in sorted(places.items()):
        recs.sort(key=lambda r: (r["len"], r["map"], r["perm"]))
        group = sort(kind)
        for _ in range(ctx.pick(14, 150)):
            pts = plane(rng, kind) if group in ("plane", "axi9") else \
                solid(rng, kind) if group == "solid" else member(rng)
            par = params(rng, kind)
            unit = rng.choice([1., 1., .25, 2.**-20, 2.**12]) \
                if not kind.startswith("beam") else 1.
            pts = pts*unit
            first = u.call(getattr(uel, ROUTINE[kind]),
                           u.relay(rng, pts.copy()), u.relay(rng, np.array(par)))
            info = {"kind": kind, "coord": pts, "params": par}
            if first.err:
                ctx.fail("raised", dict(info, err=first.err))
                continue
            for rec in rng.sample(recs, min(len(recs), ctx.pick(7, 40))):
                place(ctx, uel, kind, pts, par, first.val, rec, info, unit)
                ctx.count(kind)
    ctx.exhaustive = False
    ctx.sample(places["hex8"][-1])


def place(ctx, uel, kind, pts, par, first, rec, info, unit):
    rng = ctx.rng
    perm = [p - 1 for p in rec["perm"]]
    size = 1. if kind.startswith("beam") else rng.choice([1., 1., 2., .125,
                                                          3., 2.**16])
    new = (pts @ np.array(rec["map"], float).T/rec["len"])[perm]*size
    shift = np.array([rng.choice([0, 0, 3, -7, 40]) for _ in range(len(new[0]))]
                     )*size*unit
    if rec["len"] == 1 and np.all(np.mod(pts/unit*8, 1) == 0) and \
            rng.random() < .4:                      # far away, exactly
        shift = np.array([rng.choice([-1, 1])*2.**rng.randrange(8, 15)
                          for _ in shift])*size*unit
    if kind == "axi9":
        shift[0] = 0
    new = new + shift
    par = list(par)
    young = rng.choice([1., 1., 4., 2.**-30])
    par[0] *= young
    dens = 1.
    if len(par) > (1 if kind == "spring" else 3 if kind == "beam2D" else 2):
        dens = rng.choice([1., 2., 2.**20])
        par[-1] *= dens
    got = u.call(getattr(uel, ROUTINE[kind]), u.relay(rng, new),
                 u.relay(rng, np.array(par)))
    ctx.trace()
    info = dict(info, place=rec, moved=new, moved_params=par)
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    power = POWER.get(sort(kind), (0, 0))
    try:
        want = [turned(u.dense(mat), rec, kind)*fac for mat, fac in
                zip(first, (young*size**power[0], dens*size**power[1]))]
        code = [u.dense(mat) for mat in got.val]
    except Exception as exc:
        ctx.fail("malformed", dict(info, err=repr(exc)))
        return
    for name, ref, val in zip(("stiffness", "mass"), want, code):
        if not u.close(val, ref, np.abs(ref).max() or 1., 1e-9):
            ctx.fail(name, dict(info, spec=ref, code=val))
