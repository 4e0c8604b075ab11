"""Scenarios of PlaneElements.tla / SolidElements.tla."""
import numpy as np

REF2 = {"tri3": [[0, 0], [1, 0], [0, 1]],
        "tri6": [[0, 0], [1, 0], [0, 1], [.5, 0], [.5, .5], [0, .5]],
        "quad4": [[-1, -1], [1, -1], [1, 1], [-1, 1]],
        "quad8": [[-1, -1], [1, -1], [1, 1], [-1, 1], [0, -1], [1, 0],
                  [0, 1], [-1, 0]],
        "quad9": [[-1, -1], [1, -1], [1, 1], [-1, 1], [0, -1], [1, 0],
                  [0, 1], [-1, 0], [0, 0]]}
FAMS2 = list(REF2)
POISSON = [(0, 1), (1, 2), (1, 4), (-1, 4), (1, 3), (-1, 2), (3, 10), (2, 5),
           (49, 100), (499, 1000), (49999, 100000), (-99, 100)]


def affine(rng, ident, fam, top=4, jac=None):
    while jac is None:
        j1 = [2*rng.randrange(-top, top + 1) for _ in range(2)]
        j2 = [2*rng.randrange(-top, top + 1) for _ in range(2)]
        det = j1[0]*j2[1] - j1[1]*j2[0]
        size = j1[0]**2 + j1[1]**2 + j2[0]**2 + j2[1]**2
        if det > 0 and det >= .02*size:
            jac = (j1, j2)
    return {"id": ident, "fam": fam, "kind": "affine",
            "j1": jac[0], "j2": jac[1],
            "x0": [rng.randrange(-12, 13), rng.randrange(-12, 13)]}


def slender(rng, ident, fam):
    """Affine image with one side much longer than the other."""
    top = {"quad8": 48, "quad9": 58}.get(fam, 160)      # 32-bit integers
    longer = rng.choice([12, 25, top - 1, top])
    far = [2*longer*rng.choice([1, -1]), rng.choice([0, 0, 2, -2, 4])]
    near = [rng.choice([0, 0, 2, -2]), 2*rng.choice([1, -1])]
    if rng.random() < .5:
        far, near = far[::-1], near[::-1]
    jac = (far, near) if rng.random() < .5 else (near, far)
    if jac[0][0]*jac[1][1] - jac[0][1]*jac[1][0] <= 0:
        jac = jac[::-1]
    if jac[0][0]*jac[1][1] - jac[0][1]*jac[1][0] < 2*longer:
        return slender(rng, ident, fam)
    return affine(rng, ident, fam, jac=jac)


def corner_dets(pts):
    pts = np.asarray(pts, float)
    nxt, prv = np.roll(pts, -1, axis=0), np.roll(pts, 1, axis=0)
    e1, e2 = nxt - pts, prv - pts
    return e1[:, 0]*e2[:, 1] - e1[:, 1]*e2[:, 0]


def straight(rng, ident, fam):
    """General convex quadrilateral, corners multiples of 4."""
    form = rng.random()
    while True:
        pts = [[4*rng.randrange(-9, 10) for _ in range(2)] for _ in range(4)]
        if form < .35:                  # a trapezoid
            times = rng.choice([2, 2, 3])
            pts[2] = [pts[3][k] + times*(pts[1][k] - pts[0][k])
                      for k in range(2)]
            if max(map(abs, pts[2])) > 48:
                continue
        dets = corner_dets(pts)
        if dets.min() > 0 and dets.min() > .15*dets.max():
            break
    start = rng.randrange(4)
    pts = pts[start:] + pts[:start]
    return {"id": ident, "fam": fam, "kind": "straight", "corners": pts}


def jacobian_ok(fem, fam, pts, floor=.2):
    """Positive, not too uneven Jacobian over a grid of reference points."""
    shape = SHAPES2[fam]
    dets = []
    if fam.startswith("tri"):
        grid = [(a/6, b/6) for a in range(7) for b in range(7 - a)]
    else:
        grid = [(a/3, b/3) for a in range(-3, 4) for b in range(-3, 4)]
    for r, s in grid:
        jac = shape(r, s) @ pts
        dets.append(jac[0, 0]*jac[1, 1] - jac[0, 1]*jac[1, 0])
    return min(dets) > floor*max(dets) > 0


def _lag(x, at):
    return {-1: (x*(x - 1)/2, x - .5), 1: (x*(x + 1)/2, x + .5),
            0: (1 - x*x, -2*x)}[at]


def _d_tri3(r, s):
    return np.array([[-1., 1, 0], [-1, 0, 1]])


def _d_tri6(r, s):
    q = 1 - r - s
    return np.array([
        [1 - 4*q, 4*r - 1, 0, 4*(q - r), 4*s, -4*s],
        [1 - 4*q, 0, 4*s - 1, -4*r, 4*r, 4*(q - s)]])


def _d_quad4(r, s):
    ref = np.array(REF2["quad4"], float)
    return np.array([ref[:, 0]*(1 + s*ref[:, 1]),
                     ref[:, 1]*(1 + r*ref[:, 0])])/4


def _d_quad9(r, s):
    out = []
    for a, b in REF2["quad9"]:
        (la, da), (lb, db) = _lag(r, a), _lag(s, b)
        out.append([da*lb, la*db])
    return np.array(out).T


def _d_quad8(r, s):
    out = []
    for a, b in REF2["quad8"]:
        if a and b:
            out.append([a*(1 + b*s)*(2*a*r + b*s)/4,
                        b*(1 + a*r)*(a*r + 2*b*s)/4])
        elif a == 0:
            out.append([-r*(1 + b*s), (1 - r*r)*b/2])
        else:
            out.append([(1 - s*s)*a/2, -s*(1 + a*r)])
    return np.array(out).T


SHAPES2 = {"tri3": _d_tri3, "tri6": _d_tri6, "quad4": _d_quad4,
           "quad8": _d_quad8, "quad9": _d_quad9}


def curved(rng, ident, fam, top=60):
    """Perturbed element with integer nodes and a safe Jacobian."""
    while True:
        base = affine(rng, 0, fam)
        if base["j1"][0]*base["j2"][1] - base["j1"][1]*base["j2"][0] < 16:
            continue
        pts = (np.array(REF2[fam]) @ np.array([base["j1"], base["j2"]], float)
               )*5
        pts += np.array([[rng.uniform(-1, 1) for _ in range(2)]
                         for _ in pts])*rng.choice([1, 3, 6])
        pts = np.rint(pts + np.array(base["x0"])).astype(int)
        if jacobian_ok(None, fam, pts.astype(float)):
            return {"id": ident, "fam": fam, "kind": "curved",
                    "nodes": pts.tolist()}
