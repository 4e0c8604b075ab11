"""Random meshes with integer coordinates, shared by several checks."""
import math
import numpy as np

TYPES = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4}


def grid(rng, fam, nx, ny, step=8, jitter=2, curve=0, shuffle=True):
    """(nodes, conn): integer coordinates and zero-based connectivities.

    Corners sit on a jittered grid of spacing `step` with even coordinates,
    mid-side nodes exactly between them (moved by up to `curve`).
    """
    while True:
        pts, cells = _corners(rng, fam, nx, ny, step, jitter)
        if fam.startswith("quad") or all(
                _twice([pts[c] for c in row]) > step*step//8
                for row in cells):
            break
    if shuffle:
        rng.shuffle(cells)
        cells = [c[k:] + c[:k] for c in cells
                 for k in [rng.randrange(len(c))]]
    return _finish(rng, fam, pts, cells, curve, shuffle)


def _twice(tri):
    """Twice the signed area of a triangle."""
    (ax, ay), (bx, by), (cx, cy) = tri
    return (bx - ax)*(cy - ay) - (by - ay)*(cx - ax)


def _corners(rng, fam, nx, ny, step, jitter):
    corner = {}
    pts = []
    for j in range(ny + 1):
        for i in range(nx + 1):
            corner[i, j] = len(pts)
            dx = 2*rng.randrange(-jitter//2, jitter//2 + 1) if jitter else 0
            dy = 2*rng.randrange(-jitter//2, jitter//2 + 1) if jitter else 0
            pts.append([step*i + dx, step*j + dy])
    cells = []
    for j in range(ny):
        for i in range(nx):
            quad = [corner[i, j], corner[i + 1, j], corner[i + 1, j + 1],
                    corner[i, j + 1]]
            if fam.startswith("quad"):
                cells.append(quad)
            elif rng.random() < .5:
                cells += [[quad[0], quad[1], quad[2]],
                          [quad[0], quad[2], quad[3]]]
            else:
                cells += [[quad[0], quad[1], quad[3]],
                          [quad[1], quad[2], quad[3]]]
    return pts, cells


def _finish(rng, fam, pts, cells, curve, shuffle):
    mids = {}
    conn = []
    for cell in cells:
        row = list(cell)
        if fam in ("tri6", "quad9"):
            for a, b in zip(cell, cell[1:] + cell[:1]):
                key = (min(a, b), max(a, b))
                if key not in mids:
                    mids[key] = len(pts)
                    pts.append([(pts[a][k] + pts[b][k])//2
                                + (rng.randrange(-curve, curve + 1)
                                   if curve else 0) for k in range(2)])
                row.append(mids[key])
            if fam == "quad9":
                row.append(len(pts))
                pts.append([sum(pts[c][k] for c in cell)//4
                            for k in range(2)])
        conn.append(row)
    if shuffle:
        perm = list(range(len(pts)))
        rng.shuffle(perm)
        new = [None]*len(pts)
        for old, to in enumerate(perm):
            new[to] = pts[old]
        pts = new
        conn = [[perm[c] for c in row] for row in conn]
    return pts, conn


HUB = [(8, 0), (8, 4), (6, 6), (4, 8), (0, 8), (-4, 8), (-6, 6), (-8, 4),
       (-8, 0), (-8, -4), (-6, -6), (-4, -8), (0, -8), (4, -8), (6, -6),
       (8, -4)]


def fan(rng, fam="tri3", shuffle=True):
    """Triangles around one shared node: up to sixteen elements per node."""
    num = rng.randrange(9, 17)
    first = rng.randrange(16)
    rim = [HUB[(first + k) % 16] for k in range(num)]
    pts = [[0, 0]] + [list(p) for p in rim]
    conn = [[0, k, k + 1] for k in range(1, num)]
    if num == 16:
        conn.append([0, 16, 1])
    conn = [c[k:] + c[:k] for c in conn for k in [rng.randrange(3)]]
    if fam == "tri6":
        mids = {}
        full = []
        for cell in conn:
            row = list(cell)
            for one, two in zip(cell, cell[1:] + cell[:1]):
                key = (min(one, two), max(one, two))
                if key not in mids:
                    mids[key] = len(pts)
                    pts.append([(pts[one][k] + pts[two][k])//2
                                for k in range(2)])
                row.append(mids[key])
            full.append(row)
        conn = full
    if shuffle:
        rng.shuffle(conn)
        perm = rng.sample(range(len(pts)), len(pts))
        new = [None]*len(pts)
        for old, place in enumerate(perm):
            new[place] = pts[old]
        pts, conn = new, [[perm[c] for c in row] for row in conn]
    return pts, conn


def crowd(rng, num):
    """`num` slim triangles around one shared node, on a convex rim."""
    quarter = (num + 3)//4
    steps = sorted(((a, b) for a in range(1, quarter + 1)
                    for b in range(0, quarter + 1) if math.gcd(a, b) == 1),
                   key=lambda s: s[0] + s[1])[:quarter]
    steps.sort(key=lambda s: s[1]/s[0])
    sides = [(a, b) for a, b in steps]
    for _ in range(3):
        sides += [(-b, a) for a, b in sides[-len(steps):]]
    rim, pos = [], [0, 0]
    for side in sides:
        rim.append(tuple(pos))
        pos = [pos[0] + side[0], pos[1] + side[1]]
    centre = [(rim[0][k] + rim[len(rim)//2][k])//2 for k in range(2)]
    pts = [centre] + [list(p) for p in rim]
    conn = [[0, k, k % len(rim) + 1] for k in range(1, len(rim) + 1)]
    return pts, [c[k:] + c[:k] for c in conn for k in [rng.randrange(3)]]


def idents(rng, num):
    """Identifiers as users number things: they never mean positions."""
    how = rng.random()
    if how < .4:
        return list(range(num))
    if how < .6:
        return list(range(1, num + 1))
    if how < .8:
        return rng.sample(range(num), num)
    return rng.sample(range(4*num + 3), num)


def node_table(rng, xy, cons=None, tags=True):
    """nodes array: tag, x, y[, constraints]."""
    xy = np.asarray(xy, float)
    num = len(xy)
    ids = np.arange(num, dtype=float)
    if tags:                     # the tag column is never used
        ids = np.array(idents(rng, num), float)
    cols = [ids[:, None], xy]
    if cons is not None:
        cols.append(np.asarray(cons, float))
    return np.hstack(cols)


def element_table(rng, fam, conn, mat_ids):
    ids = idents(rng, len(conn))
    return np.array([[ids[k], TYPES[fam], mat_ids[k]] + list(row)
                     for k, row in enumerate(conn)], dtype=int)
