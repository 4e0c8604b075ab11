"""C06: a complete analysis returns the manufactured nodal solution."""
import importlib
import os
from fractions import Fraction
import numpy as np
from harness import elements as el
from harness import meshes as ms
from harness import util as u

POISSON = [(0, 1), (1, 4), (-1, 4), (1, 3), (-1, 2), (3, 10), (2, 5)]


def plane(rng, ident, big):
    fam = rng.choice(["tri3", "tri6", "quad4", "quad9"])
    linear = rng.random() < .4
    top = (9 if fam in ("tri3", "quad4") else 5) if big else 3
    nx, ny = rng.randrange(1, top + 1), rng.randrange(1, top + 1)
    while True:
        if linear:
            pts, conn = ms.grid(rng, fam, nx, ny, step=8,
                                jitter=rng.choice([0, 2]),
                                curve=rng.choice([0, 1])
                                if fam in ("tri6", "quad9") else 0)
        elif fam.startswith("tri"):
            pts, conn = ms.grid(rng, fam, nx, ny, step=8, jitter=2)
        else:                    # parallelograms
            pts, conn = ms.grid(rng, fam, nx, ny, step=4, jitter=0)
            low = rng.choice([[1, 0, 0, 1], [1, 1, 0, 1], [2, 0, 1, 1],
                              [1, 0, -1, 2], [3, 1, 1, 2], [0, -1, 1, 0]])
            pts = [[low[0]*p[0] + low[1]*p[1], low[2]*p[0] + low[3]*p[1]]
                   for p in pts]
        arr = np.array(pts, float)
        if all(fam == "tri3" or el.jacobian_ok(None, fam, arr[row], .1)
               for row in conn) and \
           (fam != "tri3" or all(area3(arr[row]) > 8 for row in conn)):
            break
    num = len(pts)
    org = [rng.randrange(-20, 21), rng.randrange(-20, 21)]
    pts = [[p[0] + org[0], p[1] + org[1]] for p in pts]
    nmat = rng.choice([1, 1, 2, 3, 5])
    mats = [list(rng.choice(POISSON)) for _ in range(nmat)]
    mat = [rng.randrange(nmat) for _ in conn]
    cons = [[0, 0] for _ in pts]
    lin = []
    far = lambda c: max(range(num), key=lambda k: abs(pts[k][0] - pts[c][0])
                        + abs(pts[k][1] - pts[c][1]))
    if linear:
        cen = rng.randrange(num)
        oth = far(cen)
        dx, dy = (pts[oth][k] - pts[cen][k] for k in range(2))
        g = np.gcd(dx, dy)
        row = [int(-dy//g), int(dx//g)]
        comp = 1 if abs(dx) >= abs(dy) else 0
        if max(map(abs, row)) > 12:
            row = [0, 0]
        lin = [None, None]
        lin[comp] = [rng.choice([-1, 1])*v for v in row] \
            if rng.random() < .5 else row
        s = rng.choice([-1, 1])
        lin[comp] = [s*v for v in row]
        lin[1 - comp] = [rng.randrange(-4, 5), rng.randrange(-4, 5)]
        cons[cen] = [-1, -1]
        cons[oth][comp] = -1
        disp = [[lin[c][0]*(p[0] - pts[cen][0]) + lin[c][1]*(p[1] - pts[cen][1])
                 for c in range(2)] for p in pts]
        for n in range(num):      # more supports where the field vanishes
            for c in range(2):
                if disp[n][c] == 0 and rng.random() < .5:
                    cons[n][c] = -1
    else:
        cen = rng.randrange(num)
        oth = far(cen)
        cons[cen] = [-1, -1]
        cons[oth] = [-1, -1]
        for n in range(num):
            if n not in (cen, oth) and rng.random() < .2:
                cons[n] = rng.choice([[-1, 0], [0, -1], [-1, -1]])
        disp = [[0 if cons[n][c] == -1 else
                 rng.choice([0, rng.randrange(-9, 10), rng.randrange(-9, 10)])
                 for c in range(2)] for n in range(num)]
    return {"id": ident, "fam": fam, "nodes": pts, "conn": conn, "mats": mats,
            "mat": mat, "cons": cons, "u": disp, "lin": lin,
            "types": [ms.TYPES[fam]]*len(conn)}


def area3(tri):
    (ax, ay), (bx, by), (cx, cy) = tri
    return (bx - ax)*(cy - ay) - (by - ay)*(cx - ax)


def bars(rng, ident, big):
    """Simple structure: every new node hangs on two non-parallel members."""
    num = rng.randrange(3, 25 if big else 8)
    pts = [[0, 0], [rng.randrange(2, 8), rng.randrange(-3, 4)]]
    cons = [[-1, -1], [-1, -1]]
    conn, types = [], []
    kind = rng.choice([[5], [6], [5, 6], [6]])
    while len(pts) < num:
        p = [rng.randrange(-15, 16), rng.randrange(-15, 16)]
        a, b = rng.sample(range(len(pts)), 2)
        det = area3([pts[a], pts[b], p])
        la = np.hypot(p[0] - pts[a][0], p[1] - pts[a][1])
        lb = np.hypot(p[0] - pts[b][0], p[1] - pts[b][1])
        if p in pts or abs(det) < .3*la*lb:
            continue
        new = len(pts)
        pts.append(p)
        cons.append(rng.choice([[0, 0]]*4 + [[-1, 0], [0, -1]]))
        for o in (a, b):
            conn.append(rng.choice([[o, new], [new, o]]))
            types.append(rng.choice(kind))
        if rng.random() < .3:
            o = rng.choice([k for k in range(new)])
            conn.append([new, o])
            types.append(rng.choice(kind))
    perm = rng.sample(range(num), num)
    where = {o: k for k, o in enumerate(perm)}
    pts = [pts[o] for o in perm]
    cons = [cons[o] for o in perm]
    conn = [[where[c] for c in row] for row in conn]
    order = rng.sample(range(len(conn)), len(conn))
    conn = [conn[k] for k in order]
    types = [types[k] for k in order]
    nmat = rng.choice([1, 2, 3])
    disp = [[0 if cons[n][c] == -1 else rng.randrange(-9, 10)
             for c in range(2)] for n in range(num)]
    return {"id": ident, "fam": "bars", "nodes": pts, "conn": conn,
            "mats": [[0, 1] for _ in range(nmat)],
            "mat": [rng.randrange(nmat) for _ in conn], "cons": cons,
            "u": disp, "lin": [], "types": types}


def moduli(rng, rec):
    nmat = len(rec["mats"])
    if rec["fam"] == "bars":
        table = []
        for _ in range(nmat):
            table.append([rng.choice([1., 2.5, 7., 100.])*rng.choice([1., 1e3]),
                          rng.choice([1., .5, .01])])
            table[-1][0] /= table[-1][1] if 5 not in rec["types"] else 1.
        return np.array(table)
    base = rng.choice([1., 1., 210e9, 1e3, 1e-3, 1e-14])
    wide = rng.random() < .3
    return np.array([[base*rng.choice([1, 1, 2, 5]), p/q]
                     + ([rng.uniform(1, 9)] if wide else [])
                     for p, q in rec["mats"]])


def nodal_forces(rec, spec, mats):
    """Exact sums of the forces the specification hands to each node."""
    out = np.zeros((len(rec["nodes"]), 2))
    for node, box in enumerate(spec["inbox"]):
        for ele, num, den in box:
            row = mats[rec["mat"][ele]]
            if rec["fam"] == "bars":
                fac = (row[0]/den[0] if rec["types"][ele] == 5
                       else row[0]*row[1]/den[0]**1.5)
                out[node] += [fac*v for v in num]
            else:
                d = 1
                for v in den[1:]:
                    d *= v
                for c in range(2):
                    out[node, c] += row[0]*float(Fraction(num[c]*den[0], d))
    return out


def load_rows(rng, rec, forces, scale):
    """Several rows per node, junk on the restrained components."""
    rows = []
    for node, force in enumerate(forces):
        force = force.copy()
        for c in range(2):
            if rec["cons"][node][c] == -1:
                force[c] = rng.choice([force[c], 0., rng.uniform(-9, 9)*scale])
        if not np.any(force) and rng.random() < .7:
            continue
        parts = rng.choice([1, 1, 1, 2, 3])
        for _ in range(parts - 1):
            take = force*rng.choice([.5, .25, 2., -1.])
            rows.append([node, *take])
            force = force - take
        rows.append([node, *force])
    if not rows:
        rows = [[0, 0., 0.]]
    rng.shuffle(rows)
    return np.array(rows, float)


def write(rng, folder, nodes, eles, mats, loads):
    os.makedirs(folder)
    for name, tab, fmt in (("nodes", nodes, "%.17g"), ("mater", mats, "%.17g"),
                           ("eles", eles, "%d"), ("loads", loads, "%.17g")):
        np.savetxt(os.path.join(folder, name + ".txt"), tab, fmt=fmt,
                   delimiter=rng.choice([" ", "\t", "   "]))


def run(ctx):
    gui = importlib.import_module("solidspy.solids_GUI")
    rng = ctx.rng
    num, big = ctx.pick((130, 8), (1500, 120))
    scen = []
    for k in range(num + big):
        make = bars if rng.random() < .3 else plane
        scen.append(make(rng, k, k >= num))
    res = ctx.tlc("Analysis", scenarios=scen)
    done = [one(ctx, gui, rec, res.json(f"an{rec['id']}")) for rec in scen]
    together(ctx, gui, [d for d in done if d])
    ctx.sample({k: scen[0][k] for k in ("fam", "nodes", "conn", "cons", "u")})


def one(ctx, gui, rec, spec):
    rng = ctx.rng
    mats = moduli(rng, rec)
    bar = rec["fam"] == "bars"
    size = rng.choice([1., 1., .001, 250.])      # length unit
    if not bar:
        size *= rng.choice([1., 1., 2.**-15, 1e4])
    amp = rng.choice([1., 1., 1e-4])
    if bar:
        # spring: k u; truss: E A u / L
        unit = {5: amp, 6: amp/size}
        forces = np.zeros((len(rec["nodes"]), 2))
        for ty in (5, 6):
            sub = {"inbox": [[f for f in box if rec["types"][f[0]] == ty]
                             for box in spec["inbox"]]}
            forces += nodal_forces(rec, sub, mats)*unit[ty]
    else:
        forces = nodal_forces(rec, spec, mats)*amp
    loads = load_rows(rng, rec, forces, np.abs(forces).max() or 1.)
    cons = np.array(rec["cons"])
    nodes5 = ms.node_table(rng, np.array(rec["nodes"], float)*size, cons)
    eles = np.array([[k, ty, mt] + list(row) for k, ty, mt, row in
                     zip(ms.idents(rng, len(rec["conn"])), rec["types"],
                         rec["mat"], rec["conn"])])
    want = np.array(rec["u"], float)*amp
    info = {"fam": rec["fam"], "nodes": nodes5, "elements": eles,
            "mats": mats, "loads": loads, "u": want}
    ctx.trace()
    ctx.count(rec["fam"])
    strains = rec["fam"] in ("tri3", "tri6", "quad4")
    results = []
    for comp in ([False, True] if strains else [False]):
        data = {"nodes": nodes5[:, :3].copy(), "cons": cons.copy(),
                "elements": eles.copy(), "mats": mats.copy(),
                "loads": loads.copy()}
        data = {key: u.relay(rng, tab, .3) for key, tab in data.items()}
        results.append((f"auto strains={comp}", comp, u.call(
            gui.solids_auto, data, plot_contours=False, compute_strains=comp)))
    folder = os.path.join(ctx.subdir("models"), str(rec["id"]))
    write(rng, folder, nodes5, eles, mats, loads)
    comp = strains and rng.random() < .5
    slash = rng.random() < .5
    results.append((f"files strains={comp} slash={slash}", comp, u.call(
        gui.solids_GUI, plot_contours=False, compute_strains=comp,
        folder=folder + (os.sep if slash else ""))))
    scale = np.abs(want).max()
    tol = 1e-8*scale if scale else 1e-9*amp
    part = (rec["fam"], nodes5, eles, mats, loads, want, tol)
    if bar:
        part = None
        tol = max(tol, 64*np.finfo(float).eps*scale
                  * conditioning(rec, nodes5[:, 1:3], mats))
    for name, comp, got in results:
        if got.err:
            ctx.fail("raised", dict(info, how=name, err=got.err))
            continue
        val = got.val
        if comp:
            if not (isinstance(val, (tuple, list)) and len(val) == 3):
                ctx.fail("no-strains", dict(info, how=name,
                                            code=repr(val)[:300]))
                continue
            eps = u.safe_dense(val[1])
            sig = u.safe_dense(val[2])
            val = val[0]
            check_strains(ctx, rec, info, name, eps, sig, amp/size, mats)
            recovered(ctx, info, name, eps, sig)
        if not u.close(val, want, 1., tol):
            ctx.fail("displacements", dict(info, how=name,
                                           code=u.safe_dense(val)))
    return part


def together(ctx, gui, parts):
    """Many models of one family as one large model whose parts do not touch:
    every part moves as it does alone."""
    rng = ctx.rng
    for fam in ("tri3", "tri6", "quad4", "quad9"):
        some = [p for p in parts if p[0] == fam]
        if not some:
            continue
        some = [rng.choice(some) for _ in range(80)]
        nodes, eles, mats, loads, want, tols = [], [], [], [], [], []
        at = mt = 0
        for _, nod, ele, mat, load, move, tol in some:
            nod, ele, load = nod.copy(), ele.copy(), load.copy()
            ele[:, 3:] += at
            ele[:, 2] += mt
            load[:, 0] += at
            at, mt = at + len(nod), mt + len(mat)
            nodes.append(nod)
            eles.append(ele)
            wide = max(p[3].shape[1] for p in some)
            mats.append(np.pad(mat, ((0, 0), (0, wide - mat.shape[1])),
                               constant_values=1.))
            loads.append(load)
            want.append(move)
            tols += [tol]*len(move)
        nodes, eles, mats, loads, want = (np.concatenate(t) for t in (
            nodes, eles, mats, loads, want))
        nodes[:, 0] = np.arange(len(nodes))
        eles[:, 0] = np.arange(len(eles))
        got = u.call(gui.solids_auto, {
            "nodes": nodes[:, :3], "cons": nodes[:, 3:].astype(int),
            "elements": eles, "mats": mats, "loads": loads},
            plot_contours=False)
        ctx.trace()
        ctx.count("together", len(eles))
        if got.err or not u.safe(lambda: np.shape(got.val) == want.shape and
                                 np.all(np.abs(got.val - want) <=
                                        np.array(tols)[:, None])):
            ctx.fail("together", {"fam": fam, "elements": len(eles),
                                  "err": got.err})


def conditioning(rec, pts, mats):
    """Condition number of the free stiffness: how far rounding can reach."""
    stiff = np.zeros((2*len(pts), 2*len(pts)))
    for ty, mt, (a, b) in zip(rec["types"], rec["mat"], rec["conn"]):
        vec = pts[b] - pts[a]
        span = np.hypot(*vec)
        fac = mats[mt][0] if ty == 5 else mats[mt][0]*mats[mt][1]/span
        row = np.concatenate([-vec, vec])/span
        dofs = [2*a, 2*a + 1, 2*b, 2*b + 1]
        stiff[np.ix_(dofs, dofs)] += fac*np.outer(row, row)
    free = np.flatnonzero(np.array(rec["cons"]).ravel() != -1)
    return np.linalg.cond(stiff[np.ix_(free, free)]) if len(free) else 1.


def recovered(ctx, info, name, eps, sig):
    """The strains and stresses reported are those recovered from the field
    the analysis had to find."""
    import solidspy.postprocesor as pos
    nodes, eles, mats = info["nodes"], info["elements"], info["mats"]
    ref = u.call(pos.strain_nodes, nodes.copy(), eles.copy(), mats.copy(),
                 info["u"].copy())
    if ref.err:
        ctx.fail("recovery-raised", dict(info, err=ref.err))
        return
    edge = np.abs(np.diff(nodes[eles[:, 3:], 1:3], axis=1)).sum(axis=2).min()
    size = np.abs(info["u"]).max()/edge
    stiff = (mats[:, 0]/(1 - mats[:, 1]**2)).max()
    for what, got, want, unit in (("strains", eps, ref.val[0], size),
                                  ("stresses", sig, ref.val[1], size*stiff)):
        if not u.safe(lambda: np.shape(got) == np.shape(want) and
                      np.abs(got - want).max() <= 1e-6*unit):
            ctx.fail("reported-" + what, dict(info, how=name, spec=want,
                                              code=got))


def check_strains(ctx, rec, info, name, eps, sig, fac, mats):
    """A linear field has the same strain and stress everywhere."""
    num = len(rec["nodes"])
    if np.shape(eps) != (num, 3) or np.shape(sig) != (num, 3):
        ctx.fail("strain-shape", dict(info, how=name))
        return
    if not rec["lin"]:
        return
    lin = np.array(rec["lin"], float)*fac
    want = np.array([lin[0, 0], lin[1, 1], lin[0, 1] + lin[1, 0]])
    size = max(np.abs(lin).max(), fac)
    if not u.close(eps, np.tile(want, (num, 1)), size, 1e-7):
        ctx.fail("strains", dict(info, how=name, spec=want, code=eps))
    mean, count = np.zeros((num, 3)), np.zeros((num, 1))
    for row, mat in zip(rec["conn"], rec["mat"]):
        young, nu = mats[mat, :2]
        mean[row] += young/(1 - nu**2)*np.array(
            [want[0] + nu*want[1], nu*want[0] + want[1], (1 - nu)/2*want[2]])
        count[row] += 1
    want = mean/count
    if not u.close(sig, want, size*mats[:, 0].max(), 1e-7):
        ctx.fail("stresses", dict(info, how=name, spec=want, code=sig))
