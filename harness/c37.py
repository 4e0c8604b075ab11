"""C37: refining a model keeps the energy of the motions it already had."""
import itertools
import numpy as np
from harness import c30
from harness import elements as el
from harness import meshes as ms
from harness import util as u

CODE = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4, "truss": 6}
USER = {"quad8": ("elast_quad8", 16), "tetra4": ("elast_tet4", 12),
        "hexa8": ("elast_hex8", 24)}
OPS = {"tri3": [["split"], ["raise"], ["split", "raise"], ["split"]*2],
       "quad4": [["split"], ["raise"], ["edges"], ["edges", "fill"],
                 ["split", "raise"], ["split", "edges", "fill"]],
       "tetra4": [["split"]], "hexa8": [["split"]],
       "truss": [["split"], ["split"]*2, ["split"]*3],
       "beam": [["split"], ["split"]*2, ["split"]*3]}


def plane(rng, fam, top):
    """Points and connectivity; whether all elements are affine."""
    if fam == "tri3":
        pts, conn = ms.grid(rng, fam, rng.randrange(1, top + 1),
                            rng.randrange(1, top + 1), step=8, jitter=2)
        return np.array(pts)//2, conn, True
    if rng.random() < .35:             # any straight-sided ones
        while True:
            pts, conn = ms.grid(rng, fam, rng.randrange(1, top + 1),
                                rng.randrange(1, top + 1), step=8, jitter=2)
            pts = np.array(pts)//2
            if all(el.jacobian_ok(None, fam, pts[row].astype(float), .1)
                   for row in conn):
                return pts, conn, False
    nx, ny = rng.randrange(1, top + 1), rng.randrange(1, top + 1)
    one, two = rng.choice([((1, 0), (0, 1)), ((2, 1), (-1, 2)),
                           ((3, 0), (1, 2)), ((1, -2), (3, 1)),
                           ((0, 2), (-1, 0)), ((-2, 0), (1, -3))])
    at = [np.cumsum([0] + [rng.randrange(1, 5) for _ in range(n)])
          for n in (nx, ny)]
    pts = np.array([[i*one[c] + j*two[c] for c in range(2)]
                    for j in at[1] for i in at[0]])
    conn = []
    for j in range(ny):
        for i in range(nx):
            low = j*(nx + 1) + i
            cell = [low, low + 1, low + nx + 2, low + nx + 1]
            k = rng.randrange(4)
            conn.append(cell[k:] + cell[:k])
    return pts, conn, True


def solid(rng, fam, top):
    while True:
        mat = np.array([[rng.randrange(-2, 3) for _ in range(3)]
                        for _ in range(3)])
        if np.linalg.det(mat) > .5:
            break
    _, _, pts, cells = c30.lattice(rng, top)
    pts = pts//2 @ mat
    if fam == "hexa8":
        return pts, cells, True
    conn = [[cell[k] for k in tet] for cell in cells for tet in c30.TETS]
    keep = [row for row in conn if np.linalg.det(
        (pts[row[1:]] - pts[row[0]]).astype(float)) > .5]
    if len(keep) < len(conn):          # listed the other way round
        conn = [row if row in keep else [row[0], row[2], row[1], row[3]]
                for row in conn]
    return pts, rng.sample(conn, rng.randrange(1, len(conn) + 1)), True


def members(rng, fam, top):
    num = rng.randrange(2, 4*top)
    spots = rng.sample(list(itertools.product(range(-6, 7), repeat=2)), num)
    conn = [rng.sample(range(num), 2) for _ in range(rng.randrange(1, 2*num))]
    conn = [row for k, row in enumerate(conn)
            if sorted(row) not in [sorted(r) for r in conn[:k]]]
    return np.array(spots), conn, True


def scenario(rng, ident, big):
    fam = rng.choice(["tri3", "tri3", "quad4", "quad4", "quad4", "tetra4",
                      "hexa8", "hexa8", "truss", "beam"])
    ops = rng.choice(OPS[fam])
    top = 1 if fam in ("hexa8", "tetra4") else 2
    if big:
        top += 1
    make = (plane if fam in ("tri3", "quad4") else
            solid if fam in USER else members)
    pts, conn, affine = make(rng, fam, top)
    used = sorted({c for row in conn for c in row})
    new = {c: k + 1 for k, c in enumerate(used)}
    conn = [[new[c] for c in row] for row in conn]
    unit = {"tri3": 2, "quad4": 4, "hexa8": 8}.get(fam, 2)**len(ops)
    org = np.array([rng.randrange(-5, 6) for _ in range(pts.shape[1])])
    pts = (pts[used] + org)*unit
    nmat = rng.randrange(1, 4)
    return {"id": ident, "fam": fam, "xy": pts.tolist(), "conn": conn,
            "mat": [rng.randrange(nmat) for _ in conn], "nmat": nmat,
            "ops": ops, "affine": affine}


def run(ctx):
    import solidspy.assemutil as ass
    import solidspy.postprocesor as pos
    import solidspy.solutil as sol
    import solidspy.uelutil as uel
    rng = ctx.rng
    scen = [scenario(rng, k, False) for k in range(ctx.pick(150, 1500))]
    scen += [scenario(rng, len(scen) + k, True)
             for k in range(ctx.pick(6, 80))]
    res = ctx.tlc("Refine", scenarios=scen)
    for rec in scen:
        one(ctx, (ass, pos, sol, uel), rec, res.json(f"refine{rec['id']}"))
    ctx.sample({k: scen[0][k] for k in ("fam", "xy", "conn", "ops")})


def rows(rng, fam, nmat, size):
    """A material table for all families of the history."""
    out = []
    for _ in range(nmat):
        young = size*rng.choice([1., 3.5, rng.uniform(.2, 9)])
        dens = rng.choice([1., 2.5, 7850.])
        area = rng.choice([.5, 1., 3.])
        out.append({"truss": [young, area, dens],
                    "beam7": [young, rng.choice([.1, 2.]), dens, area],
                    "beam8": [young, rng.choice([.1, 2.]), area, dens]}.get(
                        fam, [young, rng.choice([0., .3, .25, -.4, .45]),
                              dens]))
    return np.array(out)


def model(ass, uel, rng, mesh, mats, at, kind, cons=None, sparse=False):
    """Assembled matrices of one mesh, its nodes listed in any order."""
    fam, (unit, shift) = mesh["fam"], at
    num = len(mesh["xy"])
    place = rng.sample(range(num), num)            # node -> row of the table
    xy = np.empty((num, len(mesh["xy"][0])))
    xy[place] = np.array(mesh["xy"], float)*unit + shift
    nodes = np.column_stack([np.arange(num), xy])
    order = rng.sample(range(len(mesh["conn"])), len(mesh["conn"]))
    code = CODE.get(fam, kind if fam == "beam" else 1)
    eles = np.array([[i, code, mesh["mat"][k]]
                     + [place[c - 1] for c in mesh["conn"][k]]
                     for i, k in enumerate(order)])
    ndof = 3 if fam == "beam" else xy.shape[1]
    table = np.zeros((num, ndof), int)
    if cons is not None:
        table[place[:len(cons)]] = cons
    kwargs = {"ndof_node": ndof}
    routine = None
    if fam in USER:
        routine = getattr(uel, USER[fam][0])
        kwargs["ndof_el_max"] = 24
        kwargs["ndof_el"] = lambda iet: USER[fam][1]
    oper, eqs, neq = ass.DME(table, eles, **kwargs)
    more = {} if routine is None else {"uel": routine}
    stiff, mass = ass.assembler(eles, mats, nodes, neq, oper, sparse=sparse,
                                **more)
    return {"K": stiff, "M": mass, "eqs": eqs, "neq": neq, "place": place,
            "nodes": nodes, "eles": eles, "ndof": ndof}


def carry(via, ndof, unit):
    """The combination of old motions that the new nodes follow."""
    fine, coarse = len(via), max(t[0] for n in via for c in n for t in c)
    mat = np.zeros((fine*ndof, coarse*ndof))
    for n, node in enumerate(via):
        for c, row in enumerate(node):
            for old, comp, (num, den) in row:
                val = num/den
                if ndof == 3 and len(node) == 3 and unit is not None:
                    val *= unit**((comp == 3)*1 - (c == 2)*1)
                mat[n*ndof + c, (old - 1)*ndof + comp - 1] += val
    return mat


def sort_back(mod, mat):
    """Matrix in the order of the specification's nodes."""
    at = np.array([mod["eqs"][p] for p in mod["place"]]).ravel()
    return u.dense(mat)[np.ix_(at, at)]


def near(one, two, tol=1e-9):
    """Agreement entry by entry, in the size of the two components."""
    size = np.sqrt(np.abs(np.diag(two)))
    size = np.maximum(size, 1e-12*size.max(initial=0))
    return bool(np.all(np.isfinite(one)) and
                np.all(np.abs(one - two) <= tol*np.outer(size, size)
                       + tol*1e-3*size.max(initial=0)*size[:, None]))


def shaped(rec, thin):
    """Clear of the shapes that the library refuses as degenerate."""
    pts = np.array(rec["xy"], float)*thin
    ends = [1, 3, 4] if rec["fam"] == "hexa8" else [1, 2, 3]
    for row in rec["conn"]:
        edges = np.array([pts[row[k] - 1] - pts[row[0] - 1] for k in ends])
        if np.linalg.det(edges) < 1e-6*np.linalg.norm(edges)**3:
            return False
    return True


def one(ctx, mods, rec, spec):
    ass, pos, sol, uel = mods
    rng = ctx.rng
    fam = rec["fam"]
    unit = rng.choice([1., 1., .125, 1e-3, 50.])
    size = rng.choice([1., 1., 2e11, 1e-5])
    if fam not in ("truss", "beam") and rng.random() < (
            .7 if fam in USER else .4):
        thin = [1.]*len(rec["xy"][0])              # long and thin, or flat
        for c in rng.sample(range(len(thin)), rng.randrange(1, len(thin))):
            thin[c] = 2.**rng.choice([4, 6, 8, 9, 10])
        if fam not in USER or shaped(rec, np.array(thin)):
            unit = unit*np.array(thin)
            ctx.count("thin")
    shift = 0.                                     # far from the origin
    if rng.random() < .3:
        shift = unit*np.array([rng.uniform(-4e3, 4e3)
                               for _ in rec["xy"][0]])
    kind = rng.choice([7, 8])
    mats = rows(rng, f"beam{kind}" if fam == "beam" else fam, rec["nmat"],
                size)
    info = {"fam": fam, "ops": rec["ops"], "xy": rec["xy"], "unit": unit, "shift": shift,
            "conn": rec["conn"], "mats": mats, "kind": kind}
    ctx.trace()
    ctx.count(fam)
    levels = []
    for mesh in spec["mesh"]:
        got = u.call(model, ass, uel, rng, mesh, mats, (unit, shift), kind,
                     None, rng.random() < .5)
        if got.err:
            ctx.fail("raised", dict(info, level=mesh["fam"], err=got.err))
            return
        levels.append(got.val)
    ndof = levels[0]["ndof"]
    for k, via in enumerate(spec["via"]):
        pmat = carry(via, ndof, unit if fam == "beam" else None)
        low, high = levels[k], levels[k + 1]
        step = dict(info, step=k, op=rec["ops"][k])
        for what in ("K", "M"):
            if what == "K" and not rec["affine"]:
                continue
            got = u.call(lambda: (sort_back(low, low[what]),
                                  pmat.T @ sort_back(high, high[what])
                                  @ pmat))
            if got.err or not u.safe(lambda: near(
                    got.val[1], got.val[0], 1e-8)):
                ctx.fail({"K": "stiffness", "M": "mass"}[what],
                         dict(step, err=got.err, refined=got.val and
                              got.val[1], coarse=got.val and got.val[0]))
                return
        if rec["affine"]:
            energies(ctx, pos, rng, low, high, pmat, step)
    if rec["affine"] and fam != "truss" and not (fam == "beam" and kind == 7):
        compliance(ctx, mods, rec, spec, mats, (unit, shift), kind,
                   levels[0], info)


def energies(ctx, pos, rng, low, high, pmat, info):
    """The library's own energy of one field on both meshes."""
    disp = np.array([rng.uniform(-1, 1) for _ in range(pmat.shape[1])])
    vals = []
    for mod, field in ((low, disp), (high, pmat @ disp)):
        at = np.array([mod["eqs"][p] for p in mod["place"]]).ravel()
        full = np.zeros(len(field))
        full[at] = field
        got = u.call(pos.energy, full, mod["K"])
        if got.err:
            ctx.fail("raised", dict(info, err=got.err))
            return
        vals.append(got.val)
    if not u.safe(lambda: abs(vals[0] - vals[1]) <= 1e-8*abs(vals[0])):
        ctx.fail("energy", dict(info, coarse=vals[0], refined=vals[1]))


def compliance(ctx, mods, rec, spec, mats, at, kind, first, info):
    """With the same supports and loads, no refinement stiffens."""
    ass, pos, sol, uel = mods
    rng = ctx.rng
    num, ndof = len(rec["xy"]), first["ndof"]
    cons = np.zeros((num, ndof), int)
    for n in rng.sample(range(num), min(num, rng.randrange(2, 5))):
        cons[n] = -1
    free = np.flatnonzero(cons.ravel() == 0)
    last = spec["mesh"][-1]
    try:
        got = model(ass, uel, rng, last, mats, at, kind)
        stiff = sort_back(got, got["K"])
        keep = np.concatenate([free, np.arange(num*ndof, len(stiff))])
        vals = np.linalg.eigvalsh(scaled(stiff[np.ix_(keep, keep)]))
        if not len(free) or vals[0] < 1e-7*vals[-1]:
            ctx.count("loose")
            return
    except Exception as exc:
        ctx.fail("raised", dict(info, err=str(exc)))
        return
    force = np.zeros((num, ndof))
    force.flat[free] = [rng.randrange(-9, 10) for _ in free]
    works = []
    for mesh in spec["mesh"]:
        got = u.call(work, mods, rng, mesh, mats, at, kind, cons, force)
        if got.err:
            ctx.fail("raised", dict(info, cons=cons, err=got.err))
            return
        works.append(got.val)
    ctx.count("compliances")
    top = max(np.abs(works))
    if not u.safe(lambda: all(np.isfinite(works)) and all(
            b >= a - 1e-7*top for a, b in zip(works, works[1:]))):
        ctx.fail("compliance", dict(info, cons=cons, force=force,
                                    works=works))


def scaled(mat):
    size = 1/np.sqrt(np.diag(mat))
    return size[:, None]*mat*size


def work(mods, rng, mesh, mats, at, kind, cons, force):
    ass, pos, sol, uel = mods
    mod = model(ass, uel, rng, mesh, mats, at, kind, cons,
                rng.random() < .5)
    table = np.array([[mod["place"][n]] + list(force[n])
                      for n in range(len(force))])
    rhs = ass.loadasem(table, mod["eqs"], mod["neq"], ndof_node=mod["ndof"])
    disp = sol.static_sol(mod["K"], rhs)
    full = pos.complete_disp(mod["eqs"], mod["nodes"], disp,
                             ndof_node=mod["ndof"])
    return float(sum(full[mod["place"][n]] @ force[n]
                     for n in range(len(force))))
