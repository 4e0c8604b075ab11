"""C36: the reduced matrices of a periodic model are those of the infinite
periodic structure."""
import numpy as np
from scipy import sparse
from harness import meshes as ms
from harness import util as u

# Poisson ratio, (c11, c12, c33), and E for which C is that matrix
MATERIAL = [((0, 1), [2, 0, 1], 2.), ((1, 3), [3, 1, 1], 8/3),
            ((-1, 3), [3, -1, 2], 8/3), ((1, 2), [4, 2, 1], 3.),
            ((-1, 2), [4, -2, 3], 3.)]
CELLS = [((4, 0), (0, 4)), ((6, 0), (0, 4)), ((4, 1), (-1, 5)),
         ((3, 0), (2, 4)), ((5, -2), (1, 4))]


def twice(pts, row):
    (ax, ay), (bx, by), (cx, cy) = (pts[k] for k in row)
    return (bx - ax)*(cy - ay) - (by - ay)*(cx - ax)


def scenario(rng, ident, big):
    fam = rng.choice(["spring", "tri3"])
    mode = rng.choice(["both", "both", "both", "x", "y"])
    top = 4 if big else 2
    base = rng.choice(CELLS)
    while True:
        nx, ny = rng.randrange(1, top + 1), rng.randrange(1, top + 1)
        grid = [(i, j) for j in range(ny + 1) for i in range(nx + 1)]
        rng.shuffle(grid)
        node = {ij: k for k, ij in enumerate(grid)}
        org = [rng.randrange(-9, 10), rng.randrange(-9, 10)]
        back = {(i, j): (0 if i == nx and mode != "y" else i,
                         0 if j == ny and mode != "x" else j)
                for i, j in grid}
        flip = {ij: ij for ij in grid}         # any copy may be the reference
        if rng.random() < .5:
            some = {}
            for ij in grid:
                some.setdefault(back[ij], []).append(ij)
            flip = {ij: rng.choice(some[back[ij]]) for ij in some}
        jig = {ij: [rng.randrange(-1, 2), rng.randrange(-1, 2)]
               for ij in grid}
        xy = [[org[c] + i*base[0][c] + j*base[1][c] + jig[back[i, j]][c]
               for c in range(2)] for i, j in grid]
        conn = []
        if fam == "tri3":
            for j in range(ny):
                for i in range(nx):
                    quad = [node[i, j], node[i + 1, j], node[i + 1, j + 1],
                            node[i, j + 1]]
                    k = rng.randrange(2)
                    quad = quad[k:] + quad[:k]
                    conn += [[quad[0], quad[1], quad[2]],
                             [quad[0], quad[2], quad[3]]]
            conn = [c[k:] + c[:k] for c in conn for k in [rng.randrange(3)]]
            if any(twice(xy, row) < 4 for row in conn):
                continue
            if rng.random() < .3:
                conn = rng.sample(conn, rng.randrange(1, len(conn) + 1))
        else:
            for _ in range(rng.randrange(1, 3*len(grid) + 1)):
                a, b = rng.sample(grid, 2)
                if abs(a[0] - b[0]) < 3 and abs(a[1] - b[1]) < 3 and \
                        xy[node[a]] != xy[node[b]]:
                    conn.append([node[a], node[b]])
            if not conn:
                continue
        break
    rng.shuffle(conn)
    eles = []
    for row in conn:
        mat = rng.randrange(len(MATERIAL))
        eles.append({"conn": row, "kap": rng.randrange(1, 5), "pick": mat,
                     "mat": MATERIAL[mat][1], "rho": rng.randrange(1, 5)})
    ref = [node[flip[back[ij]]] for ij in grid]
    off = [[(ij[k] - flip[back[ij]][k])//(nx, ny)[k] for k in range(2)]
           for ij in grid]
    cell = [[nx*v for v in base[0]], [ny*v for v in base[1]]]
    q = [rng.randrange(-4, 5), rng.randrange(-4, 5)]
    if rng.random() < .15:
        q = [4*rng.randrange(-1, 2), 4*rng.randrange(-1, 2)]
    num = 2*sum(r == n for n, r in enumerate(ref))
    return {"id": ident, "fam": fam, "xy": xy, "ref": ref, "off": off,
            "cell": cell, "q": q, "eles": eles,
            "wave": [[rng.randrange(-5, 6), rng.randrange(-5, 6)]
                     for _ in range(num)]}


def run(ctx):
    import solidspy.assemutil as ass
    import solidspy.blochutil as bl
    import solidspy.solutil as sol
    rng = ctx.rng
    scen = [scenario(rng, k, False) for k in range(ctx.pick(110, 1500))]
    scen += [scenario(rng, len(scen) + k, True)
             for k in range(ctx.pick(6, 100))]
    res = ctx.tlc("Lattice", scenarios=scen)
    for rec in scen:
        one(ctx, ass, bl, sol, rec, res.json(f"lattice{rec['id']}"))
    ctx.sample({k: scen[0][k] for k in ("xy", "ref", "cell", "q", "eles")})


def one(ctx, ass, bl, sol, rec, spec):
    rng = ctx.rng
    unit = rng.choice([1., .5, 1e-3, 40., 2.**-20, 1e5])
    size = rng.choice([1., 1., 2e9, 1e-4])
    xy = np.array(rec["xy"], float)
    mats, nmat = [], len(rec["eles"])
    for e in rec["eles"]:
        if rec["fam"] == "spring":
            vec = xy[e["conn"][1]] - xy[e["conn"][0]]
            mats.append([size*e["kap"]*(vec @ vec), 1., 1.])
        else:
            twa = twice(xy.tolist(), e["conn"])
            (num, den), _, fac = MATERIAL[e["pick"]]
            mats.append([size*e["kap"]*2*twa*fac, num/den,
                         size*24*e["rho"]/(twa*unit**2)])
    order = rng.sample(range(nmat), nmat)
    mats = np.array([mats[k] for k in order])
    place = {k: n for n, k in enumerate(order)}
    code = 5 if rec["fam"] == "spring" else 3
    eles = np.array([[i, code, place[k]] + e["conn"] for k, (i, e) in
                     enumerate(zip(ms.idents(rng, nmat), rec["eles"]))])
    nnodes = len(xy)
    nodes = np.column_stack([np.arange(nnodes), xy*unit])
    info = {"nodes": nodes, "elements": eles, "mats": mats,
            "ref": rec["ref"], "quarters": rec["q"], "cell": rec["cell"]}
    ctx.trace()
    ctx.count(rec["fam"])
    got = u.call(ass.DME, np.zeros((nnodes, 2)), eles)
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    oper, eqs, neq = got.val
    want = [np.array(spec[k], float)[..., 0]*size + 1j*size*np.array(
        spec[k], float)[..., 1] for k in ("stiff", "mass")]
    spars = rng.random() < .6
    mass_kind = u.call(ass.assembler, eles, mats, nodes, neq, oper,
                       sparse=spars)
    if mass_kind.err:
        ctx.fail("raised", dict(info, err=mass_kind.err))
        return
    dofs = u.safe_dense(eqs)
    if not u.safe(lambda: dofs.shape == (nnodes, 2)):
        ctx.fail("numbering", dict(info, code=dofs))
        return
    dofs = dofs.astype(int).tolist()
    images = [n for n in range(nnodes) if rec["ref"][n] != n]
    rng.shuffle(images)
    refs = [rec["ref"][n] for n in images]
    dofs_ima = [d for n in images for d in dofs[n]]
    dofs_ref = [d for n in refs for d in dofs[n]]
    new = u.call(bl.reassign_dof_bloch, neq, list(dofs_ima), list(dofs_ref))
    k_vec = np.linalg.solve(np.array(rec["cell"], float)*unit,
                            np.pi/2*np.array(rec["q"], float))
    if new.err:
        ctx.fail("raised", dict(info, err=new.err))
        return
    tmat = u.call(bl.bloch_transform_mat, k_vec, nodes[:, 1:], neq, refs,
                  images, dofs_ref, dofs_ima, {n: dofs[n] for n in refs},
                  {n: dofs[n] for n in images}, new.val)
    if tmat.err:
        ctx.fail("raised", dict(info, err=tmat.err))
        return
    reduced = []
    for name, glob, exact in zip(("stiffness", "mass"), mass_kind.val, want):
        red = u.call(lambda: tmat.val.conj().T @ (glob @ tmat.val))
        scale = np.abs(exact).max() or size
        if red.err or not u.close(red.val, exact, scale, 1e-9):
            ctx.fail(name, dict(info, err=red.err, spec=exact,
                                code=repr(u.safe_dense(red.val))[:1500]))
            return
        reduced.append(u.dense(red.val))
    wave = np.array(rec["wave"], float) @ [1, 1j]
    force = size*(np.array(spec["force"], float) @ [1, 1j])
    low, high = np.linalg.eigvalsh(want[0])[[0, -1]]
    if not low > 1e-6*high:
        ctx.count("not_solved")
        return
    ctx.count("solved")
    for form in (np.array, sparse.csr_matrix):
        got = u.call(sol.static_sol, form(reduced[0]), force)
        if got.err or not u.close(got.val, wave, np.abs(wave).max() or 1.,
                                  1e-7):
            ctx.fail("solution", dict(info, err=got.err, spec=wave,
                                      code=repr(got.val)))
