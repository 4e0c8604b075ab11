"""C27: reported potential energy is minus half the work of the loads."""
import numpy as np
from scipy import sparse
from harness import static
from harness import meshes as ms
from harness import util as u


def run(ctx):
    import solidspy.postprocesor as pos
    import solidspy.solutil as sol
    rng = ctx.rng
    scen = static.scenarios(ctx, ctx.pick(150, 2500), ctx.pick(2, 12))
    res = ctx.tlc("Static", scenarios=scen)
    for rec in scen:
        spec = res.json(f"static{rec['id']}")
        amat = np.array(spec["A"], dtype=float)
        disp = np.array(spec["u"])/8
        rhs = np.array(spec["f"])/8
        want = spec["energy2"]/2/64
        scale = 0.5*np.abs(disp) @ np.abs(amat) @ np.abs(disp) or 1.
        for name, mat in (("dense", amat), ("csr", sparse.csr_matrix(amat)),
                          ("int", amat.astype(int)),
                          ("csc", sparse.csc_matrix(amat)),
                          ("fortran", np.asfortranarray(amat))):
            vec = disp.copy()
            if rng.random() < .3 and not np.any(vec % 1):
                vec = vec.astype(int)
            got = u.call(pos.energy, u.relay(rng, vec), mat)
            if got.err:
                ctx.fail("raised", {"form": name, "A": amat, "err": got.err})
            elif not u.close(np.reshape(got.val, ()), want, scale):
                ctx.fail("energy", {"form": name, "A": amat, "u": disp,
                                    "spec": want, "code": got.val})
            # components in units of their own
            own = 2.**np.array([rng.choice([0, 30, -30, 45, -50])
                                for _ in disp])
            if name != "int":
                form = amat/np.outer(own, own)
                form = type(mat)(form) if sparse.issparse(mat) else form
                got = u.call(pos.energy, disp*own, form)
                if got.err or not u.close(np.reshape(got.val, ()), want,
                                          scale):
                    ctx.fail("units", {"form": name, "A": amat, "u": disp,
                                       "units": own, "spec": want,
                                       "code": got.val, "err": got.err})
            # quadratic in the load level
            lam = rng.choice([-3., 2., .5, 1e-4, 1e4, 2.**-70, 2.**60, 2.**-115])
            # and of the first degree in the unit of stiffness
            unit = rng.choice([1., 1., 2.**-60, 2.**50]) \
                if name != "int" else 1
            got = u.call(pos.energy, lam*disp, mat*unit)
            if got.err or not u.close(np.reshape(got.val, ())/unit,
                                      lam**2*want, lam**2*scale):
                ctx.fail("quadratic", {"form": name, "lam": lam, "A": amat,
                                       "u": disp, "code": got.val})
        # for a computed solution: minus half the work of the loads
        if np.linalg.cond(amat) < 1e5:
            got = u.call(sol.static_sol, amat, rhs)
            if not got.err:
                ene = u.call(pos.energy, got.val, amat)
                if ene.err or not u.close(np.reshape(ene.val, ()),
                                          -.5*rhs @ disp, scale, 1e-7):
                    ctx.fail("work", {"A": amat, "f": rhs, "code": ene.val})
        ctx.trace()
        if len(disp) < 4:
            ctx.sample({"A": spec["A"], "u8": spec["u"],
                        "energy_times_128": spec["energy2"]})
    together(ctx, pos, [(np.array(s["A"], float), np.array(s["u"])/8,
                         s["energy2"]/2/64) for s in (
        res.json(f"static{r['id']}") for r in scen)])
    rigid(ctx, pos)


def together(ctx, pos, items):
    """Bodies that do not touch: the energies add."""
    rng = ctx.rng
    for count in (40, 300, rng.choice([4000, 16000])):
        some = [rng.choice(items) for _ in range(count)]
        mat = sparse.block_diag([s[0] for s in some], format="csr")
        order = rng.sample(range(mat.shape[0]), mat.shape[0])
        mat = mat[order][:, order]
        fac = rng.uniform(.3, 3)
        disp = fac*np.concatenate([s[1] for s in some])[order]
        scale = np.abs(disp) @ (abs(mat) @ np.abs(disp)) or 1.
        forms = [("csr", mat)]
        if count <= 300:
            forms.append(("dense", mat.toarray()))
        for name, form in forms:
            got = u.call(pos.energy, disp.copy(), form)
            ctx.count("together", len(disp))
            if got.err or not u.close(np.reshape(got.val, ()),
                                      fac**2*sum(s[2] for s in some), scale):
                ctx.fail("together", {"form": name, "size": len(disp),
                                      "err": got.err, "code": got.val})


def rigid(ctx, pos):
    """Unsupported spring and truss lattices: rigid motions store nothing."""
    import solidspy.assemutil as ass
    rng = ctx.rng
    for _ in range(ctx.pick(30, 400)):
        nnodes = rng.randrange(2, 9)
        pts = [(rng.randrange(-9, 10), rng.randrange(-9, 10))
               for _ in range(nnodes)]
        if len(set(pts)) < nnodes:
            continue
        nodes = np.array([[i, x, y] for i, (x, y) in enumerate(pts)], float)
        eles = np.array([[i, rng.choice([5, 6]), 0] + rng.sample(range(nnodes), 2)
                         for i in ms.idents(rng, 2*nnodes)])
        mats = np.array([[4., 2.]])
        got = u.call(ass.DME, np.zeros((nnodes, 2)), eles)
        if got.err:
            ctx.fail("raised", {"err": got.err})
            continue
        for form in (True, False):
            mat = u.call(ass.assembler, eles, mats, nodes, got.val[2],
                         got.val[0], sparse=form)
            if mat.err:
                ctx.fail("raised", {"err": mat.err})
                continue
            kmat = mat.val[0]
            tra, rot = (3., -2.), 5.
            disp = np.array([[tra[0] - rot*y, tra[1] + rot*x]
                             for x, y in pts]).ravel()
            ene = u.call(pos.energy, disp, kmat)
            scale = np.abs(disp) @ np.abs(u.dense(kmat)) @ np.abs(disp)
            if ene.err or not u.close(np.reshape(ene.val, ()), 0., scale):
                ctx.fail("rigid", {"pts": pts, "code": ene.val, "err": ene.err})
            # positive definite apart from rigid motions: stretching costs
            disp = nodes[:, 1:].ravel()*.5
            ene = u.call(pos.energy, disp, kmat)
            if ene.err or not u.safe(lambda: ene.val < 0):
                ctx.fail("stretch", {"pts": pts, "code": ene.val})
        ctx.count("rigid_lattices")
