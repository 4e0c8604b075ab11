"""C35: axisymmetric models return the manufactured solution."""
import math
import numpy as np
from harness import c29
from harness import elements as el
from harness import meshes as ms
from harness import util as u

POISSON = [0., .25, -.25, 1/3, -.5, .3, .4, .45]


def scenario(rng, ident, big):
    while True:
        top = 4 if big else 2
        pts, cells = ms._corners(rng, "quad9", rng.randrange(1, top + 1),
                                 rng.randrange(1, top + 1), 4,
                                 rng.choice([0, 2]))
        left = min(p[0] for p in pts)
        axis = rng.random() < .4
        if axis:                         # the left side lies on the axis
            pts = [[max(p[0], 0) if p[0] > 2 else 0, p[1]] for p in pts]
            off = 0
        else:
            off = rng.choice([2, 4, 10, 30]) - left
        up = 2*rng.randrange(-6, 7)
        pts = [[2*(p[0] + off), 2*(p[1] + up)] for p in pts]
        arr = np.array(pts, float)
        dets = np.array([el.corner_dets(arr[c]) for c in cells])
        if dets.min() > .15*dets.max():
            break
    pts, conn = ms._finish(rng, "quad9", pts, cells, 0, True)
    # choose a field that vanishes where supports are wanted
    pin = rng.randrange(len(pts))
    a, b, c = (rng.randrange(-4, 5) for _ in range(3))
    if rng.random() < .25:
        a = 0
    if rng.random() < .4:
        c = 0
    if rng.random() < .2:
        b = 0
    d = -b*pts[pin][1] - c*pts[pin][0]
    cons = []
    for node, (r, z) in enumerate(pts):
        disp = [a*r, b*z + c*r + d]
        cons.append([-1 if disp[k] == 0 and (rng.random() < .5) else 0
                     for k in range(2)])
    cons[pin][1] = -1
    if axis and rng.random() < .7:       # the axis stays on the axis
        for node, (r, z) in enumerate(pts):
            if r == 0:
                cons[node][0] = -1
    nmat = 1 if rng.random() < .5 else 2
    return {"id": ident, "nodes": pts, "conn": conn, "cons": cons,
            "field": [a, b, c, d],
            "mat": [rng.randrange(nmat) for _ in conn], "nmat": nmat}


def run(ctx):
    import solidspy.assemutil as ass
    import solidspy.solutil as sol
    import solidspy.postprocesor as pos
    import solidspy.uelutil as uel
    rng = ctx.rng
    num, big = ctx.pick((150, 10), (2500, 300))
    scen = [scenario(rng, k, k >= num) for k in range(num + big)]
    res = ctx.tlc("Rings", scenarios=scen)
    factors = set()
    for rec in scen:
        one(ctx, ass, sol, pos, uel, rec, res.json(f"ri{rec['id']}"),
            factors)
    if len(factors) > 1:
        ctx.fail("weight-factor", {"factors": sorted(factors)})
    ctx.sample({k: scen[0][k] for k in ("nodes", "conn", "cons", "field")})


def held(rec, spec, mats, grad):
    """Forces of the specification, mass moments of the elements."""
    err, ezz, grz = grad
    force = np.zeros((len(rec["nodes"]), 2))
    for node, box in enumerate(spec["inbox"]):
        for ele, av, bv, cv in box:
            young, nu = mats[rec["mat"][ele], :2]
            lam = young*nu/(1 + nu)/(1 - 2*nu)
            mu = young/2/(1 + nu)
            tra = lam*(2*err + ezz)
            srr, szz, srz = tra + 2*mu*err, tra + 2*mu*ezz, mu*grz
            force[node, 0] += (srr*av + srz*bv)/spec["den"]
            force[node, 1] += (szz*bv + srz*cv)/spec["den"]
    return force


def one(ctx, ass, sol, pos, uel, rec, spec, factors):
    rng = ctx.rng
    size = rng.choice([1., 1., .01, 40., 1e-9, 1e6])
    amp = rng.choice([1., 1., 1e-5])
    base = rng.choice([1., 2e11, 3.5, 1e-6])
    mats = np.array([[base*rng.choice([1, 1, 2]), rng.choice(POISSON),
                      rng.uniform(1, 9)] for _ in range(rec["nmat"])])
    a, b, c, d = rec["field"]
    xyz = np.array(rec["nodes"], float)
    want = amp*np.column_stack((a*xyz[:, 0],
                                b*xyz[:, 1] + c*xyz[:, 0] + d))
    force = held(rec, spec, mats, np.array([a, b, c])*amp/size)*size**2
    cons = np.array(rec["cons"])
    eles = np.array([[k, 4, m] + row for k, m, row in
                     zip(ms.idents(rng, len(rec["conn"])), rec["mat"],
                         rec["conn"])])
    nodes = ms.node_table(rng, xyz*size)
    info = {"nodes": nodes, "elements": eles, "cons": cons, "mats": mats,
            "field": rec["field"], "u": want}
    ctx.trace()
    ctx.count("on the axis" if xyz[:, 0].min() == 0 else "ring")
    kwd = rng.choice([{}, {"ndof_el": lambda _: 18, "ndof_el_max": 18}])
    sparse = rng.random() < .6

    def free():
        oper, _, neq = ass.DME(np.zeros_like(cons), eles, **kwd)
        stiff, mass = ass.assembler(eles, mats, nodes, neq, oper,
                                    sparse=not sparse,
                                    uel=uel.elast_axi_quad9)
        return u.dense(stiff), u.dense(mass)
    got = u.call(free)
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    stiff, mass = got.val
    try:
        code = (stiff @ want.ravel()).reshape(-1, 2)
    except ValueError as exc:
        ctx.fail("shape", dict(info, err=str(exc)))
        return
    noise = np.abs(stiff).max()*np.abs(want).max()*1e-12
    top = max(np.abs(force).max(), base*amp*size*1e-3)
    total = size**3*sum(m/6*mats[k, 2] for m, k in zip(spec["moment"],
                                                       rec["mat"]))
    rho = mass.reshape(len(xyz), 2, len(xyz), 2).sum(axis=(0, 2))
    fac = None
    for one_fac in (1., 2*math.pi):
        if u.close(rho, one_fac*total*np.eye(2), one_fac*total, 1e-9):
            fac = one_fac
    if fac is None:
        ctx.fail("mass", dict(info, spec=total, code=rho))
        return
    factors.add(fac)
    if not u.close(code, fac*force, 1., 1e-8*fac*top + noise):
        ctx.fail("forces", dict(info, spec=fac*force, code=code))
        return
    loads = c29.rows(rng, cons, fac*force)
    if loads.shape[1] != 3:
        loads = np.zeros((1, 3))
    info["loads"] = loads

    def solve():
        oper, table, neq = ass.DME(cons, eles, **kwd)
        stiff, _ = ass.assembler(eles, mats, nodes, neq, oper, sparse=sparse,
                                 uel=uel.elast_axi_quad9)
        rhs = ass.loadasem(loads, table, neq)
        return pos.complete_disp(table, nodes, sol.static_sol(stiff, rhs))
    got = u.call(solve)
    scale = np.abs(want).max() or amp
    if got.err or not u.close(got.val, want, scale, 1e-7):
        ctx.fail("displacements", dict(info, err=got.err,
                                       code=u.safe_dense(got.val)))
