"""C24: malformed models are refused and sound ones accepted at any scale."""
import importlib
import numpy as np
from harness import elements as el
from harness import meshes as ms
from harness import util as u
from harness import c06
from harness.c11 import HEX

USER = {"quad8": "elast_quad8", "tet4": "elast_tet4", "hex8": "elast_hex8"}
NDOF = {"quad8": 16, "tet4": 12, "hex8": 24}
UNITS = [1., 1e-6, 1e-3, 1e6, 25.4, 1e-9, 1e4, 3e-5]


def scenario(rng, ident):
    fam = rng.choice(["tri3", "tri6", "quad4", "quad9"]*2 +
                     ["bar", "quad8", "tet4", "hex8"])
    user = fam in USER
    kind, slim = 0, False
    if fam == "bar":
        rec = c06.bars(rng, ident, False)
        pts, conn = rec["nodes"], rec["conn"]
        kind = rng.choice([5, 6, 7, 8])
    elif fam == "tet4":
        pts, conn = [], []
        for _ in range(rng.randrange(1, 5)):
            while True:
                new = [[rng.randrange(-6, 7) for _ in range(3)]
                       for _ in range(4)]
                d = np.array(new[1:]) - new[0]
                if np.linalg.det(d) > 25:
                    break
            conn.append([len(pts) + k for k in range(4)])
            pts += new
    elif fam == "hex8":
        n = [rng.randrange(1, 3) for _ in range(3)]
        num = {}
        pts = []
        for k in range(n[2] + 1):
            for j in range(n[1] + 1):
                for i in range(n[0] + 1):
                    num[i, j, k] = len(pts)
                    pts.append([4*i + k, 4*j + i, 4*k])
        conn = [[num[i + (c[0] + 1)//2, j + (c[1] + 1)//2, k + (c[2] + 1)//2]
                 for c in HEX] for k in range(n[2]) for j in range(n[1])
                for i in range(n[0])]
        conn = [[int(v) for v in row] for row in conn]
    else:
        base = "quad9" if fam == "quad8" else fam
        while True:
            pts, conn = ms.grid(rng, base, rng.randrange(1, 4),
                                rng.randrange(1, 4), step=8,
                                jitter=rng.choice([0, 2]))
            arr = np.array(pts, float)
            if all(fam == "tri3" or el.jacobian_ok(None, base, arr[row], .1)
                   for row in conn):
                break
        if fam == "quad8":
            conn = [row[:8] for row in conn]
        else:
            kind = ms.TYPES[fam]
        if rng.random() < .2:        # slender elements
            fac = rng.choice([50, 400, 5000, 40000])
            pts = [[p[0]*fac, p[1]] for p in pts]
            slim = True
    return {"id": ident, "fam": fam, "nodes": pts, "conn": conn,
            "user": user, "type": kind, "slim": slim}


def tables(rng, rec, case, unit):
    pts = [list(p) for p in rec["nodes"] + case["extra"]]
    pts = np.array(pts, float)*unit
    nodes = np.hstack([np.arange(len(pts))[:, None], pts])
    types = [rec["type"]]*len(rec["conn"])
    conn = [list(r) for r in rec["conn"]]
    mats = [0]*len(conn)
    if case["which"]:
        conn[case["which"] - 1] = list(case["row"])
        mats[case["which"] - 1] = case["mat"]
        types[case["which"] - 1] = case["type"]
    eles = np.array([[k, t, m] + c for k, (t, m, c) in
                     enumerate(zip(types, mats, conn))])
    eles[:, 0] = ms.idents(rng, len(eles))
    return nodes, eles


def run(ctx):
    import solidspy.assemutil as ass
    import solidspy.postprocesor as pos
    import solidspy.uelutil as ue
    gui = importlib.import_module("solidspy.solids_GUI")
    rng = ctx.rng
    scen = [scenario(rng, k) for k in range(ctx.pick(48, 500))]
    res = ctx.tlc("Admission", scenarios=scen)
    cases = res.lines("case")
    for case in cases:
        rec = scen[case["id"]]
        ctx.trace()
        ctx.count(case["kind"])
        if case["verdict"] == "refuse":
            refused(ctx, ass, pos, ue, gui, rec, case)
        else:
            accepted(ctx, ass, pos, ue, rec, case)
    ctx.sample([{k: c[k] for k in ("id", "kind", "which", "verdict")}
                for c in cases[:6]])


def material(rng, rec):
    if rec["fam"] == "bar":
        return np.array([[2., 3., 1.5, 1.]])
    return np.array([[rng.choice([1., 2e11]), .3, 1.5]])


def operator(ass, rec, case, eles, nodes):
    """Assembly operator of the same table with sound types."""
    dim = nodes.shape[1] - 1
    dofs = 3 if rec["type"] in (7, 8) else dim
    cons = np.zeros((len(nodes), dofs), int)
    good = eles.copy()
    good[:, 1] = rec["type"]
    good[:, 3:] = rec["conn"] if case["kind"] == "nonode" else eles[:, 3:]
    kwargs = {"ndof_node": dofs}
    if rec["user"]:
        size = NDOF[rec["fam"]]
        kwargs.update(ndof_el_max=max(size, 18), ndof_el=lambda iet: size)
    return cons, kwargs, u.call(ass.DME, cons, good, **kwargs)


def refused(ctx, ass, pos, ue, gui, rec, case):
    rng = ctx.rng
    unit = rng.choice(UNITS)
    nodes, eles = tables(rng, rec, case, 1.)
    move = rng.choice([0., 0., .1, 40., 1000.3])
    nodes[:, 1:] = (nodes[:, 1:] + move)*unit
    mats = material(rng, rec)
    info = {"fam": rec["fam"], "kind": case["kind"], "which": case["which"],
            "unit": unit, "move": move, "nodes": nodes, "elements": eles}
    cons, kwargs, dme = operator(ass, rec, case, eles, nodes)
    if dme.err:
        ctx.fail("operator-raised", dict(info, err=dme.err))
        return
    uel = getattr(ue, USER[rec["fam"]]) if rec["user"] else None
    assem_op, _, neq = dme.val
    for sparse in (True, False):
        got = u.call(ass.assembler, eles, mats, nodes, neq, assem_op,
                     sparse=sparse, uel=uel)
        if not got.err:
            ctx.fail("assembled", dict(info, sparse=sparse))
    if case["kind"] in ("unknown", "nonode"):
        got = u.call(ass.DME, cons, eles, **kwargs)
        if not got.err:
            ctx.fail("operator-of-" + case["kind"], info)
    if rec["fam"] in ("tri3", "tri6", "quad4"):
        got = u.call(pos.strain_nodes, nodes, eles, mats,
                     np.ones((len(nodes), 2)))
        if not got.err:
            ctx.fail("strains-recovered", info)
    if not rec["user"] and rec["type"] < 7 and rng.random() < .3:
        data = {"nodes": nodes, "cons": np.where(np.arange(
            len(nodes))[:, None] % 3 == 0, -1, 0)*np.ones((1, 2), int),
                "elements": eles, "mats": mats,
                "loads": np.array([[1., 1., 1.]])}
        got = u.call(gui.solids_auto, data, plot_contours=False)
        if not got.err:
            ctx.fail("analysed", info)


def accepted(ctx, ass, pos, ue, rec, case):
    rng = ctx.rng
    mats = material(rng, rec)
    uel = getattr(ue, USER[rec["fam"]]) if rec["user"] else None
    ref = None
    for unit, move in [(1., 0.)] + [(rng.choice(UNITS), rng.choice(
            [0., 40.] if rec["slim"] else [0., 40., -700., 2.**15, 2.**20]))
                                    for _ in range(3)]:
        nodes, eles = tables(rng, rec, case, 1.)
        dim = nodes.shape[1] - 1
        nodes[:, 1:] = (nodes[:, 1:] + move)*unit
        info = {"fam": rec["fam"], "unit": unit, "move": move,
                "nodes": nodes, "elements": eles}
        _, _, dme = operator(ass, rec, case, eles, nodes)
        if dme.err:
            ctx.fail("operator-raised", dict(info, err=dme.err))
            return
        assem_op, _, neq = dme.val
        got = u.call(ass.assembler, eles, mats, nodes, neq, assem_op,
                     sparse=False, uel=uel)
        if got.err:
            ctx.fail("refused", dict(info, err=got.err))
            continue
        try:
            stiff, mass = (np.asarray(m, float) for m in got.val)
        except Exception:
            ctx.fail("malformed", info)
            continue
        if ref is None:
            ref = stiff, mass
        elif rec["type"] < 7:
            power = {5: (0, 0), 6: (-1, 1)}.get(rec["type"],
                                                (dim - 2, dim))
            for name, mat, org, pow_ in (("stiffness", stiff, ref[0], power[0]),
                                         ("mass", mass, ref[1], power[1])):
                want = org*unit**pow_
                if not u.close(mat, want, np.abs(want).max(), 1e-7):
                    ctx.fail("scaled-" + name, info)
        elif not np.all(np.isfinite(stiff)):
            ctx.fail("not-finite", info)
        if rec["fam"] in ("tri3", "tri6", "quad4"):
            disp = nodes[:, 1:] @ np.array([[.5, -1.], [.25, 2.]]).T
            got = u.call(pos.strain_nodes, nodes, eles, mats, disp)
            if got.err:
                ctx.fail("strains-refused", dict(info, err=got.err))
            elif not u.close(got.val[0], np.tile([.5, 2., -.75],
                                                 (len(nodes), 1)), 1., 1e-7):
                ctx.fail("strains", dict(info, code=got.val[0]))
