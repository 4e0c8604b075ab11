"""C03: global matrices are the sum of all element contributions."""
import numpy as np
from scipy import sparse
from harness import meshes as ms
from harness import util as u

NODES = {1: 4, 2: 6, 3: 3, 4: 9, 5: 2, 6: 2, 7: 2, 8: 2}


def user_uel(ndof, fac=1., comp=None):
    """Python twin of LocK/LocM of AssembleTrace (values in sixteenths).

    Component d of every node may have a unit of its own, comp[d].
    """
    def uel(coord, params):
        cor = np.rint(4*np.asarray(coord))
        par = np.rint(4*np.asarray(params))
        size = cor.shape[0]*ndof
        kmat = np.zeros((size, size))
        mmat = np.zeros((size, size))
        for i in range(1, size + 1):
            for j in range(1, size + 1):
                ci, cj = cor[(i - 1)//ndof], cor[(j - 1)//ndof]
                kmat[i-1, j-1] = (par[0]*(2*i + 3*j*j) + par[-1]*i*j
                                  + ci[0]*(3*j + 1) - cj[1]*(2*i*i + 1)
                                  + ci[-1]*cj[0] + 7*i - 5*j)
                mmat[i-1, j-1] = (par[-1]*(i*i - 2*j) + cj[0]*(i + 4)
                                  + ci[1]*(j - 2) + 11*j + i)
        if comp is not None:
            unit = np.tile(comp, cor.shape[0])
            kmat = unit[:, None]*kmat*unit
            mmat = unit[:, None]*mmat*unit
        return kmat*(fac/16), mmat*(fac/16)
    return uel


def assemble(ass, rng, eles, mats, nodes, neq, assem, uel):
    """Dense and sparse forms, through either entry point."""
    kwargs = {} if uel is None else {"uel": uel}
    eles, mats, nodes, assem = (u.relay(rng, np.asarray(arr), .3)
                                for arr in (eles, mats, nodes, assem))
    how = rng.randrange(3)
    if how == 0:
        dens = u.call(ass.dense_assem, eles, mats, nodes, neq, assem, **kwargs)
        spar = u.call(ass.sparse_assem, eles, mats, nodes, neq, assem, **kwargs)
    else:
        dens = u.call(ass.assembler, eles, mats, nodes, neq, assem,
                      sparse=False, **kwargs)
        if how == 1:
            kwargs["sparse"] = True
        spar = u.call(ass.assembler, eles, mats, nodes, neq, assem, **kwargs)
    return dens, spar


def small_replay(ctx, ass):
    """Every terminal state of the exhaustive assembly machine."""
    res = ctx.tlc("Assemble", ctx.pick("Assemble", "AssembleDeep"))
    recs = res.lines("global")
    for rec in recs:
        cons = np.array(rec["cons"])
        ndof = cons.shape[1]
        nodes = np.array([[i, 0., 0.] for i in range(cons.shape[0])])
        ids = ms.idents(ctx.rng, len(rec["eles"]))
        eles = np.array([[i, 6, e["mat"] - 1] + e["conn"]
                         for i, e in zip(ids, rec["eles"])])
        mats = np.array([[1.], [2.]])

        def uel(coord, params, d=ndof):
            idx = np.arange(1, 2*d + 1)
            mat = params[0]
            return (mat*(100*idx[:, None] + 7*idx[None, :]**2),
                    3*idx[:, None] + 50*idx[None, :] + mat)
        got = u.call(ass.DME, cons, eles, ndof_node=ndof,
                     ndof_el=lambda iet, d=ndof: 2*d)
        if got.err:
            ctx.fail("raised", {"spec": rec, "err": got.err})
            continue
        assem, _, neq = got.val
        for form in u.call_list(assemble, ass, ctx.rng, eles, mats, nodes,
                                neq, assem, uel):
            if form.err:
                ctx.fail("raised", {"spec": rec, "err": form.err})
                continue
            ok = u.safe(lambda: np.array_equal(u.dense(form.val[0]), rec["K"])
                        and np.array_equal(u.dense(form.val[1]), rec["M"]))
            if not ok:
                ctx.fail("replay", {"spec": rec, "code": [
                    u.dense(form.val[0]), u.dense(form.val[1])]})
        ctx.trace()
    ctx.exhaustive = True


def user_traces(ctx, ass):
    rng = ctx.rng
    scen = []
    for num in range(ctx.pick(70, 1500)):
        ndof = rng.choice([1, 2, 2, 3])
        dim = rng.choice([2, 2, 3])
        nconn = rng.choice([1, 2, 2, 3, 4, 4, 6])
        if nconn*ndof > 18:
            nconn = 6
        big = num % 35 == 0
        nnodes = nconn + (25 if big else rng.choice([0, 1, 2, 5]))
        nels = 40 if big else rng.choice([1, 2, 3, 5, 8, 12])
        kinds = [1, 3, 50]
        if rng.random() < .5:       # codes of the library's own elements
            kinds = [t for t, n in NODES.items() if n == nconn] or kinds
        nmat = rng.choice([1, 2, 3, 5])
        npar = rng.choice([1, 2, 3, 4, 7])
        prob = rng.choice([0, .2, .2, .5])
        cons = [[-1 if rng.random() < prob else 0 for _ in range(ndof)]
                for _ in range(nnodes)]
        eles = [[rng.choice(kinds), rng.randrange(nmat)]
                + rng.sample(range(nnodes), nconn) for _ in range(nels)]
        if rng.random() < .3 and nels > 1:      # one element fully restrained
            for node in eles[0][2:]:
                cons[node] = [-1]*ndof
        if rng.random() < .25:      # elements that visit a node twice
            for ele in eles:
                if nconn > 1 and rng.random() < .6:
                    ele[2 + rng.randrange(nconn)] = rng.choice(ele[2:])
        if rng.random() < .3:                   # the same element twice
            eles.append(list(eles[-1]))
        if all(c == -1 for row in cons for c in row):
            cons[0][0] = 0
        nodes = [[rng.randrange(-9, 10) for _ in range(dim)]
                 for _ in range(nnodes)]
        if rng.random() < .25:      # a flat model, in one of the planes
            axis = rng.randrange(dim)
            for node in nodes:
                node[axis] = 0
        if rng.random() < .3:       # elements that are copies, moved
            step = [rng.randrange(-2, 3) for _ in range(dim)]
            nodes = [[v + k*d for v, d in zip(nodes[0], step)]
                     for k in range(nnodes)]
            offsets = rng.sample(range(nconn + 1), nconn)
            for ele in eles:
                first = rng.randrange(nnodes)
                ele[2:] = [(first + k) % nnodes for k in offsets]
                if rng.random() < .7:
                    ele[:2] = eles[0][:2]
        mats = [[rng.randrange(-9, 10) for _ in range(npar)]
                for _ in range(nmat)]
        nod = np.array([[i] + [v/4 for v in c]
                        for i, c in zip(ms.idents(rng, nnodes), nodes)])
        ele = np.array([[i, e[0], e[1]] + e[2:]
                        for i, e in zip(ms.idents(rng, len(eles)), eles)])
        mat = np.array(mats)/4
        if rng.random() < .2:       # whole numbers, kept as such
            mats = [[4*v for v in row] for row in mats]
            mat = np.array(mats)//4
        if rng.random() < .2:
            nodes = [[4*v for v in row] for row in nodes]
            nod = np.column_stack((nod[:, 0], np.array(nodes)//4)).astype(int)
        got = u.call(ass.DME, np.array(cons), ele, ndof_node=ndof,
                     ndof_el=lambda iet, k=nconn*ndof: k)
        if got.err:
            ctx.fail("raised", {"err": got.err, "eles": eles})
            continue
        assem, _, neq = got.val
        fac = 2.**rng.choice([0, 0, 0, -70, 55])      # any unit
        comp = np.array([2.**rng.choice([0, 0, 33, -41])
                         for _ in range(ndof)])
        dens, spar = assemble(ass, rng, ele, mat, nod, neq, assem,
                              user_uel(ndof, fac, comp))
        unit = np.concatenate([comp[np.array(row) == 0] for row in cons])
        if dens.err or spar.err:
            ctx.fail("raised", {"err": dens.err or spar.err, "eles": eles,
                                "cons": cons})
            continue
        rec = {"id": len(scen), "cons": cons, "eles": eles, "nodes": nodes,
               "mats": mats, "ndof": ndof}
        for key, val in (("K", dens.val[0]), ("M", dens.val[1]),
                         ("KS", spar.val[0]), ("MS", spar.val[1])):
            try:
                rec[key] = u.int_table(16/fac*u.dense(val)/unit[:, None]/unit)
            except Exception:
                rec[key] = None
        if None in rec.values():
            ctx.fail("not-a-matrix-of-sixteenths", {"eles": eles, "cons": cons})
            continue
        scen.append(rec)
    u.judge(ctx, "AssembleTrace", scen)
    ctx.sample({k: scen[1][k] for k in ("cons", "eles", "nodes", "K")})


def element_coords(rng, etype):
    """A valid straight-sided element of the given type (float coordinates)."""
    while True:
        if etype in (5, 6, 7, 8):
            pts = [[rng.randrange(-9, 10), rng.randrange(-9, 10)]
                   for _ in range(2)]
            if pts[0] != pts[1]:
                return np.array(pts, dtype=float)
            continue
        mat = np.array([[rng.randrange(-4, 5) for _ in range(2)]
                        for _ in range(2)], dtype=float)
        if mat[0, 0]*mat[1, 1] - mat[0, 1]*mat[1, 0] < 2:
            continue
        base = np.array([rng.randrange(-9, 10), rng.randrange(-9, 10)], float)
        ref = {3: [[0, 0], [1, 0], [0, 1]],
               2: [[0, 0], [1, 0], [0, 1], [.5, 0], [.5, .5], [0, .5]],
               1: [[-1, -1], [1, -1], [1, 1], [-1, 1]],
               4: [[-1, -1], [1, -1], [1, 1], [-1, 1], [0, -1], [1, 0],
                   [0, 1], [-1, 0], [0, 0]]}[etype]
        return base + np.array(ref) @ mat


def material(rng, etype):
    young, other = rng.randrange(1, 50)*2., rng.choice([-.2, 0., .25, .3])
    young *= rng.random() > .06        # mass without any stiffness
    if etype in (1, 2, 3, 4):
        row = [young, other]
    elif etype == 5:
        row = [young]
    elif etype in (6, 7):
        row = [young, rng.randrange(1, 9)/4]
    else:
        row = [young, rng.randrange(1, 9)/4, rng.randrange(1, 9)/2]
    return row


def builtin_replay(ctx, ass, uel):
    """Gather lists of the specification with the library's own elements."""
    rng = ctx.rng
    scen, data = [], []
    for num in range(ctx.pick(60, 800)):
        etype = rng.randrange(1, 9)
        types = rng.choice([[5, 6], [etype]]) if etype in (5, 6) else (
            [etype])
        ndof = 3 if etype > 6 else 2
        nels = rng.choice([1, 2, 3, 6])
        coords, conns = [], []
        for _ in range(nels):
            pts = element_coords(rng, etype)
            conn = list(range(len(coords), len(coords) + len(pts)))
            coords += pts.tolist()
            conns.append(conn)
        # glue elements by sharing equations: some elements are repeated on
        # the same nodes with another material
        for _ in range(rng.choice([0, 1, 2])):
            conns.append(list(rng.choice(conns)))
        if etype in (5, 6, 7, 8):
            nnod = len(coords)
            for _ in range(4):
                pair = rng.sample(range(nnod), 2)
                if coords[pair[0]] != coords[pair[1]]:
                    conns.append(pair)
        perm = list(range(len(coords)))
        rng.shuffle(perm)
        xyz = [None]*len(coords)
        for old, new in enumerate(perm):
            xyz[new] = coords[old]
        conns = [[perm[n] for n in c] for c in conns]
        rng.shuffle(conns)
        nmat = rng.choice([1, 2, 4])
        width = rng.choice([0, 1])
        mats = [material(rng, max(types)) + [rng.randrange(1, 9)/2.]*width
                for _ in range(nmat)]
        if rng.random() < .2:       # whole numbers, kept as such
            mats = [[int(round(v)) if etype < 5 else int(np.ceil(v))
                     for v in row] for row in mats]
        eles = [[rng.choice(types), rng.randrange(nmat)] + c for c in conns]
        if num == 5:               # equation numbers beyond 16 bits, and
                                   # positions in the matrix beyond 32
            lone = 70000//ndof     # nodes without elements, in front
            conns = [[n + lone for n in c] for c in conns]
            eles = [e[:2] + c for e, c in zip(eles, conns)]
            xyz = [[0., 0.]]*lone + xyz
        cons = [[-1 if rng.random() < (.25 if num != 5 else .01) else 0
                 for _ in range(ndof)] for _ in xyz]
        cons[0][0] = 0
        scen.append({"id": num, "cons": cons, "eles": eles})
        data.append((ndof, np.array(xyz), np.array(mats)))
    res = ctx.tlc("Gather", scenarios=scen)
    parts = {}
    for rec, (ndof, xyz, mats) in zip(scen, data):
        spec = res.json(f"gather{rec['id']}")
        nodes = np.column_stack((ms.idents(rng, len(xyz)), xyz))
        ele = np.array([[i, e[0], e[1]] + e[2:] for i, e in
                        zip(ms.idents(rng, len(rec["eles"])), rec["eles"])])
        huge = spec["neq"] > 5000
        make = sparse.lil_matrix if huge else np.zeros
        want = [make((spec["neq"],)*2), make((spec["neq"],)*2)]
        error = None
        for item in spec["list"]:
            got = u.call(getattr(uel, item["routine"]),
                         xyz[item["nodes"]].copy(), mats[item["mat"]].copy())
            if got.err:
                error = got.err
                break
            keep = [k for k, eq in enumerate(item["dme"]) if eq >= 0]
            eqs = [item["dme"][k] for k in keep]
            for tot, loc in zip(want, got.val):
                tot[np.ix_(eqs, eqs)] = u.dense(
                    tot[np.ix_(eqs, eqs)]) + np.asarray(loc)[
                        np.ix_(keep, keep)]
        if error:
            ctx.fail("element-raised", {"err": error, "eles": rec["eles"]})
            continue
        got = u.call(ass.DME, np.array(rec["cons"]), ele, ndof_node=ndof)
        if got.err:
            ctx.fail("raised", {"err": got.err})
            continue
        assem, _, neq = got.val
        if huge:
            form = u.call(ass.assembler, ele, mats, nodes, neq, assem)
            if form.err or not u.safe(lambda: all(
                    v.shape == r.shape and
                    abs(v - r.tocsr()).max() <= 1e-9*abs(r.tocsr()).max()
                    for v, r in zip(form.val, want))):
                ctx.fail("builtin-large", {"eles": rec["eles"],
                                           "err": form.err})
            ctx.trace()
            continue
        for form in assemble(ass, rng, ele, mats, nodes, neq, assem, None):
            if form.err:
                ctx.fail("raised", {"err": form.err, "eles": rec["eles"]})
                continue
            for name, val, ref in zip(("stiffness", "mass"), form.val, want):
                if not u.close(val, ref, scale=np.abs(ref).max() or 1.):
                    ctx.fail("builtin-" + name, {
                        "eles": rec["eles"], "cons": rec["cons"],
                        "mats": mats, "nodes": xyz, "spec": ref,
                        "code": u.safe_dense(val)})
        parts.setdefault((ele.shape[1], ndof, mats.shape[1]), []).append(
            (rec, xyz, mats, want))
        ctx.trace()
    kinds = sorted(parts)
    for kind in {kinds[-1], *rng.sample(kinds, min(len(kinds),
                                                   ctx.pick(3, 20)))}:
        together(ctx, ass, kind[1], parts[kind],
                 1300 if kind == kinds[-1] else 750)


def alike(val, ref):
    """Entries agree on the scale of the rows they lie in."""
    if val.shape != ref.shape:
        return False
    size = abs(ref).max(axis=1).toarray().ravel()
    size = np.sqrt(np.where(size > 0, size, size.max()))
    diff = sparse.coo_matrix(val - ref)
    return not np.any(~(np.abs(diff.data)
                        <= 1e-9*size[diff.row]*size[diff.col]))


def together(ctx, ass, ndof, items, size):
    """Many models as one large model whose parts do not touch."""
    rng = ctx.rng
    some, total = [], 0
    while total < (1100 if len(items[0][0]["eles"][0]) < 6 else size):
        some.append(rng.choice(items))
        total += len(some[-1][0]["eles"])
    cons, eles, xyz, mats = [], [], [], []
    for rec, pts, mat, _ in some:
        eles += [[e[0], e[1] + len(mats)] + [n + len(xyz) for n in e[2:]]
                 for e in rec["eles"]]
        cons += rec["cons"]
        xyz += pts.tolist()
        mats += mat.tolist()
    order = rng.sample(range(len(eles)), len(eles))
    # neither the first nor the last element is void
    full = [k for k in order if mats[eles[k][1]][0] > 0] or order
    full = [k for k in full if mats[eles[k][1]][-1] > 0] or full
    for spot in (0, -1):
        other = order.index(rng.choice(full))
        order[spot], order[other] = order[other], order[spot]
    ele = np.array([[k] + eles[k] for k in order])
    nodes = np.column_stack((np.arange(len(xyz)), np.array(xyz)))
    want = [sparse.block_diag([s[3][k] for s in some], format="csr")
            for k in range(2)]
    got = u.call(ass.DME, np.array(cons), ele, ndof_node=ndof)
    info = {"elements": len(ele), "type": int(ele[0, 1])}
    if got.err:
        ctx.fail("together-raised", dict(info, err=got.err))
        return
    assem, _, neq = got.val
    ctx.count("together", len(ele))
    for kind in (True, False) if neq < 2500 else (True,):
        form = u.call(ass.assembler, ele, np.array(mats), nodes, neq, assem,
                      sparse=kind)
        if form.err or not u.safe(lambda: all(
                alike(val, ref) for val, ref in zip(form.val, want))):
            ctx.fail("together", dict(info, sparse=kind, err=form.err))


def run(ctx):
    import solidspy.assemutil as ass
    import solidspy.uelutil as uel
    small_replay(ctx, ass)
    user_traces(ctx, ass)
    builtin_replay(ctx, ass, uel)
