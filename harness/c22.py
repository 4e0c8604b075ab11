"""C22: the plotting triangulation covers each element exactly once."""
import numpy as np
from harness import elements as el
from harness import meshes as ms
from harness import util as u

CANON = {"tri3": [[0, 1, 2]], "quad4": [[0, 1, 2], [0, 1, 3], [1, 2, 3],
                                        [0, 2, 3]],
         "tri6": [[0, 3, 5], [3, 4, 5], [3, 1, 4], [4, 2, 5], [0, 3, 4],
                  [0, 4, 5]],
         "quad9": [[0, 4, 8], [0, 8, 7], [4, 1, 8], [1, 5, 8], [4, 1, 5],
                   [4, 5, 8], [8, 5, 2], [8, 2, 6], [8, 6, 7], [7, 6, 3],
                   [7, 8, 3], [8, 6, 3], [5, 2, 6], [5, 6, 8], [0, 4, 7],
                   [4, 8, 7]]}


def cross(pts, tri):
    (ax, ay), (bx, by), (cx, cy) = (pts[t] for t in tri)
    return (bx - ax)*(cy - ay) - (by - ay)*(cx - ax)


def scenario(rng, ident, big):
    fam = rng.choice(["tri3", "tri6", "quad4", "quad9"])
    top = 7 if big else 3
    while True:
        pts, conn = ms.grid(rng, fam, rng.randrange(1, top + 1),
                            rng.randrange(1, top + 1), step=16,
                            jitter=rng.choice([0, 2, 6]),
                            curve=rng.choice([0, 1, 2])
                            if fam in ("tri6", "quad9") else 0)
        if all(cross(pts, [row[k] for k in tri]) > 0
               for row in conn for tri in CANON[fam]):
            break
    wide, high = rng.choice([(1, 1), (1, 1), (1, 1), (900, 1), (1, 900)])
    pts = [[wide*p[0], high*p[1]] for p in pts]      # slender elements
    return {"id": ident, "fam": fam, "nodes": pts, "conn": conn}


def run(ctx):
    import solidspy.postprocesor as pos
    rng = ctx.rng
    scen = [scenario(rng, k, k % 10 == 9) for k in range(ctx.pick(120, 1500))]
    traces = []
    for rec in scen:
        scale = rng.choice([1., 1., 2.**-10, 1024., 2.**-26, 2.**25])
        pts = np.array(rec["nodes"], float)*scale
        nodes = ms.node_table(rng, pts, np.zeros((len(pts), 2)))
        eles = ms.element_table(rng, rec["fam"], rec["conn"],
                                [rng.randrange(3) for _ in rec["conn"]])
        got = u.call(pos.mesh2tri, u.relay(rng, nodes.copy()),
                     u.relay(rng, eles.copy()))
        info = {"fam": rec["fam"], "nodes": nodes, "elements": eles}
        try:
            tri = got.val
            assert np.array_equal(tri.x, nodes[:, 1])
            assert np.array_equal(tri.y, nodes[:, 2])
            tris = u.int_table(tri.get_masked_triangles())
            assert np.shape(tris)[1] == 3
        except Exception as exc:
            ctx.trace()
            ctx.fail("malformed", dict(info, err=got.err or repr(exc)))
            continue
        sets = [set(row) for row in rec["conn"]]
        bynode = {}
        for k, row in enumerate(rec["conn"]):
            for node in row:
                bynode.setdefault(node, []).append(k)
        owner = []
        for t in tris:
            cand = [k for k in bynode.get(t[0], []) if set(t) <= sets[k]]
            owner.append(cand[0] + 1 if cand else 0)
        traces.append({"id": rec["id"], "nodes": rec["nodes"],
                       "conn": rec["conn"], "tris": tris, "owner": owner})
        ctx.count(rec["fam"])
    together(ctx, pos, scen, traces)
    u.judge(ctx, "Triangles", traces)
    ctx.sample({k: traces[0][k] for k in ("conn", "tris")} if traces else {})


def together(ctx, pos, scen, traces):
    """All the meshes of one family side by side: one trace for each part."""
    rng = ctx.rng
    leads = [0, 33000, 66000, 33000]      # nodes no element uses, in front
    rng.shuffle(leads)
    for fam, lead in zip(("tri3", "tri6", "quad4", "quad9"), leads):
        recs = [r for r in scen if r["fam"] == fam]
        recs = [rng.choice(recs) for _ in range(3*len(recs))][:240]
        xy, conn, part = [[k % 211, k % 97] for k in range(lead)], [], [
            None]*lead
        for k, rec in enumerate(recs):
            conn += [[len(xy) + n for n in row] for row in rec["conn"]]
            part += [k]*len(rec["nodes"])
            xy += rec["nodes"]
        if not conn:
            continue
        nodes = ms.node_table(rng, np.array(xy, float),
                              np.zeros((len(xy), 2)))
        eles = ms.element_table(rng, fam, conn, [0]*len(conn))
        got = u.call(pos.mesh2tri, nodes.copy(), eles.copy())
        info = {"fam": fam, "elements": len(conn)}
        ctx.count("together", len(conn))
        try:
            assert np.array_equal(got.val.x, nodes[:, 1])
            assert np.array_equal(got.val.y, nodes[:, 2])
            tris = u.int_table(got.val.get_masked_triangles())
            assert all(lead <= n < len(xy) for t in tris for n in t)
        except Exception as exc:
            ctx.fail("malformed", dict(info, err=got.err or repr(exc)))
            continue
        bynode = {}
        for k, row in enumerate(conn):
            for node in row:
                bynode.setdefault(node, []).append(k)
        first = lead + np.cumsum([0] + [len(r["nodes"]) for r in recs])
        start = np.cumsum([0] + [len(r["conn"]) for r in recs])
        mine = [([], []) for _ in recs]
        for t in tris:
            k = part[t[0]]
            cand = [e for e in bynode.get(t[0], []) if set(t) <= set(conn[e])]
            mine[k][0].append([n - int(first[k]) for n in t])
            mine[k][1].append(cand[0] - int(start[k]) + 1 if cand else 0)
        for k, rec in enumerate(recs):
            traces.append({"id": 100000 + len(traces), "nodes": rec["nodes"],
                           "conn": rec["conn"], "tris": mine[k][0],
                           "owner": mine[k][1]})
