"""C20: structured grids tile the rectangle with conforming elements."""
import numpy as np
from harness import util as u

SIZES = [(2, 2), (1, 1), (1., 3.), (3, 5), (.1, .3), (1e-6, 2e-6), (1e6, 3.),
         (7, 10), (np.float64(.7), np.float64(1/3)), (5, 1), (1e-9, 1e9),
         (1e-13, 1e-15), (1e-30, 2.), (3e20, 7e18), (1e-13, 5.)]


def read(rows, nx, ny):
    """A large mesh from the rows in which the specification lays it."""
    got = rows[nx, ny]
    assert sorted(got) == list(range(1, 2*ny + 2))
    return {"nodes": [v for k in range(1, ny + 2) for v in got[k]],
            "els": [v for k in range(ny + 2, 2*ny + 2) for v in got[k]]}


def run(ctx):
    import solidspy.preprocesor as pre
    rng = ctx.rng
    reach = ctx.pick(7, 24)
    extra = [(rng.randrange(1, 41), rng.randrange(1, 41))
             for _ in range(ctx.pick(12, 60))]
    extra += [(1, 40), (40, 1), (30, 40), (33, 2), (2, 33)]
    extra += ctx.pick([], [(100, 3), (3, 100), (120, 70)])
    # more nodes than a short integer counts
    large = ctx.pick([(259, 257), (181, 190), (181, 180), (255, 256)], [(259, 257), (2, 40000), (70000, 1), (181, 190),
                                    (181, 180), (255, 256), (40000, 1),
                                    (128, 256), (400, 300)])
    res = ctx.tlc("Grid", ctx.pick("Grid", "GridDeep"),
                  scenarios=[{"nx": a, "ny": b} for a, b in extra + large])
    rows = {}
    for rec in res.lines("gridrow"):
        rows.setdefault((rec["nx"], rec["ny"]), {})[rec["stp"]] = rec["row"]
    for nx, ny in sorted({(a, b) for a in range(1, reach + 1)
                          for b in range(1, reach + 1)} | set(extra + large)):
        spec = read(rows, nx, ny) if nx*ny > 9000 else res.json(f"grid_{nx}_{ny}")
        nod = np.array(spec["nodes"], float)
        els = np.array(spec["els"])
        want = np.hstack([np.arange(len(els))[:, None],
                          np.tile([1, 0], (len(els), 1)), els])
        sizes = rng.sample(SIZES, 2) + [(rng.uniform(.1, 9),
                                         rng.uniform(.1, 9))]
        for length, height in sizes:
            args = [length, height, nx, ny]
            kwargs = {}
            if rng.random() < .1:
                args = [length, height, np.int64(nx), np.int64(ny)]
            if rng.random() < .1:
                kwargs = {"eletype": 1}
            got = u.call(pre.rect_grid, *args, **kwargs)
            ctx.trace()
            info = {"length": float(length), "height": float(height),
                    "nx": nx, "ny": ny}
            if got.err:
                ctx.fail("raised", dict(info, err=got.err))
                continue
            try:
                x, y, elems = got.val
                x, y, elems = (np.asarray(v) for v in (x, y, elems))
            except Exception:
                ctx.fail("malformed", info)
                continue
            if not (u.close(x, nod[:, 0]*length/(2*nx), length, 1e-12)
                    and u.close(y, nod[:, 1]*height/(2*ny), height, 1e-12)):
                ctx.fail("nodes", dict(info, x=x[:50], y=y[:50]))
            if not (elems.shape == want.shape
                    and np.array_equal(elems, want)):
                ctx.fail("elements", dict(info, code=elems[:30]))
    ctx.notes.append(f"all division counts up to {reach} x {reach}")
    ctx.sample({"nx": 2, "ny": 1, "spec": res.json("grid_2_1")})
