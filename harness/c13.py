"""C13: shape functions interpolate and match their derivatives."""
import numpy as np
from harness import util as u

NAMES = {"tri3": 2, "tri6": 2, "quad4": 2, "quad8": 2, "quad9": 2, "tet4": 3,
         "hex8": 3}


def run(ctx):
    import solidspy.femutil as fem
    rng = ctx.rng
    scen = []
    for fam, dim in NAMES.items():
        for _ in range(ctx.pick(12, 120)):
            den = rng.choice([3, 5, 7, 9])
            pnt = [rng.randrange(-2*den, 2*den + 1) for _ in range(dim)]
            scen.append({"fam": fam, "pt": pnt + [0]*(3 - dim), "q": den})
    res = ctx.tlc("ShapeFunctions", ctx.pick(None, "ShapeFunctionsDeep"),
                  scenarios=scen)
    for rec in res.lines("shape"):
        dim = NAMES[rec["fam"]]
        fun = getattr(fem, "shape_" + rec["fam"])
        pnt = [p/rec["q"] for p in rec["pt"][:dim]]
        args = [pnt]
        if all(p == int(p) for p in pnt):
            args.append([int(p) for p in pnt])
        args.append([np.float64(p) for p in pnt])
        want_n = np.array(rec["N"])/rec["den"]
        want_d = np.array(rec["D"])/rec["den"]
        for arg in args:
            got = u.call(fun, *arg)
            if got.err or not u.safe(lambda: len(got.val) == 2):
                ctx.fail("raised", {"fam": rec["fam"], "pt": arg,
                                    "err": got.err})
                continue
            if not u.close(got.val[0], want_n, max(1, np.abs(want_n).max()), 1e-11):
                ctx.fail("values", {"fam": rec["fam"], "pt": arg,
                                    "spec": want_n, "code": got.val[0]})
            if not u.close(got.val[1], want_d, max(1, np.abs(want_d).max()), 1e-11):
                ctx.fail("derivatives", {"fam": rec["fam"], "pt": arg,
                                         "spec": want_d, "code": got.val[1]})
        # right next to the point: the values follow the derivatives
        step = np.array([rng.choice([-1, 0, 1, 1])*2.**-25 for _ in pnt])
        near = np.array(pnt) + step
        top = max(1, np.abs(want_n).max(), np.abs(want_d).max())
        got = u.call(fun, *map(float, near))
        if got.err or not u.safe(lambda: u.close(
                got.val[0], want_n + np.reshape(step @ want_d, want_n.shape),
                top, 2e-13) and u.close(got.val[1], want_d, top, 1e-5)):
            ctx.fail("next-to", {"fam": rec["fam"], "pt": near,
                                 "err": got.err, "code": got.val,
                                 "spec": [want_n, want_d, step]})
        ctx.trace()
        if rec["fam"] == "tri6":
            ctx.sample(rec)
    ctx.notes.append("grid finer than the degree plus random rational points")
