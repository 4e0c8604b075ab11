"""C16: quadrature rules integrate exactly up to their advertised degree."""
import numpy as np
from harness import util as u


def rules(gau):
    """(rule, size, dimension) -> outcome of the call."""
    cache = {}

    def get(rule, size, dim):
        key = (rule, size, dim)
        if key not in cache:
            if rule == "cube":
                cache[key] = u.call(gau.gauss_nd, size, dim)
            elif rule == "line":
                cache[key] = u.call(gau.gauss_1d, size)
            elif rule == "tri":
                cache[key] = u.call(gau.gauss_tri, size)
            else:
                cache[key] = u.call(gau.gauss_tet, size)
        return cache[key]
    return get


def apply(got, expo):
    pts, wts = got.val
    pts = np.asarray(pts, float)
    wts = np.asarray(wts, float)
    if pts.ndim == 1:
        pts = pts[:, None]
    if pts.shape != (len(wts), len(expo)):
        raise ValueError("shape of points")
    return float(np.sum(wts*np.prod(pts**np.array(expo), axis=1)))


def inside(rule, got):
    pts = np.asarray(got.val[0], float)
    if rule in ("cube", "line"):
        return bool(np.all(np.abs(pts) <= 1))
    return bool(np.all(pts >= 0) and np.all(pts.sum(axis=1) <= 1 + 1e-14))


def run(ctx):
    import solidspy.gaussutil as gau
    res = ctx.tlc("Quadrature", ctx.pick("Quadrature", "QuadratureDeep"))
    recs = res.lines("quad")
    get = rules(gau)
    ctx.exhaustive = True
    seen = set()
    for rec in recs:
        names = [rec["rule"]]
        if rec["rule"] == "cube" and len(rec["e"]) == 1:
            names.append("line")
        for name in names:
            got = get(name, rec["n"], len(rec["e"]))
            ctx.trace()
            info = {"rule": name, "n": rec["n"], "exponents": rec["e"],
                    "spec": u.frac(rec["v"])}
            if got.err:
                ctx.fail("raised", dict(info, err=got.err))
                continue
            try:
                val = apply(got, rec["e"])
            except Exception as exc:
                ctx.fail("malformed", dict(info, err=repr(exc)))
                continue
            tol = 1e-11 if name in ("cube", "line") else 2e-12
            if not abs(val - u.frac(rec["v"])) <= tol:
                ctx.fail("integral", dict(info, code=val))
            key = (name, rec["n"], len(rec["e"]))
            if key not in seen:
                seen.add(key)
                ctx.count("rules")
                if not inside(name, got):
                    ctx.fail("outside", {"rule": key, "points": got.val[0]})
    # default arguments are members of the supported family
    for fun, rule, size, dim in ((gau.gauss_tri, "tri", 2, 2),
                                 (gau.gauss_tet, "tet", 3, 3)):
        got = u.call(fun)
        if got.err or not u.safe(lambda: abs(apply(got, [1]*dim) - sum(
                u.frac(r["v"]) for r in recs if r["rule"] == rule
                and r["n"] == size + (dim > size) and r["e"] == [1]*dim))
                < 2e-12):
            ctx.fail("default-order", {"rule": rule, "err": got.err})
    got = u.call(gau.gauss_nd, 3)
    if got.err or not u.safe(lambda: np.shape(got.val[0]) == (9, 2)):
        ctx.fail("default-dimension", {"err": got.err})
    # refusals
    bad = [-7, -1, 0, 1, 11, 12, 100, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, 10.5, None, "two", 1e9]
    for size in bad:
        for fun, args in ((gau.gauss_1d, (size,)), (gau.gauss_nd, (size, 2)),
                          (gau.gauss_nd, (size, 3)),
                          (gau.gauss_tri, (8 if size == 1 else size,)),
                          (gau.gauss_tet, (13 if size == 1 else size,))):
            got = u.call(fun, *args)
            ctx.count("refusals")
            if not got.err:
                ctx.fail("not-refused", {"fun": fun.__name__, "args": args})
    for size in (8, 9, 10):
        if not u.call(gau.gauss_tri, size).err:
            ctx.fail("not-refused", {"fun": "gauss_tri", "args": size})
    ctx.sample(recs[0])
