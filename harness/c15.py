"""C15: constitutive matrices invert the elastic compliance."""
import numpy as np
from harness import util as u

NAMES = {"plane": "umat", "solid": "elast_mat", "axi": "elast_mat_axi",
         "strain": "elast_mat_2d"}


def lead(mat, num):
    """Leading block; what is no matrix stays as it is."""
    return mat[:num, :num] if np.ndim(mat) == 2 else mat


def run(ctx):
    import solidspy.femutil as fem
    rng = ctx.rng
    res = ctx.tlc("Materials", ctx.pick("Materials", "MaterialsDeep"))
    recs = res.lines("mat")
    ctx.exhaustive = True
    for rec in recs:
        nu = rec["p"]/rec["q"]
        unit = rec["q"]*np.array(rec["C"], float)/rec["den"][0]/rec["den"][1]
        size = np.sqrt(np.diag(unit))
        tol = 1e-11 + 1e-14/min(1 + nu, 1 - nu if rec["kind"] == "plane"
                                else 1 - 2*nu)
        for young in (1., rng.choice([2e11, 1e-9, 3, 7.25, 1e6, 1e17, 1e-20,
                                      rng.uniform(.01, 99)])):
            for box in (tuple, rng.choice([list, np.array])):
                got = u.call(getattr(fem, NAMES[rec["kind"]]),
                             box((young, nu)))
                info = {"routine": NAMES[rec["kind"]], "E": young,
                        "nu": [rec["p"], rec["q"]]}
                ctx.trace()
                if got.err:
                    ctx.fail("raised", dict(info, err=got.err))
                    continue
                mat = u.safe_dense(got.val)
                if rec["kind"] == "strain":     # in-plane part
                    mat = lead(mat, 3)
                want = young*unit
                ok = u.safe(lambda: mat.shape == want.shape and np.all(
                    np.abs(mat - want) <= tol*young*np.outer(size, size)))
                if not ok:
                    ctx.fail("constitutive", dict(info, spec=want, code=mat))
        # an integer Poisson ratio of zero is a legal input too
        if rec["p"] == 0:
            got = u.call(getattr(fem, NAMES[rec["kind"]]), (2, 0))
            if got.err or not u.close(
                    lead(u.safe_dense(got.val), len(unit)), 2*unit):
                ctx.fail("integer-parameters", {"code": repr(got.val),
                                                "err": got.err})
        ctx.count(rec["kind"])
    ctx.sample(recs[0])
