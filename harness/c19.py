"""C19: principal values and directions diagonalise the tensor."""
import math
import numpy as np
from harness import util as u

POWERS = [0, 0, 0, 1, -20, 20, -3, 70, -70, -300, 300, -450, 450, -40, -900, 900]


def expected(rec):
    """Exact principal values, the larger magnitude first."""
    if rec["kind"] == "turned":
        vals = [float(v) for v in rec["lam"]]
    else:
        root = math.sqrt(rec["disc"])
        vals = [(rec["trace"] + root)/2, (rec["trace"] - root)/2]
    if abs(vals[1]) > abs(vals[0]):
        vals = vals[::-1]
    return vals


def judge(rec, out, fac):
    """Clause broken by one result, or None.  fac is a power of two."""
    try:
        eig = [float(out[0])/fac, float(out[1])/fac]
        vecs = [np.asarray(v, float).ravel() for v in out[2:]]
        assert vecs[0].shape == vecs[1].shape == (2,)
    except Exception:
        return "malformed"
    t = np.array(rec["t"], float)/rec["den"]
    mat = np.array([[t[0], t[2]], [t[2], t[1]]])
    size = np.abs(mat).max()
    want = expected(rec)
    # the documented tolerance: shear below a millionth is taken as zero
    loose = rec["kind"] == "near" and abs(t[2]) < 1.2e-6*size
    tol = 2.5e-6 if loose else 1e-9
    if size == 0:
        return None if eig == [0., 0.] else "values"
    if abs(abs(want[0]) - abs(want[1])) < tol*size:    # tie: either order
        pairs = [want, want[::-1]]
    else:
        pairs = [want]
    if not any(abs(eig[0] - w[0]) + abs(eig[1] - w[1]) <= tol*size
               for w in pairs):
        return "values"
    basis = np.array(vecs)
    if not np.all(np.isfinite(basis)) or np.abs(
            basis @ basis.T - np.eye(2)).max() > 1e-9:
        return "orthonormal"
    for val, vec in zip(eig, vecs):
        if np.abs(mat @ vec - val*vec).max() > (tol if loose else 1e-8)*size:
            return "directions"
    return None


def run(ctx):
    import solidspy.postprocesor as pos
    rng = ctx.rng
    res = ctx.tlc("Principal", ctx.pick("Principal", "PrincipalDeep"))
    recs = res.lines("prin")
    ctx.exhaustive = True
    for num, rec in enumerate(recs):
        powers = (0, POWERS[num % len(POWERS)])
        for power in powers:
            fac = 2.**power
            t = np.array(rec["t"], float)/rec["den"]*fac
            mat = np.array([[t[0], t[2]], [t[2], t[1]]])
            if rec["den"] == 1 and power == 0 and num % 3 == 0:
                mat = mat.astype(int)
            elif num % 5 == 0:
                mat = np.asfortranarray(mat)
            got = u.call(pos.eigvals, mat)
            ctx.trace()
            ctx.count(rec["kind"])
            bad = "raised" if got.err else judge(rec, got.val, fac)
            if bad:
                ctx.fail(bad, {"tensor": mat, "power": power, "spec":
                               expected(rec), "code": got.val or got.err})
    fields(ctx, pos, rng, recs)
    ctx.sample(recs[-1])


def fields(ctx, pos, rng, recs):
    """A field is treated point by point."""
    near = [r for r in recs if r["kind"] == "near"]
    for length in ([0, 1, 2, 3, 300, 1200] + [rng.randrange(4, 60)
                                              for _ in range(
            ctx.pick(25, 200))]):
        pick = [rng.choice(rng.choice([recs, near])) for _ in range(length)]
        facs = [2.**rng.choice(POWERS) for _ in pick]
        if rng.random() < .2 and length:       # the same tensor everywhere
            pick = pick[:1]*length
        if rng.random() < .5:
            facs = [1.]*length
        field = np.array([np.array(r["t"], float)/r["den"]*f
                          for r, f in zip(pick, facs)]).reshape(-1, 3)
        if length and set(facs) == {1.} and all(r["den"] == 1 for r in pick):
            field = field.astype(int)
        got = u.call(pos.principal_dirs, u.relay(rng, field))
        ctx.count("fields")
        if got.err:
            ctx.fail("field-raised", {"field": field, "err": got.err})
            continue
        for k, rec in enumerate(pick):
            try:
                out = [got.val[i][k] for i in range(4)]
            except Exception:
                out = None
            bad = judge(rec, out, facs[k]) if out else "malformed"
            if bad:
                ctx.fail("field-" + bad, {"field": field, "point": k,
                                          "spec": expected(rec), "code": out})
                break
        else:
            if not u.safe(lambda: all(len(v) == length for v in got.val)):
                ctx.fail("field-length", {"length": length})
