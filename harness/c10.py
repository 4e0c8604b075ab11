"""C10: spring, truss and beam matrices at any orientation and length."""
import math
import numpy as np
from harness import util as u

TRUSS = [0, 1, 3, 4]            # rows of the six without rotations


def truss_cut(mat):
    return mat[np.ix_(TRUSS, TRUSS)]


def direction(forms, vec):
    """The record of any direction, evaluated in whole numbers."""
    dx, dy = vec
    mono = [dx*dx, dx*dy, dy*dy, dx, dy, 1]
    rec = {k: [[float(sum(f*m for f, m in zip(form, mono))) for form in row]
               for row in mat] for k, mat in forms.items()}
    return dict(rec, d=vec, l2=dx*dx + dy*dy)


def box(rng, row):
    kind = rng.randrange(3)
    if all(float(v).is_integer() and abs(v) < 2**20 for v in row) and \
            rng.random() < .3:
        row = [int(v) for v in row]
    return np.array(row) if kind == 0 else row if kind == 1 else tuple(row)


def entrywise(got, want, rots, tol=1e-9):
    """Agreement relative to the size of each block (units differ)."""
    try:
        got = u.dense(got)
        if got.shape != want.shape or not np.all(np.isfinite(got)):
            return False
        diag = np.abs(np.diag(want))
        size = np.empty(len(want))
        for sel in (rots, [k for k in range(len(want)) if k not in rots]):
            if len(sel):
                size[sel] = np.sqrt(diag[sel].max())
        return bool(np.all(np.abs(got - want) <= tol*np.outer(size, size)))
    except Exception:
        return False


def run(ctx):
    import solidspy.uelutil as uel
    rng = ctx.rng
    extra = [{"d": [rng.randrange(-40, 41), rng.randrange(1, 41)]}
             for _ in range(ctx.pick(60, 800))]
    # nearly parallel to an axis or to a diagonal
    for num in (ctx.pick([99, 1200, 3000], [30, 99, 200, 450, 1200, 3000])):
        for vec in ([1, num], [num, 1], [-1, num], [num, -1], [-num, 1],
                    [num, num + 1], [-num, num - 1], [1, -num]):
            extra.append({"d": vec})
    vals = [1, 2, 3, 7, 20]
    for _ in range(ctx.pick(20, 200)):
        vec = [rng.choice([-1, 1])*rng.choice(vals),
               rng.choice([-1, 1])*rng.randrange(200, 3000)]
        rng.shuffle(vec)
        extra.append({"d": vec})
    res = ctx.tlc("Members", ctx.pick("Members", "MembersDeep"),
                  scenarios=extra)
    recs = res.lines("member")
    # any direction at all, from the forms the machine has verified
    forms, = res.lines("forms")
    for _ in range(ctx.pick(60, 1500)):
        long = rng.choice([-1, 1])*rng.randrange(1, 10**rng.choice([2, 5, 9]))
        vec = [rng.choice([0, 1, -1, 2, rng.randrange(-99, 100), long//3,
                           long, -long, long + 1]), long]
        rng.shuffle(vec)
        recs.append(direction(forms, vec))
    ctx.exhaustive = False
    for rec in recs:
        for _ in range(ctx.pick(2, 4)):
            one(ctx, uel, rng, rec)
    ctx.sample(recs[0])


def one(ctx, uel, rng, rec):
    scale = rng.choice([1., 1., .25, 2.**-10, 1024., 37.5,
                        2.**-25, 1e7])
    x0 = np.array([rng.randrange(-20, 21), rng.randrange(-20, 21)])
    if rng.random() < .25:                  # far from the origin
        x0 = np.array([rng.choice([-1, 1])*2**rng.randrange(6, 22)
                       for _ in range(2)])
    dvec = np.array(rec["d"])
    coord = np.array([x0, x0 + dvec])*scale
    if scale == 1. and rng.random() < .4:
        coord = coord.astype(int)
    elif rng.random() < .3:
        coord = np.asfortranarray(coord)
    len1 = math.sqrt(rec["l2"])             # length before scaling
    length = len1*scale
    # displacement-like rows carry 1, rotation rows carry the length unit
    rot = scale*rec["l2"]
    units = np.array([1, 1, rot, 1, 1, rot])
    units = np.outer(units, units)
    axm = np.array(rec["ax"], float)/len1**2/length
    bend = np.array(rec["bend"], float)*units/len1**2/length**3
    bms = np.array(rec["bmass"], float)*units/len1**2*length/420
    ams = np.array(rec["amass"], float)*units/len1**2*length/420
    rnd = lambda: rng.choice([1., 2., .5, rng.uniform(.2, 8), 2e3, 3])
    young, area, inert = rnd(), rnd(), rnd()
    dens = rng.choice([0., 0, rnd(), rnd(), rnd(), rnd()])
    inert *= length**2 if rng.random() < .7 else 1.

    def compare(name, fun, par, kwant, mwant, rots):
        got = u.call(fun, coord, par)
        info = {"element": name, "coord": coord, "params": par}
        ctx.trace()
        if got.err:
            ctx.fail("raised", dict(info, err=got.err))
            return
        try:
            kmat, mmat = got.val
        except Exception:
            ctx.fail("result", dict(info, code=repr(got.val)[:200]))
            return
        if not entrywise(kmat, kwant, rots):
            ctx.fail("stiffness", dict(info, spec=kwant,
                                       code=u.safe_dense(kmat)))
        if not entrywise(mmat, mwant, rots):
            ctx.fail("mass", dict(info, spec=mwant, code=u.safe_dense(mmat)))
        ctx.count(name)

    # spring: stiffness alone, or a material row that starts with it
    kspr = truss_cut(axm)*length*young
    par = rng.choice([young, np.float64(young), [young], (young, area),
                      np.array([young, area, dens]), np.array([young]),
                      np.array([young] + [rng.uniform(0, 9) for _ in
                                          range(rng.randrange(1, 8))])])
    compare("spring", uel.spring, par, kspr, np.zeros((4, 4)), [])
    # truss
    row = [young, area] + ([dens] if rng.random() < .5 else [])
    rho = row[2] if len(row) > 2 else 1.
    tmass = np.kron([[2, 1], [1, 2]], np.eye(2))*rho*area*length/6
    compare("truss", uel.truss2D, box(rng, row),
            truss_cut(axm)*young*area, tmass, [])
    # beam without axial deformation: (E, I[, density[, area]])
    num = rng.choice([2, 3, 4])
    row = [young, inert, dens, area][:num]
    rho = dens if num > 2 else 1.
    are = area if num > 3 else 1.
    compare("beam", uel.beam2DU, box(rng, row), bend*young*inert,
            bms*rho*are, [2, 5])
    # beam with axial deformation: (E, I, A[, density])
    num = rng.choice([3, 4])
    row = [young, inert, area, dens][:num]
    rho = dens if num > 3 else 1.
    compare("frame", uel.beam2D, box(rng, row),
            bend*young*inert + axm*young*area, (bms + ams)*rho*area, [2, 5])
