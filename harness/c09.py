"""C09: plane element mass is the exact consistent mass."""
import numpy as np
from harness import elements as el
from harness import util as u
from harness.c08 import PLANE, coordinates


def scenarios(ctx):
    rng = ctx.rng
    out = []
    for fam in el.FAMS2:
        for _ in range(ctx.pick(20, 250)):
            out.append(el.affine(rng, len(out), fam))
        for _ in range(ctx.pick(5, 60)):
            out.append(el.slender(rng, len(out), fam))
    for fam in ("quad4", "quad8", "quad9"):
        for _ in range(ctx.pick(30, 400)):
            out.append(el.straight(rng, len(out), fam))
    return out


def run(ctx):
    import solidspy.uelutil as uel
    rng = ctx.rng
    scen = scenarios(ctx)
    res = ctx.tlc("PlaneElements", scenarios=scen)
    for rec in scen:
        spec = res.json(f"ele{rec['id']}")
        fam = rec["fam"]
        scale, xy = coordinates(rng, spec)
        unit = np.array(spec["M"], float)/spec["mden"]*scale**2
        ctx.trace()
        for dens in rng.sample([None, 1., 0., 7850., 1e-6,
                                rng.uniform(.1, 9), 3], 3):
            nu = rng.choice([0., .25, -.3, .45])
            row = [rng.choice([1., 2e11, 1e-3, 10.**rng.randrange(-15, 16)]), nu]
            if dens is None and fam == "quad8":
                dens = 2.
            if dens is not None:
                row.append(dens)
            par = rng.choice([np.array, list, tuple])(row)
            got = u.call(getattr(uel, PLANE[fam]), xy, par)
            info = {"fam": fam, "kind": rec["kind"], "coord": np.array(xy),
                    "params": row}
            if got.err:
                ctx.fail("raised", dict(info, err=got.err))
                continue
            rho = 1. if dens is None else dens
            want = np.zeros((2*len(unit),)*2)
            want[0::2, 0::2] = want[1::2, 1::2] = rho*unit
            if not u.close(got.val[1], want,
                           (rho or 1.)*np.abs(unit).max()):
                ctx.fail("mass", dict(info, spec=want,
                                      code=u.safe_dense(got.val[1])))
        ctx.count(f"{fam}_{rec['kind']}")
    one = res.json("ele0")
    ctx.sample({"scenario": scen[0], "M": one["M"], "mden": one["mden"]})
