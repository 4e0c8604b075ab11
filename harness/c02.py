"""C02: the assembly operator gathers each element's own equations."""
import numpy as np
from harness import util as u

NODES = {1: 4, 2: 6, 3: 3, 4: 9, 5: 2, 6: 2, 7: 2, 8: 2}


def lay_out(arr, rng):
    kind = rng.choice(["c", "fortran", "view", "int32"])
    if kind == "fortran":
        return np.asfortranarray(arr)
    if kind == "view":
        big = np.full((arr.shape[0]*2, arr.shape[1]), -7)
        big[::2] = arr
        return big[::2]
    if kind == "int32":
        return arr.astype(np.int32)
    return arr.copy()


def run(ctx):
    import solidspy.assemutil as ass
    rng = ctx.rng
    # specification -> code
    res = ctx.tlc("Connect", ctx.pick("Connect", "ConnectDeep"))
    for rec in res.lines("assem"):
        cons = np.array(rec["cons"], dtype=float)
        ndof = cons.shape[1]
        eles = np.array([[i, 6, 0] + list(c)
                         for i, c in enumerate(rec["eles"])])
        got = u.call(ass.DME, cons, eles, ndof_node=ndof,
                     ndof_el=lambda iet, d=ndof: 2*d)
        if got.err:
            ctx.fail("raised", {"spec": rec, "err": got.err})
            continue
        ok = u.safe(lambda: np.array_equal(
            np.asarray(got.val[0])[:, :2*ndof], rec["assem"]))
        if not ok:
            ctx.fail("replay", {"spec": rec, "code": got.val[0]})
        ctx.trace()
    ctx.exhaustive = True

    # code -> specification
    scen = []
    for num in range(ctx.pick(150, 3000)):
        builtin = rng.random() < .6
        if builtin:
            etype = rng.randrange(1, 9)
            types = {5: [5, 6], 6: [5, 6], 7: [7, 8], 8: [7, 8]}.get(etype, [etype])
            nconn = NODES[etype]
            ndof = 3 if etype > 6 else 2
            kwargs = {"ndof_node": 3} if ndof == 3 else (
                rng.choice([{}, {"ndof_node": 2}]))
        else:
            types = rng.sample([1, 2, 3, 9, 17, 40, 101], 2)
            nconn = rng.choice([1, 2, 3, 4, 6, 8, 10, 12])
            ndof = rng.randrange(1, 7)
            extra = rng.choice([0, 0, 3])
            kwargs = {"ndof_node": ndof,
                      "ndof_el": lambda iet, k=nconn*ndof: k}
            if nconn*ndof > 18 or rng.random() < .5:
                kwargs["ndof_el_max"] = nconn*ndof + extra
        nnodes = nconn + rng.choice([0, 1, 4, 10, 40, 150])
        nels = rng.choice([1, 2, 3, 5, 12, 40])
        if num % 50 == 0:
            nels, nnodes = 600, 700
        huge = num == 7            # equation numbers beyond 16 bits
        if huge:
            nels, nnodes = 20, 40000//ndof
        prob = .01 if huge else rng.choice([0, .15, .5, 1])
        cons = [[-1 if rng.random() < prob else 0 for _ in range(ndof)]
                for _ in range(nnodes)]
        eles = [[rng.choice(types)] + rng.sample(range(nnodes), nconn)
                for _ in range(nels)]
        if rng.random() < .2:      # elements not numbered 0..n-1
            ids = rng.sample(range(5*nels), nels)
        else:
            ids = list(range(nels))
        arr = np.array([[ids[i], e[0], rng.randrange(4)] + e[1:]
                        for i, e in enumerate(eles)])
        cons_arr = np.array(cons, dtype=rng.choice([int, float]))
        if rng.random() < .3:
            cons_arr = np.asfortranarray(cons_arr)
        elif rng.random() < .3:
            cons_arr = np.hstack([np.ones((nnodes, 3)), cons_arr])[:, 3:]
        got = u.call(ass.DME, cons_arr, lay_out(arr, rng), **kwargs)
        info = {"builtin": builtin, "kwargs": repr(kwargs)}
        if got.err:
            ctx.fail("raised", dict(info, err=got.err, eles=eles, cons=cons))
            continue
        assem, bc_array, neq = (got.val if u.safe(lambda: len(got.val) == 3)
                                else (None, None, None))
        rows = u.int_table(assem)
        rec = {"id": len(scen), "cons": cons, "eles": eles,
               "rows": rows and [r[:nconn*ndof] for r in rows],
               "bc": u.int_table(bc_array), "neq": u.as_int(neq),
               "builtin": builtin, "info": info}
        if None in (rec["rows"], rec["bc"], rec["neq"]):
            ctx.fail("not-integer-tables", info)
            continue
        scen.append(rec)
    u.judge(ctx, "ConnectTrace", scen)
    ctx.sample({k: scen[0][k] for k in ("eles", "rows")})
