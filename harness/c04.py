"""C04: the right-hand side is the sum of the point loads."""
import numpy as np
from harness import util as u


def numbers(cons):
    """Equation table of a constraint table (input of the code, checked in
    C01), as the numbering machine defines it."""
    table, neq = [], 0
    for row in cons:
        new = []
        for comp in row:
            new.append(-1 if comp else neq)
            neq += 0 if comp else 1
        table.append(new)
    return np.array(table), neq


def run(ctx):
    import solidspy.assemutil as ass
    rng = ctx.rng
    res = ctx.tlc("Loads", ctx.pick("Loads", "LoadsDeep"))
    for rec in res.lines("rhs"):
        bc_array, neq = numbers(rec["cons"])
        kwargs = {} if rng.random() < .5 else {"ndof_node": 2}
        got = u.call(ass.loadasem, np.array(rec["loads"], dtype=float),
                     bc_array, neq, **kwargs)
        if got.err or not u.safe(lambda: np.array_equal(got.val, rec["rhs"])):
            ctx.fail("replay", {"spec": rec, "code": got.val, "err": got.err})
        ctx.trace()
    ctx.exhaustive = True

    scen = []
    for num in range(ctx.pick(150, 4000)):
        ndof = rng.choice([1, 2, 2, 2, 3, 4, 6])
        nnodes = rng.choice([1, 2, 4, 10, 40])
        nrows = rng.choice([0, 1, 1, 2, 5, 12, 40])
        if num % 60 == 0:
            nnodes, nrows = 400, 700
        many = num % 60 == 30      # many rows for few nodes
        if many:
            nnodes, nrows = rng.choice([2, 9]), rng.randrange(600, 900)
        huge = num in (7, 11)      # equation numbers beyond 16 bits
        if huge:                   # and nodes beyond them
            ndof = 1 if num == 11 else ndof
            nnodes, nrows = (40000 if num == 7 else 66000)//ndof, 8
        prob = .01 if huge else rng.choice([0, .2, .6, 1])
        cons = [[-1 if rng.random() < prob else 0 for _ in range(ndof)]
                for _ in range(nnodes)]
        top = rng.choice([3, 60, 40000] + [2**24]*(not many))
        if huge:                   # beyond single precision
            top = 2**27 - 1
        nrows = min(nrows, 60) if top == 2**24 else nrows
        loads = [[rng.randrange(nnodes)]
                 + [rng.choice([0, rng.randrange(-top, top + 1)])
                    for _ in range(ndof)] for _ in range(nrows)]
        if rng.random() < .15 and not many:    # one row per node, in order
            loads = [[node] + [rng.choice([0, rng.randrange(-top, top + 1)])
                               for _ in range(ndof)]
                     for node in range(min(nnodes, 60))]
            nrows = len(loads)
        if rng.random() < .15:       # nothing in some direction
            comp = rng.randrange(1, ndof + 1)
            for row in loads:
                row[comp] = 0
        if huge:
            loads[0] = [nnodes - 2] + [5]*ndof
        elif nrows > 1 and rng.random() < .25:     # rows that undo each other
            k = rng.randrange(nrows)
            loads[-1 - k] = loads[k][:1] + [-v for v in loads[k][1:]]
            if rng.random() < .5:
                loads = loads[k:] + loads[:k]
        bc_array, neq = numbers(cons)
        arr = np.array(loads, dtype=float).reshape(nrows, ndof + 1)
        arr[:, 1:] /= 8
        if rng.random() < .2 and not np.any(arr[:, 1:] % 1):
            arr = arr.astype(int)
        if rng.random() < .3:
            arr = np.asfortranarray(arr)
        kwargs = {} if ndof == 2 and rng.random() < .5 else {"ndof_node": ndof}
        got = u.call(ass.loadasem, u.relay(rng, arr), u.relay(rng, bc_array),
                     neq, **kwargs)
        if got.err:
            ctx.fail("raised", {"loads": loads, "cons": cons, "err": got.err})
            continue
        rhs = u.safe(lambda: np.ndim(got.val) == 1) and u.int_table(
            8*np.asarray(got.val))
        if rhs is False or rhs is None:
            ctx.fail("not-in-eighths", {"loads": loads, "cons": cons,
                                        "code": got.val})
            continue
        scen.append({"id": len(scen), "cons": cons, "loads": loads,
                     "rhs": rhs})
    u.judge(ctx, "LoadsTrace", scen)
    ctx.sample(next(s for s in scen if 0 < len(s["loads"]) < 6))
