"""C01: equation numbers are a bijection onto the free degrees of freedom."""
import numpy as np
from harness import util as u


def variants(table, rng):
    """The same constraint table in the layouts a caller may hand in."""
    base = np.array(table)
    yield "int", base.astype(int)
    yield "float", base.astype(float)
    yield "short", base.astype(rng.choice([np.int8, np.int16, np.int32,
                                           np.float32]))
    yield "fortran", np.asfortranarray(base.astype(float))
    wide = np.zeros((base.shape[0], base.shape[1] + 3))
    wide[:, 3:] = base
    yield "view", wide[:, 3:]
    bits = rng.choice([[0], [-1], [0, -1]])
    more = [[rng.choice(bits) for _ in range(rng.randrange(1, 4))]
            for _ in base]
    yield "extra", np.hstack([base, [row[:1] for row in more]])


def leading(table, ndof):
    """The components in use, of a table that may have further columns."""
    return np.asarray(table)[:, :ndof]


def elements_for(nnodes, rng):
    conn = [rng.randrange(nnodes) for _ in range(2)]
    return np.array([[0, 5, 0] + conn])


def tiled(ctx, ass, recs):
    """Tables of the machine one below the other: each continues the count
    of the ones before, beyond what a short integer counts."""
    rng = ctx.rng
    for ndof in sorted({len(rec["cons"][0]) for rec in recs}):
        some = [rec for rec in recs if len(rec["cons"][0]) == ndof]
        cons, want, at = [], [], 0
        goal = rng.choice([70000, 140000])
        if not any(rec["neq"] for rec in some):
            continue
        while at < goal:
            rec = rng.choice(some)
            cons += rec["cons"]
            want.append(np.where(np.array(rec["eqn"]) == -1, -1,
                                 np.array(rec["eqn"]) + at))
            at += rec["neq"]
        arr = np.array(cons)
        got = u.call(ass.eqcounter, arr, ndof_node=ndof)
        ctx.trace()
        ctx.count("tiled", len(arr))
        if got.err or not u.safe(lambda: int(got.val[0]) == at and
                                 np.array_equal(leading(got.val[1], ndof),
                                                np.concatenate(want))):
            ctx.fail("tiled", {"nodes": len(arr), "ndof": ndof, "spec": at,
                               "err": got.err,
                               "code": got.val and got.val[0]})


def run(ctx):
    import solidspy.assemutil as ass
    rng = ctx.rng

    # specification -> code: every terminal state of the exhaustive machine
    res = ctx.tlc("Numbering", ctx.pick("Numbering", "NumberingDeep"))
    for rec in res.lines("table"):
        ndof = len(rec["cons"][0])
        for name, arr in variants(rec["cons"], rng):
            keep = arr.copy()
            got = u.call(ass.eqcounter, arr, ndof_node=ndof)
            if got.err:
                ctx.fail("raised", {"cons": rec["cons"], "err": got.err})
                continue
            ok = u.safe(lambda: int(got.val[0]) == rec["neq"]
                        and np.array_equal(leading(got.val[1], ndof),
                                               rec["eqn"])
                        and np.array_equal(arr, keep))
            if not ok:
                ctx.fail("replay", {"cons": rec["cons"], "layout": name,
                                    "spec": rec, "code": got.val})
        ctx.trace()
    ctx.exhaustive = True

    tiled(ctx, ass, res.lines("table"))

    # code -> specification: recorded calls on larger tables
    scen, sizes = [], []
    for _ in range(ctx.pick(60, 1500)):
        nnodes = rng.choice([1, 2, 3, 5, 9, 20, 60, rng.randrange(1, 150)])
        sizes.append((nnodes, rng.randrange(1, 7), rng.choice([0, .1, .5, .9, 1])))
    sizes += [(rng.randrange(200, 500), d, p) for d, p in
              ((2, .1), (3, .3), (6, .02), (1, .5))]
    sizes += [(n, d, .02) for n, d in ctx.pick(((17500, 2), (2200, 3)),
                                            ((40000, 2), (12000, 3), (7000, 6)))]
    for nnodes, ndof, prob in sizes:
        table = [[-1 if rng.random() < prob else 0 for _ in range(ndof)]
                 for _ in range(nnodes)]
        if rng.random() < .3:       # whole nodes restrained
            for row in rng.sample(range(nnodes), max(1, nnodes // 3)):
                table[row] = [-1] * ndof
        lay = list(variants(table, rng))
        some = [rng.choice(lay)] if nnodes > 50 else lay
        if 120 < nnodes*ndof < 1000:      # numbers beyond the table's type
            some.append(("int8", np.array(table, dtype=np.int8)))
        elif nnodes*ndof > 32767:
            some.append(("int16", np.array(table, dtype=np.int16)))
        for name, arr in some:
            via = rng.choice(["eqcounter", "DME"])
            if name == "extra":
                via = "eqcounter"
            if via == "DME":
                eles = elements_for(nnodes, rng)
                got = u.call(ass.DME, arr, eles, ndof_node=ndof,
                             ndof_el_max=40, ndof_el=lambda iet, d=ndof: 2*d)
                rec = got.val and (got.val[2], got.val[1])
            else:
                got = u.call(ass.eqcounter, arr, ndof_node=ndof)
                rec = got.val
            ident = len(scen)
            info = {"nnodes": nnodes, "ndof": ndof, "layout": name, "via": via}
            if got.err:
                ctx.fail("raised", dict(info, err=got.err))
                continue
            try:
                bc_arr = u.int_table(leading(rec[1], ndof))
            except Exception:
                bc_arr = None
            neq = u.as_int(rec[0])
            if bc_arr is None or neq is None:
                ctx.fail("not-integer-tables", info)
                continue
            scen.append({"id": ident, "cons": table, "bc": bc_arr,
                         "neq": neq,
                         "after": u.int_table(leading(arr, ndof)),
                         "info": info})
    # default number of components
    if hasattr(ass, "eqcounter"):
        table = [[0, -1], [-1, 0], [0, 0]]
        got = u.call(ass.eqcounter, np.array(table))
        if got.err:
            ctx.fail("raised", {"cons": table, "err": got.err})
        else:
            scen.append({"id": len(scen), "cons": table,
                         "bc": u.int_table(got.val[1]),
                         "neq": u.as_int(got.val[0]), "after": table,
                         "info": {"default": True}})
    u.judge(ctx, "NumberingTrace", scen)
    ctx.sample({"cons": scen[0]["cons"], "bc": scen[0]["bc"],
                "neq": scen[0]["neq"]})
    ctx.notes.append("exhaustive machine over every table with at most "
                     "MaxBits entries, plus recorded calls on larger tables")
