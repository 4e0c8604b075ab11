"""C31: type codes name the documented elements everywhere."""
import numpy as np
from harness import c03
from harness import meshes as ms
from harness import util as u

INTS = [int, np.int64, np.int32]


def run(ctx):
    import solidspy.assemutil as ass
    import solidspy.femutil as fem
    import solidspy.uelutil as uel
    rng = ctx.rng
    res = ctx.tlc("Catalogue")
    recs = res.lines("code")
    ctx.exhaustive = True
    for rec in recs:
        for kind in INTS:
            ctx.trace()
            ctx.count("known" if rec["known"] else "unknown")
            one(ctx, ass, fem, uel, rng, rec, kind(rec["code"]))
    for odd in (None, "quad4", "1", "", [], (1,), 2.5, float("nan")):
        for fun in (fem.eletype, ass.ele_fun):
            got = u.call(fun, odd)
            if not got.err:
                ctx.fail("not-refused", {"code": repr(odd),
                                         "answer": repr(got.val)})
    ctx.sample([r for r in recs if r["known"]][:2])


def one(ctx, ass, fem, uel, rng, rec, code):
    info = {"code": rec["code"], "type": type(code).__name__}
    size = u.call(fem.eletype, code)
    fun = u.call(ass.ele_fun, code)
    if not rec["known"]:
        conn = [0, 1, 2, 3]
        nodes = np.array([[0, 0, 0.], [1, 1, 0], [2, 1, 1], [3, 0, 1]])
        eles = np.array([[0, code, 0] + conn])
        oper = u.call(ass.DME, np.zeros((4, 2), int), eles)
        loc = u.call(ass.retriever, eles, np.array([[1., .3]]), nodes, 0)
        for name, got in (("eletype", size), ("ele_fun", fun), ("DME", oper),
                          ("retriever", loc)):
            if not got.err:
                ctx.fail("not-refused", dict(info, by=name))
        return
    if size.err or fun.err:
        ctx.fail("refused", dict(info, err=size.err or fun.err))
        return
    want = [v for v in rec["size"]]
    if want[2] == 0:            # structural members are not integrated
        same = u.safe(lambda: [int(v) for v in size.val[:2]] == want[:2])
    else:
        same = u.safe(lambda: [int(v) for v in size.val] == want)
    if not same:
        ctx.fail("size", dict(info, spec=want, code_says=repr(size.val)))
    num = rec["size"][1]
    cons = np.zeros((num, rec["per"]), int)
    conn = list(range(num))[::-1]
    eles = np.array([[rng.randrange(9), code, 0] + conn])
    kwargs = {"ndof_node": 3} if rec["per"] == 3 else rng.choice(
        [{}, {"ndof_node": 2}])
    oper = u.call(ass.DME, cons, eles, **kwargs)
    if oper.err or not u.safe(lambda: np.array_equal(
            np.asarray(oper.val[0])[0, :len(rec["row"])], rec["row"])):
        ctx.fail("operator", dict(info, spec=rec["row"], err=oper.err))
    coord = c03.element_coords(rng, rec["code"])
    row = np.array(c03.material(rng, rec["code"]))
    ref = u.call(getattr(uel, rec["routine"]), coord, row)
    nodes = ms.node_table(rng, coord[::-1])
    loc = u.call(ass.retriever, eles, row[None], nodes, 0)
    byhand = u.call(lambda: fun.val(coord, row))
    for name, got in (("ele_fun", byhand), ("retriever", loc)):
        if got.err or ref.err or not u.safe(lambda: all(
                u.close(a, u.dense(b)) for a, b in zip(got.val, ref.val))):
            ctx.fail("routine", dict(info, by=name, err=got.err or ref.err))
