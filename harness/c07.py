"""C07: solutions transform with the model they belong to."""
import importlib
import numpy as np
from harness import c06
from harness import meshes as ms
from harness import util as u

def scenario(rng, ident, big):
    if rng.random() < .3:
        rec = c06.bars(rng, ident, False)
        kind = 5 if rng.random() < .4 else 6
        rec["types"] = [kind]*len(rec["conn"])
        mats = [{"e": rng.choice([1, 2, 5]), "par": rng.choice([1, 2, 4])}
                for _ in rec["mats"]]
        spare = {"e": 3, "par": 8}
    else:
        rec = c06.plane(rng, ident, big)
        mats = [{"e": rng.choice([1, 2, 5]), "par": rng.choice([0, 1, 2, 3])}
                for _ in rec["mats"]]
        spare = {"e": 11, "par": 1}
    if rng.random() < .5:       # held in both directions or not at all
        rec["cons"] = [[min(c)]*2 for c in rec["cons"]]
    num = len(rec["nodes"])
    loads = []
    for s in (1, 2):
        for _ in range(rng.randrange(1, 5)):
            loads.append({"n": rng.randrange(num), "s": s,
                          "f": [4*rng.randrange(-9, 10),
                                4*rng.randrange(-9, 10)]})
    return {"id": ident, "nodes": rec["nodes"], "cons": rec["cons"],
            "els": [{"ty": t, "mat": m, "nd": c} for t, m, c in
                    zip(rec["types"], rec["mat"], rec["conn"])],
            "loads": loads, "mats": mats, "spare": spare}


def units(rng):
    """Units of length, stiffness and displacement (powers of two: exact)."""
    return {"len": rng.choice([1., 1., .25, 2.**-22, 2.**20]),
            "mod": rng.choice([1., 1., 2.**-45, 2.**40, 2.**-70]),
            "amp": rng.choice([1., 1., 2.**-40, 2.**30])}


def tables(rng, model, bars, unit, sets):
    nodes = np.hstack([np.array(ms.idents(rng, len(model["nodes"])))[:, None],
                       np.array(model["nodes"], float)*unit["len"]])
    els = np.array([[k, e["ty"], e["mat"]] + e["nd"]
                    for k, e in zip(ms.idents(rng, len(model["els"])),
                                    model["els"])])
    mats = np.array([[m["e"]*unit["mod"], m["par"]/(1. if bars else 8.)]
                     for m in model["mats"]], float)
    force = unit["mod"]*unit["amp"]
    loads = [[r["n"], *(force*v for v in r["f"])] for r in model["loads"]
             if r["s"] in sets]
    return {"nodes": nodes, "cons": np.array(model["cons"]), "elements": els,
            "mats": mats, "loads": np.array(loads, float)}


def mutual(ctx, base, sols):
    """Each load set does the same work through the other's solution."""
    if any(s.err for s in sols):
        return
    work, size = [], []
    for s in (1, 2):
        rows = [r for r in base["loads"] if r["s"] == s]
        try:
            sol = np.asarray(sols[2 - s].val, float)
            work.append(sum(np.dot(r["f"], sol[r["n"]]) for r in rows))
        except Exception as exc:
            ctx.fail("malformed", {"base": base, "err": repr(exc)})
            return
        size.append(sum(np.abs(r["f"]).max()*np.abs(sol).max()
                        for r in rows))
    if not abs(work[0] - work[1]) <= 1e-7*max(size):
        ctx.fail("mutual-work", {"base": base, "work": work})


def run(ctx):
    gui = importlib.import_module("solidspy.solids_GUI")
    rng = ctx.rng
    scen = [scenario(rng, k, k % 12 == 11) for k in range(ctx.pick(36, 300))]
    res = ctx.tlc("Edits", ctx.pick("Edits", "EditsDeep"), scenarios=scen,
                  simulate=(ctx.pick(24, 450), ctx.pick(9, 21)), workers=1)
    bases = {}
    for rec in res.lines("edit"):
        base = scen[rec["id"]]
        ident = rec["id"]
        bars = base["els"][0]["ty"] > 4
        if ident not in bases:
            unit = units(rng)
            sols = [u.call(gui.solids_auto, tables(rng, base, bars, unit, {s}),
                           plot_contours=False) for s in (1, 2)]
            bases[ident] = unit, sols
            mutual(ctx, base, sols)
        unit, sols = bases[ident]
        unit_base, unit = unit, units(rng)
        got = u.call(gui.solids_auto,
                     tables(rng, rec, bars, unit, set(rec["active"])),
                     plot_contours=False)
        ctx.trace()
        for name in rec["hist"]:
            ctx.count(name)
        info = {"base": base, "history": rec["hist"], "edited": {
            k: rec[k] for k in ("nodes", "cons", "els", "loads", "mats")}}
        errs = [s.err for s in sols + [got] if s.err]
        if errs:
            ctx.fail("raised", dict(info, err=errs))
            continue
        try:
            ref = sum(np.asarray(sols[s - 1].val, float)
                      for s in rec["active"])
            fac = rec["amp"]/rec["mod"]*unit["amp"]/unit_base["amp"]
            if base["els"][0]["ty"] == 6:
                fac *= rec["len"]*unit["len"]/unit_base["len"]
            origin = np.array(rec["origin"]) - 1
            want = fac*ref[origin] @ np.array(rec["map"]).T/rec["len"]
            scale = abs(fac)*max(np.abs(s.val).max() for s in sols) or 1.
        except Exception as exc:
            ctx.fail("malformed", dict(info, err=repr(exc)))
            continue
        if not u.close(got.val, want, scale, 1e-7):
            ctx.fail("solution", dict(info, spec=want,
                                      code=u.safe_dense(got.val)))
    for k in (0, 1):
        rec = res.lines("edit")[k]
        ctx.sample({"history": rec["hist"], "factors": [
            rec["len"], rec["mod"], rec["amp"], rec["map"]]})
