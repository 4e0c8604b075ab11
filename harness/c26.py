"""C26: plots show every field component and every member once."""
import glob
import importlib
import os
import numpy as np
from harness import c22
from harness import c06
from harness import meshes as ms
from harness import util as u


class Recorder:
    """Notes what is drawn on which figure, and lets it be drawn."""

    def __init__(self):
        self.drawn = []
        self.saved = {}

    def __enter__(self):
        import matplotlib.axes as axes
        import matplotlib.figure as figure
        from matplotlib.tri import Triangulation
        self.keep = {name: getattr(axes.Axes, name)
                     for name in ("tricontourf", "tripcolor", "tricontour")}
        self.axes, self.figure = axes, figure

        def wrap(name, org):
            def method(ax, *args, **kwargs):
                args_ = list(args)
                if args_ and isinstance(args_[0], Triangulation):
                    tri = args_.pop(0)
                else:
                    tri, args_, kw_ = Triangulation.get_from_args_and_kwargs(
                        *args, **dict(kwargs))
                    args_ = list(args_)
                val = kwargs.get("facecolors")
                val = args_[0] if val is None and args_ else val
                made = org(ax, *args, **kwargs)
                self.drawn.append((ax.figure.number, name,
                                   np.array(tri.x), np.array(tri.y),
                                   np.array(tri.triangles),
                                   np.array(val, dtype=float),
                                   getattr(made, "levels", None)))
                return made
            return method
        for name, org in self.keep.items():
            setattr(axes.Axes, name, wrap(name, org))
        self.keep_save = save = figure.Figure.savefig

        def savefig(fig, name, *args, **kwargs):
            self.saved[os.path.basename(str(name))] = fig.number
            return save(fig, name, *args, **kwargs)
        figure.Figure.savefig = savefig
        return self

    def __exit__(self, *exc):
        for name, org in self.keep.items():
            setattr(self.axes.Axes, name, org)
        self.figure.Figure.savefig = self.keep_save


def model(rng, fam, big=False):
    if big:
        size = rng.randrange(18, 34)
        pts, conn = ms.grid(rng, fam, size, size, step=16)
        return (ms.node_table(rng, np.array(pts, float),
                              np.zeros((len(pts), 2))),
                ms.element_table(rng, fam, conn, [0]*len(conn)))
    rec = c22.scenario(rng, 0, False)
    while rec["fam"] != fam:
        rec = c22.scenario(rng, 0, False)
    nodes = ms.node_table(rng, np.array(rec["nodes"], float)/16,
                          np.zeros((len(rec["nodes"]), 2)))
    eles = ms.element_table(rng, fam, rec["conn"], [0]*len(rec["conn"]))
    return nodes, eles


def run(ctx):
    import solidspy.postprocesor as pos
    plt = importlib.import_module("matplotlib.pyplot")
    gui = importlib.import_module("solidspy.solids_GUI")
    rng = ctx.rng
    res = ctx.tlc("Plots", simulate=(ctx.pick(90, 400), 5), workers=1)
    recs = res.lines("plots")
    rng.shuffle(recs)
    recs = sorted(recs, key=lambda r: not gapped(r["hist"]))
    recs = recs[:6] + rng.sample(recs[6:], len(recs) - 6)
    for rec in recs[:ctx.pick(26, 600)]:
        history(ctx, pos, plt, rec)
        ctx.trace()
    for _ in range(ctx.pick(3, 30)):
        truss_widths(ctx, pos, plt)
    for _ in range(ctx.pick(8, 60)):
        one_field(ctx, pos, plt)
    analyses(ctx, gui, plt)
    ctx.sample(recs[0]["hist"])


def gapped(hist):
    """An unnamed field is drawn after a figure amid others was closed."""
    num, gap = 0, False
    for step in hist:
        if step["call"] == "close":
            num, gap = 0, False
        elif step["call"] == "close1":
            gap = gap or step["which"] < num
            num -= 1
        elif step["call"] == "field" and gap and not step["named"]:
            return True
        num += len(step["new"])
    return False


def figures(plt):
    return {num: plt.figure(num) for num in plt.get_fignums()}


def history(ctx, pos, plt, rec):
    rng = ctx.rng
    plt.close("all")
    count = 0
    folder = ctx.subdir(f"plots{ctx.traces}")
    os.chdir(folder)
    done = []
    order = []
    kept_files = set()
    for step in rec["hist"]:
        done.append({k: v for k, v in step.items() if k != "new"})
        info = {"history": list(done), "spec": step["new"]}
        if step["call"] == "close":
            plt.close("all")
            count = 0
            order = []
            continue
        if step["call"] == "close1":
            plt.close(order.pop(step["which"] - 1))
            continue
        before = plt.get_fignums()
        with Recorder() as rcd:
            out = perform(ctx, pos, step)
        if out["got"].err:
            ctx.fail("raised", dict(info, err=out["got"].err))
            return
        nums = [n for n in plt.get_fignums() if n not in before]
        ctx.count(step["call"])
        order += nums
        if len(nums) != len(step["new"]):
            ctx.fail("figures", dict(info, opened=len(nums)))
            return
        for num, fig_spec in zip(nums, step["new"]):
            fig = plt.figure(num)
            titles = [ax.get_title() for ax in fig.axes] + [
                ax.get_title(loc="left") for ax in fig.axes]
            if fig_spec["title"] and fig_spec["title"] not in titles:
                ctx.fail("title", dict(info, figure=fig_spec, titles=titles))
            if not fig_spec["title"] and any(titles):
                ctx.fail("title", dict(info, figure=fig_spec, titles=titles))
            if fig_spec["label"] != "none" and \
                    fig.get_label() != fig_spec["label"]:
                ctx.fail("figure-title", dict(info, figure=fig_spec,
                                              label=fig.get_label()))
            if fig_spec["file"] != "none" and \
                    rcd.saved.get(fig_spec["file"], num) != num:
                ctx.fail("file-of-other-figure", dict(info, figure=fig_spec))
            if fig_spec["what"] == "truss":
                members(ctx, fig, out, info,
                        [v/2 for v in fig_spec["widths"]])
                continue
            shown = [d for d in rcd.drawn if d[0] == num]
            want = out[fig_spec["what"]]
            want = want if want.ndim == 1 else want[:, fig_spec["comp"] - 1]
            if len(shown) != 1:
                ctx.fail("drawn", dict(info, figure=fig_spec,
                                       times=len(shown)))
                continue
            _, name, x, y, tris, val, levels = shown[0]
            if step.get("type", "contourf") == "pcolor" and \
                    name != "tripcolor" or \
                    step.get("type", "contourf") == "contourf" and \
                    name != "tricontourf":
                ctx.fail("plot-type", dict(info, drawn=name))
            ref = u.call(pos.mesh2tri, out["nodes"], out["eles"])
            canon = lambda t: sorted(tuple(sorted(map(int, r))) for r in t)
            if not (np.array_equal(x, out["nodes"][:, 1])
                    and np.array_equal(y, out["nodes"][:, 2])
                    and not ref.err
                    and canon(tris) == canon(ref.val.triangles)):
                ctx.fail("triangulation", info)
            if not (val.shape == want.shape and np.array_equal(val, want)):
                ctx.fail("values", dict(info, figure=fig_spec, spec=want,
                                        code=val))
            elif name == "tricontourf":
                steps = contour_levels(x, y, tris, want, fig_spec["levels"])
                if not np.array_equal(steps, levels):
                    ctx.fail("levels", dict(info, figure=fig_spec, spec=steps,
                                            code=levels))
        if [d for d in rcd.drawn if d[0] not in nums]:
            ctx.fail("elsewhere", info)
        count += len(nums)
        if plt.get_fignums() != sorted(set(before) | set(nums)):
            ctx.fail("closed", info)
        kept_files |= {f["file"] for f in step["new"] if f["file"] != "none"}
        found = set(os.path.basename(p) for p in glob.glob(folder + "/*"))
        if found != kept_files or not all(
                os.path.getsize(os.path.join(folder, f)) > 500 for f in found):
            ctx.fail("files", dict(info, expected=sorted(kept_files),
                                   found=sorted(found)))
            return
    plt.close("all")


def contour_levels(x, y, tris, val, num):
    """The levels matplotlib chooses when it is asked for num of them."""
    from matplotlib.figure import Figure
    from matplotlib.tri import Triangulation
    axes = Figure().add_subplot()
    return axes.tricontourf(Triangulation(x, y, tris), val, num).levels


def perform(ctx, pos, step):
    rng = ctx.rng
    out = {}
    arr = np.random.RandomState(rng.randrange(10**6))
    names = lambda key: [f[key] for f in step["new"]]
    if step["call"] == "field":
        out["nodes"], out["eles"] = model(rng, step["fam"],
                                          rng.random() < .08)
        single = {"3": "tri3", "4": "quad4"}.get(step["shape"])
        if single == step["fam"] or single and rng.random() < .3:
            out["nodes"], out["eles"] = model(rng, single)  # as many nodes as
            row = rng.choice(out["eles"])                   # components
            out["nodes"] = out["nodes"][row[3:]]
            out["eles"] = np.hstack([row[:3], np.arange(len(row) - 3)])[None]
        num = len(out["nodes"])
        shape = (num,) if step["shape"] == "flat" else (num,
                                                         int(step["shape"]))
        out["f"] = arr.rand(*shape)*10.**rng.choice([-12, -6, -3, 0, 0, 4, 8])
        if rng.random() < .25:      # one value everywhere
            out["f"] = np.full(shape, rng.choice([0., 1., -3.5e-6, 2e7]))
        elif rng.random() < .3:     # of both signs, or about a large value
            out["f"] = out["f"] + np.abs(out["f"]).max()*rng.choice([-.5, 9.])
        if rng.random() < .15:      # whole numbers
            out["f"] = arr.randint(-9, 10, shape)
        if out["f"].ndim == 2 and rng.random() < .2:
            out["f"][:, rng.randrange(shape[1])] = 0
        kwargs = {}
        if step["titled"]:
            kwargs["title"] = names("title")
        if step["named"]:
            kwargs["figtitle"] = names("label")
        if step["type"] != "contourf" or rng.random() < .3:
            kwargs["plt_type"] = step["type"]
        if step["save"]:
            kwargs["savefigs"] = True
            if step["filed"]:
                kwargs["filename"] = names("file")
        if step["levels"]:
            kwargs["levels"] = step["levels"]
        out["got"] = u.call(pos.plot_node_field, u.relay(rng, out["f"].copy()),
                            u.relay(rng, out["nodes"]),
                            u.relay(rng, out["eles"]), **kwargs)
    elif step["call"] == "results":
        out["nodes"], out["eles"] = model(rng, step["fam"])
        num = len(out["nodes"])
        out["u"] = arr.rand(num, 2)
        kwargs = {}
        if step["strains"]:
            out["e"] = arr.rand(num, 3)*1e-4
            kwargs["E_nodes"] = u.relay(rng, out["e"].copy())
        if step["stresses"]:
            out["s"] = arr.rand(num, 3)*1e7
            kwargs["S_nodes"] = u.relay(rng, out["s"].copy())
        out["got"] = u.call(pos.fields_plot, u.relay(rng, out["eles"]),
                            u.relay(rng, out["nodes"]),
                            u.relay(rng, out["u"].copy()), **kwargs)
    elif step["call"] == "structural":
        rec = c06.bars(rng, 0, False)
        nodes = ms.node_table(rng, rec["nodes"],
                              np.zeros((len(rec["nodes"]), 2)))
        types = [rng.choice([5, 6]) if step["type"] < 7 else
                 rng.choice([7, 8]) for _ in rec["conn"]]
        if rng.random() < .5:
            types = [step["type"]]*len(types)
        types[rng.randrange(len(types))] = step["type"]
        eles = np.array([[k, t, 0] + c for k, t, c in
                         zip(ms.idents(rng, len(types)), types,
                             rec["conn"])])
        if rng.random() < .5:       # members on a plate (rows end in zeros)
            nodes, plate = model(rng, rng.choice(["tri3", "quad4"]))
            ends = rng.sample(range(len(nodes)), 2)
            member = np.array([plate[0, 0] + 1, step["type"], 0] + ends
                              + [0]*(plate.shape[1] - 5))
            eles = np.insert(plate, rng.randrange(len(plate) + 1), member,
                             axis=0)
        kwargs = {}
        if rng.random() < .3:
            kwargs = {"E_nodes": arr.rand(len(nodes), 3),
                      "S_nodes": arr.rand(len(nodes), 3)}
        out["got"] = u.call(pos.fields_plot, eles, nodes,
                            arr.rand(len(nodes), 2), **kwargs)
    else:
        fields = dict(step)
        kwargs = {}
        if step["titled"]:
            kwargs["title"] = names("title")[0]
        if step["named"]:
            kwargs["figtitle"] = names("label")[0]
        if step["save"]:
            kwargs["savefigs"] = True
            if step["filed"]:
                kwargs["filename"] = names("file")[0]
        if step["widths"]:
            kwargs["min_val"], kwargs["max_val"] = (
                v/2 for v in step["widths"])
        truss(ctx, pos, out, kwargs, fields["stresses"])
    return out


def truss(ctx, pos, out, kwargs, stresses):
    rng = ctx.rng
    arr = np.random.RandomState(rng.randrange(10**6))
    rec = c06.bars(rng, 0, rng.random() < .3)
    seen, conn = set(), []
    for row in rec["conn"]:
        if frozenset(row) not in seen or rng.random() < .4:
            seen.add(frozenset(row))
            conn.append(row)
    unit = rng.choice([1., .01, 100.])
    nmat = rng.choice([1, 2, 3, 5])
    areas = arr.permutation(np.cumsum(arr.rand(nmat) + .1))*rng.choice(
        [1., 1e-2, 1e-4, 50.])
    if rng.random() < .2:
        areas[:] = areas[0]
    mats = np.column_stack([(arr.rand(nmat) + 1)*rng.choice([1., 2e11]),
                            areas])
    if rng.random() < .3:
        mats = np.column_stack([mats, arr.rand(nmat)])
    eles = np.array([[k, 6, rng.randrange(nmat)] + c
                     for k, c in zip(ms.idents(rng, len(conn)), conn)])
    nodes = ms.node_table(rng, np.array(rec["nodes"], float)*unit,
                          rng.choice([None, rec["cons"]]))
    if stresses != "none":
        out["stress"] = (arr.rand(len(eles))*2 - rng.choice([0, .5, 1, 2]))*(
            stresses == "some")*rng.choice([1., 1e6, 1e-9])
        kwargs["stresses"] = out["stress"].copy()
    out.update(nodes=nodes, eles=eles, mats=mats)
    out["got"] = u.call(pos.plot_truss, *(u.relay(rng, arr) for arr in (
        nodes, eles, mats)), **kwargs)


def members(ctx, fig, out, info, limits=(.5, 4)):
    """Each member is drawn once between its ends, wider for larger areas."""
    from matplotlib.collections import LineCollection
    from matplotlib.colors import to_rgba
    drawn = []
    for ax in fig.axes:
        for line in ax.lines:
            if to_rgba(line.get_color(), line.get_alpha())[3] == 0:
                ctx.fail("transparent", info)
            drawn.append((np.array(line.get_xydata(), float),
                          float(line.get_linewidth()),
                          to_rgba(line.get_color())))
        for col in ax.collections:
            if isinstance(col, LineCollection):
                segs = col.get_segments()
                wide = np.resize(np.asarray(col.get_linewidths(), float),
                                 len(segs))
                hues = np.asarray(col.get_colors(), float)
                hues = [tuple(hues[k % len(hues)]) for k in range(len(segs))]
                drawn += list(zip((np.array(s) for s in segs), wide, hues))
    nodes, eles, mats = out["nodes"], out["eles"], out["mats"]
    info = dict(info, nodes=nodes, elements=eles, mats=mats)
    key = lambda seg: tuple(sorted((tuple(p) for p in seg.tolist())))
    got = {}
    for seg, wide, hue in drawn:
        if len(seg) != 2:
            ctx.fail("member-points", info)
            return
        got.setdefault(key(seg), []).append((wide, hue))
    want = {}                  # several members may join the same nodes
    for num, e in enumerate(eles):
        want.setdefault(key(nodes[e[3:], 1:3]), []).append(
            (mats[e[2], 1], num))
    if set(got) != set(want) or any(len(got[k]) != len(want[k])
                                    for k in got):
        ctx.fail("members", dict(info, drawn=len(drawn)))
        return
    pairs = sorted((a, w) for k in want for (a, _), w in zip(
        sorted(want[k]), sorted(w for w, _ in got[k])))
    for (a1, w1), (a2, w2) in zip(pairs, pairs[1:]):
        if a2 - a1 > 1e-6 and not w2 > w1 or a1 == a2 and w1 != w2:
            ctx.fail("widths", dict(info, areas_and_widths=pairs))
            return
    if min(w for _, w in pairs) <= 0:
        ctx.fail("invisible", dict(info, areas_and_widths=pairs))
    if np.ptp(mats[:, 1]) > 1e-6 and not \
            all(limits[0] - 1e-9 <= w <= limits[1] + 1e-9 for _, w in pairs):
        ctx.fail("width-limits", dict(info, areas_and_widths=pairs,
                                      limits=limits))
    hues = [None]*len(eles)
    for k, mine in want.items():   # parallel members: wider with larger area
        if len({a for a, _ in mine}) == len(mine):
            mine = sorted(mine)
            looks = [h for _, h in sorted(got[k], key=lambda p: p[0])]
        else:                      # alike in width: in the order of stresses
            if out.get("stress") is not None:
                mine = sorted(mine, key=lambda p: out["stress"][p[1]])
            looks = sorted((h for _, h in got[k]), key=shade)
        for (_, num), hue in zip(mine, looks):
            hues[num] = hue
    colours(ctx, out.get("stress"), hues, info)


def shade(hue):
    import matplotlib
    table = matplotlib.colormaps["seismic"](np.arange(256))
    return int(np.abs(table - np.array(hue)).sum(axis=1).argmin())


def colours(ctx, stress, hues, info):
    """The colour of a member is that of its own stress on one diverging map
    whose ends are plus and minus the largest stress."""
    import matplotlib
    table = matplotlib.colormaps["seismic"](np.arange(256))
    place = [int(np.abs(table - np.array(h)).sum(axis=1).argmin())
             for h in hues]
    if stress is None:
        if len(set(hues)) > 1:
            ctx.fail("colours", dict(info, colours=hues[:20]))
        return
    top = np.abs(stress).max()
    want = 127.5 + 127.5*stress/top if top else 127.5 + 0*stress
    if np.abs(np.array(place) - want).max() > 1.1:
        ctx.fail("colours", dict(info, stress=stress, places=place))


def one_field(ctx, pos, plt):
    """One field drawn on the current axes over a triangulation."""
    rng = ctx.rng
    plt.close("all")
    nodes, eles = model(rng, rng.choice(["tri3", "tri6", "quad4", "quad9"]),
                        rng.random() < .3)
    ref = u.call(pos.mesh2tri, nodes, eles)
    ctx.trace()
    if ref.err:
        ctx.fail("raised", {"call": "mesh2tri", "err": ref.err})
        return
    field = np.array([rng.uniform(-1, 1) for _ in nodes])*rng.choice(
        [1., 1e-7, 3e6])
    if rng.random() < .3:
        field = np.array([rng.randrange(-5, 6) for _ in nodes])
    elif rng.random() < .3:
        field = np.full(len(nodes), rng.choice([0., 2., -3e5]))
    kind = rng.choice(["contourf", "pcolor"])
    path = os.path.join(ctx.subdir("one"), f"p{ctx.traces}.png")
    kwargs = {}
    if kind != "contourf" or rng.random() < .5:
        kwargs["plt_type"] = kind
    if rng.random() < .5:
        kwargs["title"] = "shown"
    if rng.random() < .5:
        kwargs["levels"] = rng.choice([3, 7, 12, 20])
    if rng.random() < .4:
        kwargs.update(savefigs=True, filename=path)
    elif rng.random() < .5:
        kwargs["filename"] = path          # and not asked to save
    figs = [plt.figure() for _ in range(rng.randrange(1, 4))]
    plt.figure(figs[0].number)
    with Recorder() as rcd:
        got = u.call(pos.tri_plot, ref.val, u.relay(rng, field), **kwargs)
    info = {"call": "tri_plot", "args": kwargs}
    if got.err:
        ctx.fail("raised", dict(info, err=got.err))
        return
    if len(rcd.drawn) != 1 or rcd.drawn[0][0] != figs[0].number or \
            plt.get_fignums() != [f.number for f in figs]:
        ctx.fail("drawn", dict(info, times=len(rcd.drawn)))
        return
    _, name, x, y, tris, val, levels = rcd.drawn[0]
    if (name == "tripcolor") != (kind == "pcolor") or not (
            np.array_equal(val, field) and np.array_equal(x, nodes[:, 1])
            and np.array_equal(y, nodes[:, 2])):
        ctx.fail("values", dict(info, drawn=name, spec=field, code=val))
    if kind == "contourf" and not np.array_equal(levels, contour_levels(
            x, y, tris, field, kwargs.get("levels", 12))):
        ctx.fail("levels", dict(info, code=levels))
    titles = {ax.get_title(loc=loc) for ax in figs[0].axes
              for loc in ("left", "center")} - {""}
    if titles != {kwargs["title"]} if "title" in kwargs else titles:
        ctx.fail("title", dict(info, titles=sorted(titles)))
    if os.path.exists(path) != ("savefigs" in kwargs):
        ctx.fail("files", dict(info, found=os.path.exists(path)))
    plt.close("all")


def truss_widths(ctx, pos, plt):
    """More trusses than the histories contain, without files."""
    for _ in range(4):
        plt.close("all")
        out = {}
        truss(ctx, pos, out, {}, ctx.rng.choice(["none", "some", "zero"]))
        ctx.trace()
        if out["got"].err:
            ctx.fail("raised", {"call": "plot_truss", "err": out["got"].err})
        elif len(plt.get_fignums()) != 1:
            ctx.fail("figures", {"call": "plot_truss",
                                 "opened": len(plt.get_fignums())})
        else:
            members(ctx, plt.gcf(), out, {"call": "plot_truss"})
    plt.close("all")


def analyses(ctx, gui, plt):
    """Complete analyses open the figures of their results when asked."""
    rng = ctx.rng
    cases = [(how, plot, strains) for how in ("auto", "files")
             for plot, strains in ((True, True), (True, False), (False, True),
                                   (None, True), (True, None), (False, None))]
    for how, plot, strains in cases:
        plt.close("all")
        rec = c06.plane(rng, 0, False)
        while rec["fam"] != "quad4":
            rec = c06.plane(rng, 0, False)
        nodes = ms.node_table(rng, rec["nodes"])
        eles = ms.element_table(rng, rec["fam"], rec["conn"],
                                [0]*len(rec["conn"]))
        mats = np.array([[1., .3]])
        loads = np.array([[rng.randrange(len(nodes)), 1., 2.]])
        kwargs = {}
        if plot is not None:            # contours are plotted by default
            kwargs["plot_contours"] = plot
        if strains is not None:         # strains are not computed by default
            kwargs["compute_strains"] = strains
        folder = os.path.join(ctx.subdir("models"), str(ctx.traces))
        with Recorder() as rcd:
            if how == "auto":
                data = {"nodes": nodes, "cons": np.array(rec["cons"]),
                        "elements": eles, "mats": mats, "loads": loads}
                got = u.call(gui.solids_auto, data, **kwargs)
            else:
                c06.write(rng, folder, np.column_stack(
                    [nodes[:, :3], np.array(rec["cons"])]), eles, mats, loads)
                got = u.call(gui.solids_GUI, folder=folder, **kwargs)
        ctx.trace()
        info = {"plot": plot, "strains": strains, "how": how}
        if got.err:
            ctx.fail("raised", dict(info, err=got.err))
            continue
        parts = got.val if strains else (got.val,)
        want = [np.asarray(p)[:, k] for p in parts for k in range(
            np.shape(p)[1])] if plot in (True, None) else []
        shown = [d[5] for d in sorted(rcd.drawn, key=lambda d: d[0])]
        if len(plt.get_fignums()) != len(want) or len(shown) != len(want) or \
                not all(np.array_equal(a, b) for a, b in zip(shown, want)):
            ctx.fail("analysis-figures", dict(info, opened=len(
                plt.get_fignums()), drawn=len(shown), expected=len(want)))
    plt.close("all")
