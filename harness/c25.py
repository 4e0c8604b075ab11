"""C25: library calls keep no memory and change no argument."""
import contextlib
import copy
import importlib
import io
import os
import pickle
import random
import warnings
import numpy as np
from scipy import sparse
from harness import util as u

RNG = np.random.RandomState


def normal(val):
    """Comparable copy of a result."""
    if sparse.issparse(val):
        return ("sparse", np.array(val.toarray()))
    if isinstance(val, np.ndarray):
        return np.array(val)
    if isinstance(val, (list, tuple)):
        return tuple(normal(v) for v in val)
    if hasattr(val, "triangles"):
        return (np.array(val.x), np.array(val.y), np.array(val.triangles))
    if callable(val):
        return getattr(val, "__name__", "callable")
    if isinstance(val, dict):
        return tuple(sorted((str(k), normal(v)) for k, v in val.items()))
    if isinstance(val, np.generic):
        return np.array(val)
    return val


def same(one, two):
    if isinstance(one, tuple) and isinstance(two, tuple):
        return len(one) == len(two) and all(map(same, one, two))
    if isinstance(one, np.ndarray) or isinstance(two, np.ndarray):
        try:
            one, two = np.asarray(one), np.asarray(two)
            if one.shape != two.shape:
                return False
            if one.dtype.kind in "OUS" or two.dtype.kind in "OUS":
                return bool(np.all(one == two))
            with np.errstate(all="ignore"):
                scale = np.nanmax(np.abs(one)) if one.size else 0
                return bool(np.allclose(one, two, rtol=1e-11,
                                        atol=1e-12*np.nan_to_num(scale),
                                        equal_nan=True))
        except Exception:
            return False
    try:
        return bool(one == two) or (one != one and two != two)
    except Exception:
        return False


def exact(one, two):
    """Arguments must be untouched to the last bit, with type and layout."""
    if isinstance(one, np.ndarray):
        return (isinstance(two, np.ndarray) and one.dtype == two.dtype
                and one.shape == two.shape
                and one.tobytes() == two.tobytes()
                and one.flags.writeable == two.flags.writeable)
    if sparse.issparse(one):
        return (type(one) is type(two) and one.shape == two.shape
                and exact(one.toarray(), two.toarray()))
    if isinstance(one, (list, tuple)):
        return (type(one) is type(two) and len(one) == len(two)
                and all(map(exact, one, two)))
    if isinstance(one, dict):
        return (list(one) == list(two)
                and all(exact(one[k], two[k]) for k in one))
    if callable(one):
        return one is two
    return one == two


def write(val):
    """What a caller may do to a result it owns."""
    if sparse.issparse(val):
        val.data[:] = 7.25
    elif isinstance(val, np.ndarray):
        if val.flags.writeable and val.size:
            if val.dtype.kind in "fc":
                val *= -3
                val += 1
            elif val.dtype.kind in "iu":
                val += 5
    elif isinstance(val, list):
        for item in val:
            write(item)
        val.append(13)
    elif isinstance(val, tuple):
        for item in val:
            write(item)
    elif isinstance(val, dict):
        for item in val.values():
            write(item)
    elif hasattr(val, "triangles"):
        write(val.triangles)


def pour(old, new):
    """The values of new, in the objects of old wherever they fit."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray):
        if old.shape == new.shape and old.dtype == new.dtype:
            old[...] = new
            return old
    elif (sparse.issparse(old) and type(old) is type(new)
          and old.shape == new.shape and old.nnz == new.nnz):
        old.data[:] = new.data
        old.indices[:] = new.indices
        old.indptr[:] = new.indptr
        return old
    elif isinstance(old, list) and isinstance(new, list):
        old[:] = [pour(a, b) for a, b in zip(old, new)] \
            + copy.deepcopy(new[len(old):])
        return old
    elif isinstance(old, tuple) and isinstance(new, tuple) \
            and len(old) == len(new):
        return tuple(pour(a, b) for a, b in zip(old, new))
    elif isinstance(old, dict) and isinstance(new, dict):
        merged = {k: pour(old[k], v) if k in old else copy.deepcopy(v)
                  for k, v in new.items()}
        old.clear()
        old.update(merged)
        return old
    return copy.deepcopy(new)


def perform(fun, args):
    """A call under whatever settings the caller has made."""
    with contextlib.redirect_stdout(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return u.Got(fun(*args), None)
        except Exception as exc:
            return u.Got(None, f"{type(exc).__name__}: {exc}"[:300], exc)


def listing(base):
    found = {}
    for path, _, files in os.walk(base):
        for name in files:
            if path != base:            # the echoes are written there
                full = os.path.join(path, name)
                stat = os.stat(full)
                found[full] = (stat.st_size, stat.st_mtime_ns)
    return found


def around(base):
    """What surrounds the calls and belongs to the caller."""
    import matplotlib
    return {"directory": os.getcwd(),
            "errors": np.geterr(),
            "print settings": repr(np.get_printoptions()),
            "random": repr(random.getstate()),
            "numpy random": repr(np.random.get_state()),
            "plot settings": {k: repr(v) for k, v in dict.items(
                matplotlib.rcParams) if not k.startswith("backend")},
            "environment": dict(os.environ),
            "files": listing(base)}


def arrange(what, base, plain):
    """The caller changes its own settings."""
    import matplotlib
    os.chdir(os.path.join(base, "here"))
    np.seterr(**plain[0])
    np.set_printoptions(**plain[1])
    dict.update(matplotlib.rcParams, plain[2])
    if what == "quiet":
        np.seterr(all="ignore")
    elif what == "elsewhere":
        os.chdir(os.path.join(base, "there"))
    elif what == "seeded":
        np.random.seed(7)
        random.seed(7)
    elif what == "short":
        np.set_printoptions(precision=2, threshold=5, suppress=True)
    elif what == "styled":
        matplotlib.rcParams["lines.linewidth"] = 4.
        matplotlib.rcParams["image.cmap"] = "gray"


TRI3 = np.array([[0., 0.], [3., 1.], [1., 2.]])
QUAD4 = np.array([[-1., -1.], [2., -1.], [3., 2.], [-1., 1.]])


def refine(pts, kind):
    nodes = list(pts)
    for k in range(len(pts)):
        nodes.append((pts[k] + pts[(k + 1) % len(pts)])/2)
    if kind == 9:
        nodes.append(pts.mean(axis=0))
    return np.array(nodes)


HEXC = np.array([[x, y, z] for z in (-1., 2.) for x, y in
                 [(-1., -1.), (1., -1.), (1.5, 1.), (-1., 1.)]])
TET = np.array([[0., 0., 0.], [2., 0., .5], [0., 3., 0.], [.5, 0., 2.]])


def user_element(coord, params):
    """Unsymmetric user routine."""
    size = 2*len(coord)
    base = np.arange(float(size*size)).reshape(size, size)
    return base*params[0] + coord.sum(), np.eye(size)*params[-1]


def mesh(var):
    """Small quad4 mesh of the same shape for every variant."""
    from harness import meshes as ms
    import random
    rng = random.Random(f"mesh{var}")
    pts, conn = ms.grid(rng, "quad4", 2, 2, step=8, jitter=2)
    nodes = np.hstack([np.arange(9)[:, None] + 3*var, np.array(pts)/4])
    cons = np.zeros((9, 2), int)
    cons[rng.randrange(9)] = -1
    cons[rng.randrange(9), 0] = -1
    cons[rng.randrange(9), 1] = -1
    cons[[k for k in range(9) if k % 4 == var]] = -1
    eles = np.array([[k, 1, k % 2] + row for k, row in enumerate(conn)])
    mats = np.array([[1. + var, .25, 2.], [3., .1*var, 1.]])
    loads = np.array([[k, 1. + var, -k] for k in range(0, 9, 2)] + [[2., 1, 1]])
    return nodes, cons, eles, mats, loads


def tri_mesh(var, six=False):
    from harness import meshes as ms
    import random
    rng = random.Random(f"tri{var}")
    pts, conn = ms.grid(rng, "tri6" if six else "tri3", 2, 1, step=8, jitter=2)
    nodes = np.hstack([np.arange(len(pts))[:, None], np.array(pts)/4])
    eles = np.array([[k, 2 if six else 3, k % 2] + row
                     for k, row in enumerate(conn)])
    mats = np.array([[1. + var, .25], [3., .1*var]])
    return nodes, eles, mats


def catalogue(ctx):
    """[(name, function, [args of variant 1, 2, 3])], and refused calls."""
    import solidspy.assemutil as ass
    import solidspy.blochutil as bl
    import solidspy.femutil as fem
    import solidspy.gaussutil as gau
    import solidspy.postprocesor as pos
    import solidspy.preprocesor as pre
    import solidspy.solutil as sol
    import solidspy.uelutil as ue
    gui = importlib.import_module("solidspy.solids_GUI")
    ops = []

    def add(name, fun, make, num=3):
        ops.append((name, fun, [make(v) for v in range(num)]))

    meshes_ = [mesh(v) for v in range(3)]
    add("eqcounter", ass.eqcounter, lambda v: (meshes_[v][1],))
    add("eqcounter3", lambda c: ass.eqcounter(c, ndof_node=3),
        lambda v: (-(RNG(v).rand(5, 3) < .4).astype(int),))
    add("DME", ass.DME, lambda v: (meshes_[v][1], meshes_[v][2]))
    add("ele_fun", ass.ele_fun, lambda v: (v*2 + 1,))
    add("eletype", fem.eletype, lambda v: (v*2 + 2,))
    ops_dme = [fresh(ass.DME, (m[1], m[2]))[1] for m in meshes_]
    ops_dme = [(d[0], d[1], int(d[2])) for d in ops_dme]
    add("retriever", ass.retriever, lambda v: (
        meshes_[v][2], meshes_[v][3], meshes_[v][0], v))
    for kind in (True, False):
        add(f"assembler{kind}", lambda e, m, n, q, op, k=kind: ass.assembler(
            e, m, n, q, op, sparse=k), lambda v: (
                meshes_[v][2], meshes_[v][3], meshes_[v][0], ops_dme[v][2],
                ops_dme[v][0]))
    add("assembler-user", lambda e, m, n, q, op: ass.assembler(
        e, m, n, q, op, uel=user_element), lambda v: (
            meshes_[v][2], meshes_[v][3], meshes_[v][0], ops_dme[v][2],
            ops_dme[v][0]))
    add("loadasem", ass.loadasem, lambda v: (meshes_[v][4], ops_dme[v][1],
                                             ops_dme[v][2]))
    for name, dim in (("tri3", 2), ("tri6", 2), ("quad4", 2), ("quad8", 2),
                      ("quad9", 2), ("tet4", 3), ("hex8", 3)):
        add("shape_" + name, getattr(fem, "shape_" + name),
            lambda v, d=dim: tuple((.1 + .2*v, .3 - .1*v, .25*v)[:d]))
    add("elast_diff_2d", fem.elast_diff_2d, lambda v: (
        .1*v, .2, QUAD4*(1 + v), fem.shape_quad4))
    add("elast_diff_2d_tri", fem.elast_diff_2d, lambda v: (
        .1*v, .2, TRI3*(1 + v), fem.shape_tri3))
    add("elast_diff_axi", fem.elast_diff_axi, lambda v: (
        .1*v, .2, refine(QUAD4 + 4 + v, 9), fem.shape_quad9))
    add("elast_diff_3d", fem.elast_diff_3d, lambda v: (
        .1*v, .2, .3, HEXC*(1 + v)))
    add("elast_diff_tet", fem.elast_diff_3d, lambda v: (
        .1*v, .2, .3, TET*(1 + v), fem.shape_tet4))
    add("jacoper", fem.jacoper, lambda v: (
        fresh(fem.shape_quad4, (.1*v, .2))[1][1], QUAD4*(1 + v)))
    for name in ("umat", "elast_mat_2d", "elast_mat_axi", "elast_mat"):
        add(name, getattr(fem, name), lambda v: ((1. + v, .1*v),))
        add(name + "-array", getattr(fem, name),
            lambda v: (np.array([1. + v, .1*v]),))
    for name, pts in (("str_el3", TRI3), ("str_el6", refine(TRI3, 6)),
                      ("str_el4", QUAD4)):
        add(name, getattr(fem, name), lambda v, p=pts: (
            p + v, RNG(v).rand(2*len(p))))
    add("gauss_1d", gau.gauss_1d, lambda v: (v + 2,))
    add("gauss_nd", gau.gauss_nd, lambda v: (v + 2,))
    add("gauss_nd3", gau.gauss_nd, lambda v: (2, v + 1))
    add("gauss_tri", gau.gauss_tri, lambda v: (v + 1,))
    add("gauss_tet", gau.gauss_tet, lambda v: (v + 1,))
    params = lambda v: np.array([1. + v, .1*v, 2. - v*.5])
    for name, pts in (("elast_tri3", TRI3), ("elast_tri6", refine(TRI3, 6)),
                      ("elast_quad4", QUAD4),
                      ("elast_quad8", refine(QUAD4, 8)),
                      ("elast_quad9", refine(QUAD4, 9)),
                      ("elast_axi_quad9", refine(QUAD4 + 5, 9)),
                      ("elast_tet4", TET), ("elast_hex8", HEXC)):
        add(name, getattr(ue, name),
            lambda v, p=pts: (p*(1 + .5*v), params(v)))
    bar = lambda v: np.array([[0., 1.], [2., 1. + v]])
    add("spring", ue.spring, lambda v: (bar(v), 2. + v))
    add("truss2D", ue.truss2D, lambda v: (bar(v), [2. + v, 3.]))
    add("beam2DU", ue.beam2DU, lambda v: (bar(v), [2. + v, 3., 1., 2.]))
    add("beam2D", ue.beam2D, lambda v: (bar(v), [2. + v, 3., 4., 1.]))
    # post-processing
    add("mesh2tri", pos.mesh2tri, lambda v: (meshes_[v][0], meshes_[v][2]))
    add("complete_disp", pos.complete_disp, lambda v: (
        ops_dme[v][1], meshes_[v][0], RNG(v).rand(ops_dme[v][2])))
    add("strain4", pos.strain_nodes, lambda v: (
        meshes_[v][0], meshes_[v][2], meshes_[v][3], RNG(v).rand(9, 2)))
    for six in (False, True):
        add(f"strain-tri{six}", pos.strain_nodes, lambda v, s=six: (
            *tri_mesh(v, s), RNG(v).rand(len(tri_mesh(v, s)[0]), 2)))
    truss = np.array([[0, 6, 0, 0, 1], [1, 6, 1, 1, 2], [2, 6, 0, 2, 0]])
    tnod = np.array([[0, 0., 0.], [1, 4., 0.], [2, 1., 3.]])
    add("stress_truss", pos.stress_truss, lambda v: (
        tnod*(1 + v), truss, np.array([[1. + v, 2.], [3., 4.]]),
        RNG(v).rand(3, 2)))
    add("eigvals", pos.eigvals, lambda v: (
        np.array([[1., .5*v], [.5*v, -3. + v]]),))
    add("principal_dirs", pos.principal_dirs, lambda v: (RNG(v).rand(4, 3),))
    add("energy", pos.energy, lambda v: (RNG(v).rand(4), RNG(v).rand(4, 4)))
    add("static_dense", sol.static_sol, lambda v: (
        RNG(v).rand(4, 4) + 4*np.eye(4), RNG(v).rand(4)))
    add("static_sparse", sol.static_sol, lambda v: (
        sparse.csr_matrix(RNG(v).rand(4, 4) + 4*np.eye(4)), RNG(v).rand(4)))
    # pre-processing
    add("rect_grid", pre.rect_grid, lambda v: (1. + v, 2., 2 + v, 3))
    cells = lambda v: {"quad": RNG(v).randint(0, 9, (5, 4)),
                       "triangle": RNG(v).randint(0, 9, (4, 3)),
                       "line": RNG(v + 9).randint(0, 9, (6, 2))}
    data = lambda v: {
        "quad": {"gmsh:physical": np.array([1, 2, 1, 2, 2])},
        "triangle": {"gmsh:physical": np.array([2, 1, 1, 2])},
        "line": {"gmsh:physical": np.array([1, 1, 2, 2, 1, v + 1])}}
    add("ele_writer", pre.ele_writer, lambda v: (
        cells(v), data(v), "quad", 1 + v % 2, 1, v, 3*v))
    add("node_writer", pre.node_writer, lambda v: (RNG(v).rand(9, 3), {}))
    add("loading", pre.loading, lambda v: (cells(v), data(v), 1, 2. + v, -3))
    add("boundary", lambda c, d, p, n, x, y: pre.boundary_conditions(
        c, d, p, n.copy(), x, y), lambda v: (
            cells(v), data(v), 1 + v % 2, np.zeros((9, 5)), -1, v - 1))
    folder = ctx.subdir("session")
    for name in ("here", "there"):
        os.makedirs(os.path.join(folder, name), exist_ok=True)
    for v in range(3):
        path = os.path.join(folder, str(v))
        os.makedirs(path, exist_ok=True)
        nodes, cons, eles, mats, loads = meshes_[v]
        for name, tab, fmt in (("nodes", np.hstack([nodes, cons]), "%.17g"),
                               ("mater", mats, "%.17g"), ("eles", eles, "%d"),
                               ("loads", loads, "%.17g")):
            np.savetxt(os.path.join(path, name + ".txt"), tab, fmt=fmt)
    add("readin", pre.readin, lambda v: (os.path.join(folder, str(v)) + "/",))
    add("echomod", lambda n, m, e, ld, p: pre.echomod(n, m, e, ld, folder=p),
        lambda v: (meshes_[v][0], meshes_[v][3], meshes_[v][2], meshes_[v][4],
                   folder + "/"))
    # analyses
    for comp in (False, True):
        add(f"auto{comp}", lambda d, c=comp: gui.solids_auto(
            d, plot_contours=False, compute_strains=c), lambda v: (
                {"nodes": meshes_[v][0], "cons": meshes_[v][1],
                 "elements": meshes_[v][2], "mats": meshes_[v][3],
                 "loads": meshes_[v][4]},))
    add("gui", lambda p: gui.solids_GUI(plot_contours=False, folder=p),
        lambda v: (os.path.join(folder, str(v)) + "/",))
    def beside(path):
        """With the model in the working directory."""
        old = os.getcwd()
        os.chdir(path)
        try:
            return gui.solids_GUI(plot_contours=False, folder="")
        finally:
            os.chdir(old)
    add("gui-beside", beside, lambda v: (os.path.join(folder, str(v)),))
    place = ctx.subdir("place")

    def rewritten(fun):
        """With every model written over the former one: same folder, same
        sizes, same times."""
        def analyse(v):
            for name in ("nodes", "mater", "eles", "loads"):
                texts = []
                for k in range(3):
                    with open(os.path.join(folder, str(k), name + ".txt"),
                              "rb") as file:
                        texts.append(file.read())
                path = os.path.join(place, name + ".txt")
                with open(path, "wb") as file:
                    file.write(texts[v].ljust(max(map(len, texts)), b"\n"))
                os.utime(path, ns=(10**18, 10**18))
            return fun(place + "/")
        return analyse
    add("gui-rewritten", rewritten(lambda p: gui.solids_GUI(
        plot_contours=False, folder=p)), lambda v: (v,))
    add("readin-rewritten", rewritten(pre.readin), lambda v: (v,))
    # Bloch
    add("reassign", bl.reassign_dof_bloch, lambda v: (
        6, [[4, 5], [0, 3], [5, 2]][v], [[0, 1], [4, 2], [1, 0]][v]))
    add("reassign-many", bl.reassign_dof_bloch, lambda v: (
        200, [int(k) for k in RNG(v).permutation(90)],
        [int(k) for k in 90 + RNG(v + 9).permutation(110)[:90]]))
    coords = np.array([[0., 0.], [1., 0.], [0., 1.], [1., 1.]])
    add("bloch", bl.bloch_transform_mat, lambda v: (
        np.array([.3*v, 1.]), coords*(1 + v), 4, [0, 0, 0], [1, 2, 3],
        [0, 0, 0], [1, 2, 3], {0: [0]}, {1: [1], 2: [2], 3: [3]},
        [0, 0, 0, 0]))
    # plots: only the arguments are of interest
    plots = importlib.import_module("matplotlib.pyplot")

    def drawn(fun):
        def draw(*args):
            try:
                fun(*args)
            finally:
                plots.close("all")
        return draw
    add("fields_plot", drawn(pos.fields_plot), lambda v: (
        meshes_[v][2], meshes_[v][0], RNG(v).rand(9, 2)), num=1)
    add("fields_bars", drawn(pos.fields_plot), lambda v: (
        truss, tnod*(1 + v), RNG(v).rand(3, 2)), num=1)
    add("node_field", drawn(pos.plot_node_field), lambda v: (
        RNG(v).rand(9, 2), meshes_[v][0], meshes_[v][2]), num=1)
    add("plot_truss", drawn(pos.plot_truss), lambda v: (
        tnod*(1 + v), truss, np.array([[1. + v, 2.], [3., 4.]]),
        RNG(v).rand(3) - .5), num=1)

    spoiled = meshes_[0][2].copy()
    spoiled[2, 3:] = spoiled[2, 3:][::-1]
    unknown = meshes_[1][2].copy()
    unknown[3, 1] = 77
    bad = [
        ("clockwise", ass.assembler, (spoiled, meshes_[0][3], meshes_[0][0],
                                      ops_dme[0][2], ops_dme[0][0])),
        ("clockwise-dense", lambda *a: ass.assembler(*a, sparse=False),
         (spoiled, meshes_[0][3], meshes_[0][0], ops_dme[0][2],
          ops_dme[0][0])),
        ("unknown", ass.DME, (meshes_[1][1], unknown)),
        ("eletype", fem.eletype, (0,)),
        ("gauss_nd", gau.gauss_nd, (77,)),
        ("gauss_tri", gau.gauss_tri, (77,)),
        ("gauss_tet", gau.gauss_tet, (77,)),
        ("strain", pos.strain_nodes, (meshes_[0][0], spoiled, meshes_[0][3],
                                      RNG(3).rand(9, 2))),
        ("solve", sol.static_sol, (sparse.eye(3, format="coo"), np.ones(3))),
        ("singular", sol.static_sol, (np.zeros((3, 3)), np.ones(3))),
        ("files", pre.readin, (os.path.join(folder, "missing"),)),
        ("writer", pre.ele_writer, (cells(0), data(0), "hexahedron", 1, 1, 0,
                                    0)),
        ("auto", lambda d: gui.solids_auto(d, plot_contours=False),
         ({"nodes": meshes_[0][0], "cons": meshes_[0][1],
           "elements": spoiled, "mats": meshes_[0][3],
           "loads": meshes_[0][4]},)),
        ("umat", fem.umat, ((1.,),)),
        ("quad4", ue.elast_quad4, (QUAD4[::-1].copy(), [1., .3])),
        ("user", lambda *a: ass.assembler(*a, uel=lambda c, p: 1/0),
         (meshes_[0][2], meshes_[0][3], meshes_[0][0], ops_dme[0][2],
          ops_dme[0][0])),
    ]
    return ops, bad


def fresh(fun, args):
    """The result of a call in a process that has made no other call."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            got = u.call(fun, *args)
            with os.fdopen(wfd, "wb") as fout:
                pickle.dump((got.err, normal(got.val)), fout)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as fin:
        blob = fin.read()
    os.waitpid(pid, 0)
    return pickle.loads(blob)


def run(ctx):
    try:
        ops, bad = catalogue(ctx)
    except Exception as exc:
        ctx.trace()
        ctx.fail("catalogue", f"a sound call failed: {exc!r}")
        return
    base = ctx.subdir("session")
    os.chdir(os.path.join(base, "here"))
    before = around(base)
    refs = []
    for name, fun, variants in ops:
        row = []
        for args in variants:
            err, val = fresh(fun, args)
            if err:
                ctx.fail("refused", {"call": name, "args": args, "err": err})
            row.append(val)
        refs.append(row)
    if ctx.failures:
        ctx.trace()
        return
    scen = [{"ops": len(ops), "bad": len(bad),
             "variants": [len(o[2]) for o in ops]}]
    num = ctx.pick(16, 300)
    res = ctx.tlc("Session", scenarios=scen, simulate=(num, 161), workers=1)
    sessions = res.lines("session")
    once = ctx.tlc("Session", "SessionSweep", scenarios=scen)
    for rec in once.lines("sweep") + sessions[::5]:
        session(ctx, ops, bad, refs, rec["hist"], before)
        ctx.trace()
    ctx.sample(sessions[0]["hist"][:12])


def session(ctx, ops, bad, refs, hist, before):
    import matplotlib
    base = ctx.subdir("session")
    plain = (np.geterr(), np.get_printoptions(),
             dict(dict.items(matplotlib.rcParams)))
    os.chdir(os.path.join(base, "here"))
    expect = around(base)
    expect["files"] = before["files"]
    held = {}                   # the caller's own argument objects
    live = []                   # [result, value it must hold, name]
    done = []
    pristine = {}
    for what, num, var in hist:
        if what in ("found", "quiet", "elsewhere", "seeded", "short",
                    "styled"):
            arrange(what, base, plain)
            files = expect["files"]
            expect = around(base)
            expect["files"] = files
            done.append("arrange " + what)
            ctx.count("arranged")
        elif what == "write":
            entry = live[-1 - num]
            write(entry[0])
            entry[1] = normal(entry[0])
            done.append(["write", entry[2]])
        else:
            if what == "call":
                name, fun, variants = ops[num - 1]
                args = variants[var - 1]
                label = f"{name}/{var}"
            elif what == "reuse":
                name, fun, variants = ops[num - 1]
                live = [e for e in live if e[3] != num]
                args = pour(held[num], variants[var - 1]) if num in held \
                    else copy.deepcopy(variants[var - 1])
                held[num] = args
                label = f"{name}/{var}"
            else:
                name, fun, args = bad[num - 1]
                label = "refused " + name
            done.append(label + " reused" if what == "reuse" else label)
            if label not in pristine:
                pristine[label] = copy.deepcopy(args)
            got = perform(fun, args)
            now = around(base)
            if now != expect:
                ctx.fail("surroundings", {
                    "call": label, "history": done[-6:],
                    "changed": [k for k in now if now[k] != expect[k]]})
                return
            if not exact(pristine[label], args):
                ctx.fail("argument-changed", {"call": label,
                                              "history": done[-6:]})
                return
            if what in ("call", "reuse"):
                want = refs[num - 1][var - 1]
                if got.err or not same(want, normal(got.val)):
                    ctx.fail("memory", {
                        "call": label, "err": got.err, "history": done[-25:],
                        "alone": repr(want)[:400],
                        "here": repr(normal(got.val))[:400]})
                    return
                live.append([got.val, normal(got.val), label,
                             num if what == "reuse" else None])
                live = live[-6:]
        for val, want, label, _ in live:
            if not same(want, normal(val)):
                ctx.fail("result-changed", {"result": label,
                                            "history": done[-25:]})
                return
        ctx.count("steps")
    arrange("found", base, plain)
