"""C05: static solutions satisfy the system; completion puts zeros at supports."""
import numpy as np
from scipy import sparse
from harness import static
from harness import util as u


POWERS = [0, 0, 0, 0, 40, -40, 7, -90, 120]


def snapshot(mat):
    if sparse.issparse(mat):
        return mat.toarray()
    return np.array(mat)


def run(ctx):
    import solidspy.solutil as sol
    import solidspy.postprocesor as pos
    rng = ctx.rng
    scen = static.scenarios(ctx, ctx.pick(160, 2500), ctx.pick(2, 12))
    res = ctx.tlc("Static", scenarios=scen)
    last, every, completed = None, [], []
    for rec in scen:
        spec = res.json(f"static{rec['id']}")
        amat = np.array(spec["A"], dtype=float)
        rhs = np.array(spec["f"])/8
        want = np.array(spec["u"])/8
        cond = np.linalg.cond(amat)
        tol = max(1e-10, 1e-13*cond)
        if tol > 1e-4:
            ctx.count("skipped_ill_conditioned")
            continue
        forms = {"dense": amat.copy(),
                 "fortran": np.asfortranarray(amat),
                 "csr": sparse.csr_matrix(amat)}
        if amat.size and not np.any(amat % 1):
            forms["int"] = amat.astype(int)
        unsorted = sparse.coo_matrix(amat)
        order = np.array(rng.sample(range(unsorted.nnz), unsorted.nnz), int)
        forms["csr-from-coo"] = sparse.coo_matrix(
            (unsorted.data[order], (unsorted.row[order], unsorted.col[order])),
            shape=amat.shape).tocsr()
        if amat.size:
            forms["csr-split"] = split(rng, amat)
        scale = np.abs(want).max() or 1.
        for name, mat in forms.items():
            # any units: the matrix and the right-hand side are rescaled
            pmat, prhs = (rng.choice(POWERS) for _ in range(2))
            if name == "int":
                pmat = 0
            mat = mat if pmat == 0 else mat*2.**pmat
            fac = 2.**(prhs - pmat)
            before, rhs_in = snapshot(mat), rhs*2.**prhs
            keep = rhs_in.copy()
            if rng.random() < .3 and not np.any(rhs_in % 1) and \
                    np.abs(rhs_in).max(initial=0) < 2**50:
                rhs_in = rhs_in.astype(int)
            if rng.random() < .3:
                rhs_in = np.repeat(rhs_in, 3)[::3]
            got = u.call(sol.static_sol, mat, rhs_in)
            if got.err:
                ctx.fail("raised", {"form": name, "A": amat, "err": got.err})
                continue
            if not u.close(got.val, want*fac, scale*fac, tol):
                ctx.fail("solution", {"form": name, "A": amat, "f": rhs,
                                      "powers": [pmat, prhs],
                                      "spec": want*fac, "code": got.val})
            if not (np.array_equal(snapshot(mat), before)
                    and np.array_equal(rhs_in, keep)):
                ctx.fail("arguments-changed", {"form": name, "A": amat})
        for name, make in OTHER.items():
            if rng.random() > .15:
                continue
            try:
                mat = make(amat)
            except Exception:
                continue
            got = u.call(sol.static_sol, mat, rhs.copy())
            if not got.err and not u.close(np.ravel(u.safe_dense(got.val)),
                                           want, scale, tol):
                ctx.fail("unsupported-solved-wrongly",
                         {"container": name, "A": amat, "code": got.val})
            ctx.count("other_containers")
        # completion
        ndof = len(spec["bc"][0])
        bc_array = np.array(spec["bc"])
        nodes = np.zeros((len(bc_array), rng.choice([3, 4, 5])))
        # the numbers of the equations are labels, in any order
        label = rng.sample(range(len(want)), len(want))
        other = np.array([[-1 if c == -1 else label[c] for c in row]
                          for row in spec["bc"]])
        moved = np.empty_like(want)
        moved[label] = want
        got = u.call(pos.complete_disp, other.copy(), nodes, moved.copy(),
                     ndof_node=ndof)
        if got.err or not u.safe(lambda: np.array_equal(
                8*np.asarray(got.val), spec["uc"])):
            ctx.fail("complete-relabelled", {
                "bc": other, "u": moved, "spec": spec["uc"],
                "err": got.err, "code": got.val})
        for disp in (want, want*2.**rng.choice(POWERS)):
            fac = 8. if disp is want else 8*np.abs(want).max()/(
                np.abs(disp).max() or 1.) or 8.
            kwargs = ({} if ndof == 2 and rng.random() < .5
                      else {"ndof_node": ndof})
            got = u.call(pos.complete_disp, u.relay(rng, bc_array.copy()),
                         nodes, u.relay(rng, disp.copy()),
                         **kwargs)
            if got.err:
                ctx.fail("complete-raised", {"bc": bc_array, "err": got.err})
            elif not u.safe(lambda: np.shape(got.val) == bc_array.shape
                            and np.array_equal(fac*np.asarray(got.val),
                                               spec["uc"])):
                ctx.fail("complete", {"bc": bc_array, "u": want,
                                      "spec": spec["uc"], "code": got.val})
        ctx.trace()
        if last is not None:
            uncoupled(ctx, sol, rng, last, (amat, rhs, want, tol))
        last = (amat, rhs, want, tol)
        completed.append((bc_array, np.array(spec["uc"])/8, want))
        every.append(last)
        if len(want) < 4:
            ctx.sample({"A": spec["A"], "f8": spec["f"], "u8": spec["u"],
                        "completed8": spec["uc"]})
    together(ctx, sol, rng, every)
    complete_together(ctx, pos, rng, completed)


def split(rng, amat):
    """Compressed rows whose entries come in any order, some in two parts."""
    data, cols, start = [], [], [0]
    for row in amat:
        items = [(c, v) for c, v in enumerate(row) if v]
        for c, v in list(items):
            if rng.random() < .4:
                part = rng.randrange(-9, 10)
                items.remove((c, v))
                items += [(c, v - part), (c, float(part))]
        rng.shuffle(items)
        cols += [c for c, _ in items]
        data += [v for _, v in items]
        start.append(len(data))
    return sparse.csr_matrix((np.array(data), np.array(cols, np.int32),
                              np.array(start, np.int32)), shape=amat.shape)


def complete_together(ctx, pos, rng, completed):
    """Large tables, and more nodes than a short integer counts."""
    for ndof in (2, rng.choice([1, 3])):
        parts = [c for c in completed if c[0].shape[1] == ndof]
        if not parts:
            continue
        lead = rng.choice([0, 33000])//ndof
        table, full, sol = [np.full((lead, ndof), -1)], [
            np.zeros((lead, ndof))], []
        at = 0
        for _ in range(rng.choice([30, 400])):
            bc_array, comp, vec = rng.choice(parts)
            fac = rng.uniform(.5, 2)
            table.append(np.where(bc_array == -1, -1, bc_array + at))
            full.append(comp*fac)
            sol.append(vec*fac)
            at += len(vec)
        table, full = np.concatenate(table), np.concatenate(full)
        got = u.call(pos.complete_disp, table.copy(),
                     np.zeros((len(table), 3)), np.concatenate(sol),
                     ndof_node=ndof)
        ctx.count("completed_together", len(table))
        if got.err or not u.safe(lambda: np.array_equal(got.val, full)):
            ctx.fail("complete-together", {"nodes": len(table), "ndof": ndof,
                                           "err": got.err})


def together(ctx, sol, rng, every):
    """Large systems: many of them solved as one."""
    for size in (300, 900, 2400):
        parts, total = [], 0
        while total < size and every:
            parts.append(rng.choice(every))
            total += len(parts[-1][2])
        uncoupled(ctx, sol, rng, *parts)
    for count in (8, 15, 40, 80)*ctx.pick(1, 5):
        coupled(ctx, sol, rng, [rng.choice(every) for _ in range(count)])
    # more unknowns than a short integer counts
    parts = [rng.choice(every) for _ in range(rng.choice([12000, 20000]))]
    amat = sparse.block_diag([p[0] for p in parts], format="csr")
    want = np.concatenate([p[2] for p in parts])
    got = u.call(sol.static_sol, amat, np.concatenate([p[1] for p in parts]))
    ctx.count("large", len(want))
    tols = np.concatenate([np.full(len(p[2]), p[3]*(
        np.abs(p[2]).max() if len(p[2]) else 0)) for p in parts])
    if got.err or not u.safe(lambda: np.all(
            np.abs(np.asarray(got.val) - want) <= tols + 1e-300)):
        ctx.fail("large", {"size": len(want), "err": got.err,
                           "code": repr(got.val)[:500]})


def coupled(ctx, sol, rng, parts):
    """Equations are added to other equations: most entries are in use, and
    the solution is the same."""
    size = sum(len(p[2]) for p in parts)
    amat, at, used = np.zeros((size, size)), 0, []
    for mat, _, val, _ in parts:
        if len(val):
            amat[at:at + len(val), at:at + len(val)] = mat
            used.append(at + rng.randrange(len(val)))
        at += len(val)
    rhs = np.concatenate([p[1] for p in parts])
    want = np.concatenate([p[2] for p in parts])
    mix = np.eye(size)
    for row in set(range(size)) - set(used):
        for col in used:
            mix[row, col] = rng.choice([0, 1, 1, -1])
    amat, rhs = mix @ amat, mix @ rhs            # whole numbers: exact
    order = rng.sample(range(size), size)
    amat, rhs = amat[order], rhs[order]
    if not size:
        return
    tol = max(1e-9, 1e-13*np.linalg.cond(amat))
    if tol > 1e-5:
        return
    ctx.count("coupled", size)
    for name, mat in (("dense", amat), ("csr", sparse.csr_matrix(amat))):
        got = u.call(sol.static_sol, mat, rhs.copy())
        if got.err or not u.safe(lambda: np.all(
                np.abs(np.asarray(got.val) - want)
                <= tol*np.abs(want).max() + 1e-300)):
            ctx.fail("coupled", {"form": name, "A": amat, "f": rhs,
                                 "err": got.err, "spec": want,
                                 "code": repr(got.val)[:500]})


def uncoupled(ctx, sol, rng, *parts):
    """Parts without any connection, with stiffnesses of very different
    size, keep their own solutions when they are solved together."""
    powers = [(rng.choice(POWERS), rng.choice([0, 7, -20, -60, 90])) for _ in parts]
    size = sum(len(p[2]) for p in parts)
    if not size:
        return
    amat, rhs = np.zeros((size, size)), np.zeros(size)
    want, tols = np.zeros(size), np.zeros(size)
    at = 0
    for (mat, vec, val, tol), (pmat, prhs) in zip(parts, powers):
        sel = slice(at, at + len(val))
        at += len(val)
        part = rng.choice([1., rng.uniform(.5, 2)])     # all digits in use
        amat[sel, sel] = mat*2.**pmat*part
        rhs[sel] = vec*2.**(pmat + prhs)*part
        want[sel] = val*2.**prhs
        tols[sel] = tol*(np.abs(want[sel]).max() if len(val) else 0)
    order = rng.sample(range(size), size)
    amat = amat[np.ix_(order, order)]
    rhs, want, tols = rhs[order], want[order], tols[order]
    for name, mat in (("dense", amat), ("csr", sparse.csr_matrix(amat))):
        got = u.call(sol.static_sol, mat, rhs.copy())
        ctx.count("uncoupled")
        if got.err or not u.safe(lambda: np.all(
                np.abs(np.asarray(got.val) - want) <= tols + 1e-300)):
            ctx.fail("uncoupled-parts", {"form": name, "A": amat, "f": rhs,
                                         "err": got.err, "spec": want,
                                         "code": repr(got.val)[:500]})


OTHER = {
    "csc": sparse.csc_matrix, "coo": sparse.coo_matrix,
    "lil": sparse.lil_matrix, "dok": sparse.dok_matrix,
    "list": lambda a: a.tolist(), "csr_array": sparse.csr_array,
    "matrix": np.matrix, "bsr": sparse.bsr_matrix,
    "tuple": lambda a: tuple(map(tuple, a.tolist())),
    "masked": np.ma.masked_array,
}
