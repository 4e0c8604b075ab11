"""Helpers shared by the checks."""
import contextlib
import io
import math
import warnings

import numpy as np


class Got:
    """Outcome of one call into the library."""
    __slots__ = ("val", "err", "exc", "out")

    def __init__(self, val, err, exc=None, out=""):
        self.val, self.err, self.exc, self.out = val, err, exc, out


def call(fun, *args, **kwargs):
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return Got(fun(*args, **kwargs), None, None, out.getvalue())
    except Exception as exc:            # the library refused or broke
        return Got(None, f"{type(exc).__name__}: {exc}"[:300] or "error", exc,
                   out.getvalue())


def safe(fun):
    try:
        return bool(fun())
    except Exception:
        return False


def as_int(val):
    try:
        num = int(val)
        return num if num == val else None
    except Exception:
        return None


def dense(mat):
    """Dense copy of a dense or sparse matrix."""
    if hasattr(mat, "toarray"):
        mat = mat.toarray()
    return np.asarray(mat)


def int_table(arr, limit=2**31 - 1):
    """Nested list of ints, or None when an entry is not (close to) one."""
    try:
        arr = dense(arr)
        if arr.dtype.kind in "iub":
            out = arr
        else:
            if not np.all(np.isfinite(arr)):
                return None
            out = np.rint(arr)
            if np.abs(out - arr).max(initial=0) > 1e-6 * max(
                    1.0, np.abs(arr).max(initial=0)):
                return None
        if np.abs(out).max(initial=0) > limit:
            return None
        return out.astype(int).tolist()
    except Exception:
        return None


def judge(ctx, module, scenarios, cfg=None, verdict="verdict"):
    """Let the trace specification judge recorded scenarios."""
    if not scenarios:
        return None
    body = [{k: v for k, v in s.items() if k != "info"} for s in scenarios]
    res = ctx.tlc(module, cfg, scenarios=body)
    got = {rec["id"]: rec["bad"] for rec in res.lines(verdict)}
    for scen in scenarios:
        if scen["id"] not in got:
            from harness.core import MachineryError
            raise MachineryError(f"no verdict for trace {scen['id']} "
                                 f"({module})")
        ctx.trace()
        if got[scen["id"]]:
            small = {k: v for k, v in scen.items()
                     if len(repr(v)) < 1500}
            ctx.fail("trace:" + ",".join(sorted(got[scen["id"]])), small)
    return res


def close(got, want, scale=None, tol=1e-9):
    """Do two arrays agree, relative to the size of the expected one?"""
    try:
        got = dense(got)
        want = np.asarray(want, dtype=complex if np.iscomplexobj(want)
                          else float)
        if got.shape != want.shape:
            return False
        if got.size == 0:
            return True
        if not np.all(np.isfinite(got)):
            return False
        if scale is None:
            scale = np.abs(want).max()
        return bool(np.abs(got - want).max() <= tol * scale)
    except Exception:
        return False


def frac(val):
    """<<num, den>> emitted by TLC -> float."""
    return val[0] / val[1]


def unchanged(before, after):
    return all(np.array_equal(b, a) for b, a in zip(before, after))


def rotations(num, den):
    return math.atan2(num, den)


def safe_dense(mat):
    try:
        return dense(mat)
    except Exception:
        return repr(mat)[:200]


def call_list(fun, *args):
    return list(fun(*args))


def safe_abs_max(mat):
    try:
        val = float(np.abs(np.asarray(mat, dtype=float)).max())
        return val if math.isfinite(val) and val > 0 else 1.
    except Exception:
        return 1.


def relay(rng, arr, often=.5):
    """The same numbers held in memory in another way: transposed order,
    strides of a larger array, reversed strides, read-only, and for whole
    tables of integers a shorter integer type."""
    arr = np.asarray(arr)
    if rng.random() > often or not arr.size:
        return arr
    if arr.dtype == np.int64 and rng.random() < .4 and \
            np.abs(arr).max() < 2**31 - 1:
        arr = arr.astype(np.int32)
    how = rng.choice(["fortran", "strided", "reversed", "readonly", "plain"])
    if how == "fortran":
        return np.asfortranarray(arr)
    if how == "strided":
        big = np.full([2*n + 1 for n in arr.shape], 77).astype(arr.dtype)
        out = big[tuple(slice(1, None, 2) for _ in arr.shape)]
        out[...] = arr
        return out
    if how == "reversed":
        out = np.ascontiguousarray(arr[::-1])[::-1]
        return out
    if how == "readonly":
        arr = arr.copy()
        arr.setflags(write=False)
    return arr
