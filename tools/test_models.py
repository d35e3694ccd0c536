"""Developer tool: /opt/venv/bin/python tools/test_models.py
Compares the analyser's models of library routines with the real jax.numpy / jax.lax on concrete inputs.
(It tests the models the checks rely on; it does not decide any property.)"""
import os, sys
from fractions import Fraction as F

os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jax, jax.numpy as jnp, numpy as np
from magstat import terms as tm, lib_mods as lm, lib_more
from magstat.values import *
from magstat.interp import Interp
from magstat.lib_arr import box

I = Interp("/repo")


def to(x):
    """numpy -> analyser"""
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            v = x[i]
            out[i] = tm.const(bool(v)) if x.dtype == bool else tm.const(F(float(v)).limit_denominator(10**9)) if x.dtype.kind == "f" and not np.isnan(v) else tm.NAN if x.dtype.kind == "f" else tm.const(int(v))
        return Arr(box(out), {"b": "b", "f": "f", "i": "i"}[x.dtype.kind])
    if isinstance(x, (list, tuple)):
        return type(x)(to(v) for v in x)
    if isinstance(x, float):
        return F(x).limit_denominator(10**9)
    return x


def fro(x):
    if isinstance(x, (list, tuple)):
        return [fro(v) for v in x]
    a = as_arr(x)
    ev = lambda t: t.data if t.op == "b" else float(tm.evaluate(t, {}))
    out = np.empty(a.shape)
    for i in np.ndindex(*a.shape):
        try:
            out[i] = ev(a.a[i])
        except Exception:
            out[i] = np.nan if a.a[i] is tm.NAN else 1e99
    return out


x = np.array([3.0, -1.5, 2.0, 0.25, 7.0])
m = np.array([[1.0, -2.0, 3.0], [0.5, 4.0, -6.0]])
q = np.array([[2.0, 1.0, 0.5], [1.0, 3.0, -1.0], [0.25, 1.0, 4.0]])
k = np.array([2, 0, 1])
b = np.array([True, False, True])
i3 = np.array([[3, 1, 2], [0, 5, 4]])
J = "jax.numpy."
L = "jax.lax."
N = "jax.numpy.linalg."
CASES = [
    (J + "delete", (x, 1), {}), (J + "delete", (m, 1), {"axis": 1}), (J + "delete", (m, -1, 0), {}), (J + "delete", (x, np.array([0, 2])), {}), (J + "delete", (m, 4), {}),
    (J + "pad", (x, 2), {}), (J + "pad", (m, ((1, 0), (0, 2))), {"constant_values": 5.0}), (J + "pad", (x, (1, 2)), {"mode": "edge"}), (J + "pad", (m, 1), {"mode": "reflect"}), (J + "pad", (x, 1), {"mode": "wrap"}),
    (J + "sort", (x,), {}), (J + "sort", (m,), {"axis": 0}), (J + "sort", (m,), {"axis": None}), (J + "sort", (m,), {"descending": True}), (J + "argsort", (x,), {}), (J + "argsort", (m, 0), {}),
    (J + "median", (x,), {}), (J + "median", (m,), {"axis": 1}), (J + "median", (m,), {"axis": 0, "keepdims": True}), (J + "quantile", (x, 0.3), {}), (J + "quantile", (m, np.array([0.25, 0.75])), {"axis": 1}), (J + "percentile", (x, 40.0), {}),
    (J + "unique", (np.array([3.0, 1.0, 3.0, 2.0]),), {}), (J + "nonzero", (b,), {}), (J + "nonzero", (i3,), {}), (J + "flatnonzero", (i3,), {}), (J + "argwhere", (i3,), {}), (J + "compress", (b, q), {"axis": 1}), (J + "extract", (np.array([True, False, True, True, False]), x), {}),
    (J + "take_along_axis", (m, np.array([[0, 2], [1, 1]])), {"axis": 1}), (J + "take_along_axis", (x, np.array([4, 0])), {"axis": None}), (J + "fill_diagonal", (q, 9.0), {"inplace": False}), (J + "unstack", (m,), {"axis": 1}), (J + "unstack", (m,), {}), (J + "dstack", ((m, m),), {}),
    (J + "block", ([[m, m], [m, m]],), {}), (J + "block", ([x, x],), {}), (J + "fliplr", (m,), {}), (J + "flipud", (m,), {}), (J + "rot90", (m,), {}), (J + "rot90", (m, 3), {}), (J + "rollaxis", (m, 1), {}), (J + "hsplit", (m, 3), {}), (J + "vsplit", (m, 2), {}), (J + "resize", (m, (3, 3)), {}),
    (J + "triu_indices", (3,), {}), (J + "tril_indices", (3, -1), {}), (J + "diag_indices", (3,), {}), (J + "indices", ((2, 3),), {}), (J + "unravel_index", (np.array([1, 5]), (2, 3)), {}), (J + "tri", (3,), {}), (J + "ix_", (np.array([0, 1]), np.array([2, 0])), {}),
    (J + "interp", (np.array([-1.0, 0.0, 0.3, 1.0, 2.5, 3.0, 4.0]), np.array([0.0, 1.0, 3.0]), np.array([1.0, 5.0, -2.0])), {}), (J + "interp", (np.array([-1.0, 4.0, 2.0]), np.array([0.0, 1.0, 3.0]), np.array([1.0, 5.0, -2.0]), 8.0, 9.0), {}),
    (J + "convolve", (x, np.array([1.0, 2.0, 0.5])), {}), (J + "convolve", (x, np.array([1.0, 2.0, 0.5])), {"mode": "same"}), (J + "convolve", (x, np.array([1.0, 2.0])), {"mode": "valid"}), (J + "convolve", (x, np.array([1.0, 2.0])), {"mode": "same"}), (J + "gradient", (x,), {}), (J + "gradient", (x, 0.5), {}),
    (J + "geomspace", (1.0, 8.0, 4), {}), (J + "logspace", (0.0, 2.0, 3), {}), (J + "divmod", (x, 2.0), {}), (J + "modf", (x,), {}), (J + "nanmean", (np.array([1.0, np.nan, 3.0]),), {}), (J + "nansum", (np.array([1.0, np.nan, 3.0]),), {}), (J + "nan_to_num", (np.array([1.0, np.nan, 3.0]),), {}),
    (J + "nanmax", (m,), {"axis": 0}), (J + "isin", (i3, np.array([1, 4])), {}), (J + "setdiff1d", (np.array([3, 1, 2, 3]), np.array([2])), {}), (J + "vander", (x,), {}), (J + "vander", (x, 3), {"increasing": True}), (J + "cumulative_sum", (x,), {}), (J + "cumulative_sum", (m,), {"axis": 1}),
    (J + "matvec", (q, np.array([1.0, 2.0, 3.0])), {}), (J + "vecmat", (np.array([1.0, 2.0, 3.0]), q), {}), (J + "logaddexp", (1.0, 2.0), {}), (J + "arcsinh", (x,), {}), (J + "arctanh", (np.array([0.5, -0.25]),), {}), (J + "arccosh", (np.array([1.5, 3.0]),), {}), (J + "signbit", (x,), {}), (J + "copysign", (x, -x), {}),
    (J + "ediff1d", (m,), {}), (J + "diagflat", (x,), {}), (L + "dynamic_slice", (m, (0, 1), (1, 2)), {}), (L + "dynamic_slice", (m, (1, 2), (2, 2)), {}), (L + "dynamic_slice", (m, (-1, -1), (1, 1)), {}), (L + "dynamic_slice_in_dim", (x, 3, 3), {}), (L + "dynamic_index_in_dim", (m, 1, 1), {}), (L + "dynamic_index_in_dim", (m, -1, 0, False), {}),
    (L + "dynamic_update_slice", (m, np.array([[8.0]]), (1, 2)), {}), (L + "dynamic_update_slice", (x, np.array([8.0, 9.0]), (4,)), {}), (L + "slice_in_dim", (x, 1, 4), {}), (L + "slice_in_dim", (x, 0, 5, 2), {}), (N + "matrix_power", (q, 3), {}), (N + "matrix_power", (q, -1), {}), (N + "slogdet", (q,), {}), (N + "det", (q,), {}), (N + "inv", (q,), {}), (N + "norm", (q,), {}),
    (N + "norm", (m, 1, 0), {}), (N + "norm", (m, jnp.inf, 1), {}) if False else (N + "norm", (m,), {"axis": 1}), (J + "searchsorted", (np.array([0.0, 1.0, 3.0]), np.array([-1.0, 0.0, 1.0, 2.0, 3.0, 9.0])), {}), (J + "searchsorted", (np.array([0.0, 1.0, 1.0, 3.0]), np.array([-1.0, 0.0, 1.0, 3.0])), {"side": "right"}),
    (J + "roll", (m, 1), {"axis": 1}), (J + "roll", (m, 2), {}), (J + "repeat", (x, 2), {}), (J + "repeat", (m, 2), {"axis": 0}), (J + "tile", (m, (2, 1)), {}), (J + "insert", (x, 1, 9.0), {}), (J + "insert", (m, 0, 9.0), {"axis": 1}), (J + "diff", (m,), {}), (J + "diff", (x,), {"n": 2}), (J + "cross", (q[0], q[1]), {}), (J + "cross", (q[:, :2], q[:, 1:]), {}),
    (J + "meshgrid", (x, k), {}), (J + "meshgrid", (x, k), {"indexing": "ij"}), (J + "tensordot", (m, q, 1), {}), (J + "tensordot", (q, q, 2), {}), (J + "einsum", ("ij,kj->ik", m, q), {}), (J + "einsum", ("ii", q), {}), (J + "kron", (m, q), {}), (J + "outer", (x, x), {}), (J + "inner", (m, q), {}), (J + "trace", (q,), {}), (J + "trace", (q, 1), {}), (J + "diagonal", (q, -1), {}),
    (J + "triu", (q,), {}), (J + "tril", (q, -1), {}), (J + "std", (m,), {"axis": 1}), (J + "var", (x,), {"ddof": 1}), (J + "argmax", (m,), {"axis": 1}), (J + "argmin", (x,), {}), (J + "clip", (x, 0.0, 2.5), {}), (J + "floor_divide", (x, 2.0), {}), (J + "mod", (x, 2.0), {}), (J + "remainder", (-x, 2.0), {}), (J + "sign", (x,), {}), (J + "round", (x,), {}),
    (J + "trapezoid", (x,), {}), (J + "trapezoid", (x, np.array([0.0, 1.0, 3.0, 4.0, 8.0])), {}), (J + "polyval", (np.array([1.0, 2.0, 3.0]), x), {}), (J + "heaviside", (x, 0.5), {}), (J + "moveaxis", (m, 0, 1), {}), (J + "ptp", (m,), {"axis": 0}), (J + "average", (m,), {"axis": 0, "weights": np.array([1.0, 3.0])}), (J + "cumprod", (m,), {"axis": 1}), (J + "array_split", (x, 2), {}), (J + "split", (m, 3), {"axis": 1}),
    (J + "linspace", (0.0, 1.0, 5), {}), (J + "linspace", (0.0, 1.0, 5), {"endpoint": False}), (J + "linspace", (np.array([0.0, 1.0]), np.array([1.0, 3.0]), 3), {}), (J + "linspace", (np.array([0.0, 1.0]), np.array([1.0, 3.0]), 3), {"axis": 1}), (J + "arange", (1, 7, 2), {}), (J + "arange", (0.0, 1.0, 0.25), {}), (J + "atleast_2d", (x,), {}), (J + "hypot", (3.0, 4.0), {}), (J + "arctan2", (x, -x), {}), (J + "sinc", (x,), {}),
    (J + "nanmin", (m,), {}), (J + "count_nonzero", (i3,), {}), (J + "append", (x, 5.0), {}), (J + "append", (m, m), {"axis": 0}), (J + "column_stack", ((x, x),), {}), (J + "hstack", ((x, x),), {}), (J + "vstack", ((x, x),), {}), (J + "take", (m, k), {"axis": 1}), (J + "take", (x, k), {}), (J + "flip", (m,), {"axis": 1}), (J + "expand_dims", (m, (0, 2)), {}), (J + "squeeze", (m[None],), {}), (J + "broadcast_to", (x, (2, 5)), {}),
    (J + "permute_dims", (m, (1, 0)), {}), (J + "swapaxes", (m, 0, 1), {}), (J + "diag", (x, 1), {}), (J + "diag", (q,), {}), (J + "eye", (3,), {"k": 1}), (J + "full_like", (m, 3.0), {}), (J + "logical_xor", (b, ~b), {}), (J + "isclose", (x, x + 1e-7), {}), (J + "dot", (m, q), {}), (J + "vdot", (q, q), {}), (J + "vecdot", (m, m), {}), (J + "matmul", (m, q), {}), (N + "solve", (q, np.array([1.0, 2.0, 3.0])), {}),
]

bad = 0
for name, args, kw in CASES:
    mod, fn = name.rsplit(".", 1)
    real = getattr({"jax.numpy": jnp, "jax.lax": jax.lax, "jax.numpy.linalg": jnp.linalg}[mod], fn)
    dev = lambda v: jnp.asarray(v) if isinstance(v, np.ndarray) else type(v)(dev(t) for t in v) if isinstance(v, (list, tuple)) else v
    try:
        want = real(*[dev(a) for a in args], **{n: dev(v) for n, v in kw.items()})
    except Exception as e:
        print("REAL", name, type(e).__name__, str(e)[:80])
        continue
    try:
        got = I.call(lm.tables()[mod][fn], [to(a) for a in args], {n: to(v) for n, v in kw.items()})
    except Exception as e:
        print("MODEL", name, [getattr(a, "shape", a) for a in args], kw, type(e).__name__, str(e)[:90])
        bad += 1
        continue
    want = [np.asarray(w) for w in want] if isinstance(want, (list, tuple)) else [np.asarray(want)]
    got = fro(got)
    got = got if isinstance(got, list) else [got]
    ok = len(want) == len(got) and all(w.shape == np.shape(g) and np.allclose(w.astype(float), g, rtol=1e-4, atol=1e-5, equal_nan=True) for w, g in zip(want, got))
    if not ok:
        bad += 1
        print("DIFF", name, [getattr(a, "shape", a) for a in args], kw, "\n   got ", got, "\n   want", want)
print(len(CASES), "cases,", bad, "bad")
