"""models of further numpy / lax routines: rearrangements of entries, order statistics, element functions"""
from __future__ import annotations
from fractions import Fraction
import itertools
import numpy as np

from . import terms as tm
from .terms import T, const
from .values import *
from . import lib_arr as la
from . import lib_jax as lj

A = as_arr


def conc(I, x, what="index"):
    """concrete numpy integers / booleans"""
    a = A(x)
    out = np.empty(a.shape, dtype=bool if a.kind == "b" else int)
    for i in np.ndindex(*a.shape):
        t = a.a[i]
        if a.kind == "b":
            if t.op != "b":
                raise Unsupported(f"symbolic {what}")
            out[i] = t.data
        else:
            if t.op != "c" or t.data.denominator != 1:
                raise Unsupported(f"symbolic {what}")
            out[i] = int(t.data)
    return out


def npi(x):
    """concrete numpy integers / booleans -> Arr"""
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = const(bool(x[i]) if x.dtype == bool else int(x[i]))
    return Arr(la.box(out), "b" if x.dtype == bool else "i")


def par(I, v):
    """parameter of a numpy routine: whole numbers, None, tuples of them"""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, (tuple, list)):
        return type(v)(par(I, x) for x in v)
    if isinstance(v, slice):
        return slice(par(I, v.start), par(I, v.stop), par(I, v.step))
    c = conc(I, v)
    return c if c.ndim else int(c)


def move(name):
    """routine that only rearranges the entries of its first argument"""
    f = getattr(np, name)

    def run(I, a, *args, **kw):
        a = A(a)
        try:
            r = f(a.a, *[par(I, x) for x in args], **{k: par(I, v) for k, v in kw.items()})
        except (ValueError, IndexError, TypeError) as e:
            pyraise(type(e).__name__, str(e))
        if isinstance(r, (list, tuple)):
            return [Arr(la.box(np.asarray(x, dtype=object)), a.kind) for x in r]
        return Arr(la.box(r), a.kind)

    return run


def ints_of(name):
    f = getattr(np, name)

    def run(I, *args, **kw):
        try:
            r = f(*[par(I, x) for x in args], **{k: par(I, v) for k, v in kw.items() if k not in ("dtype", "size")})
        except (ValueError, IndexError, TypeError) as e:
            pyraise(type(e).__name__, str(e))
        if isinstance(r, tuple):
            return tuple(npi(x) for x in r)
        return npi(r)

    return run


def delete(I, arr, obj, axis=None, **kw):
    a = A(arr)
    if axis is None:
        a, axis = Arr(a.a.reshape(-1), a.kind), 0
    axis = I.int_(axis)
    if isinstance(obj, (Arr, T)) and not isinstance(obj, slice):
        o = A(obj)
        if o.ndim == 0 and o.item().op != "c":
            # entries before the index stay, the ones behind move up
            n = a.shape[axis]
            i = o.item()
            i = tm.sel(tm.lt(i, tm.ZERO), tm.add(i, const(n)), i)
            m = np.moveaxis(a.a, axis, 0)
            rows = [la.merge_np(tm.lt(const(k), i), m[k], m[k + 1]) for k in range(n - 1)]
            return Arr(np.moveaxis(np.stack(rows), 0, axis), a.kind)
    return move("delete")(I, a, obj, axis)


def pad(I, array, pad_width, mode="constant", constant_values=0, **kw):
    a = A(array)
    w = par(I, pad_width)
    if mode != "constant":
        return move("pad")(I, a, w, mode=mode)
    ids = np.arange(a.size).reshape(a.shape)
    try:
        p = np.pad(ids, w, constant_values=-1)
    except ValueError as e:
        pyraise("ValueError", str(e))
    cv = A(constant_values)
    if cv.ndim:
        raise Unsupported("pad values")
    flat, v = a.flat(), la.cast(cv, a.dtype).item() if a.kind != "f" else tm.as_num(cv.item())
    out = np.empty(p.shape, dtype=object)
    for i in np.ndindex(*p.shape):
        out[i] = v if p[i] < 0 else flat[p[i]]
    return Arr(la.box(out), a.kind)


# ---------------------------------------------------------------- order statistics
def order(xs, limit=6):
    """positions in ascending order, or None when the order depends on the inputs"""
    idx = []
    for k, x in enumerate(xs):
        lo = len(idx)
        # stable insertion
        for j in range(len(idx) - 1, -1, -1):
            c = tm.lt(tm.as_num(x), tm.as_num(xs[idx[j]]))
            if c is tm.TRUE:
                lo = j
            elif c is tm.FALSE:
                break
            else:
                return None
        idx.insert(lo, k)
    return idx


def sort_list(xs):
    o = order(xs)
    if o is not None:
        return [xs[k] for k in o]
    if len(xs) > 6:
        raise Unsupported("sorting values of unknown order")
    xs = [tm.as_num(x) for x in xs]
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            p, q = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = tm.tmin(p, q), tm.tmax(p, q)
    return xs


def along(I, a, axis, f, kind=None):
    a = A(a)
    if axis is None:
        m = a.a.reshape(1, -1)
        return Arr(la.box(np.array(f(list(m[0])) + [None], dtype=object)[:-1]), kind or a.kind)
    axis = I.int_(axis)
    m = np.moveaxis(a.a, axis, -1)
    rows = {i: f(list(m[i])) for i in np.ndindex(*m.shape[:-1])}
    n = len(next(iter(rows.values()))) if rows else 0
    out = np.empty(m.shape[:-1] + (n,), dtype=object)
    for i, r in rows.items():
        for k, v in enumerate(r):
            out[i + (k,)] = v
    return Arr(np.moveaxis(out, -1, axis), kind or a.kind)


def sort(I, a, axis=-1, kind=None, order=None, stable=True, descending=False):
    return along(I, a, axis, (lambda xs: sort_list(xs)[::-1]) if descending else sort_list)


def argsort(I, a, axis=-1, kind=None, order=None, stable=True, descending=False):
    def f(xs):
        o = globals()["order"](xs if not descending else [tm.neg(tm.as_num(x)) for x in xs])
        if o is None:
            raise Unsupported("order of unknown values")
        return [const(k) for k in o]

    return along(I, a, axis, f, "i")


def quantile_(I, a, q, axis, keepdims):
    q = A(q)
    if q.ndim:
        return la.stack(I, [quantile_(I, a, Arr(la.box(q.a[i]), q.kind), axis, keepdims) for i in range(q.shape[0])])
    t = q.item()
    if t.op != "c":
        raise Unsupported("symbolic quantile")

    def f(xs):
        s = sort_list(list(xs))
        p = t.data * (len(s) - 1)
        k = min(int(p), len(s) - 1)
        w = p - k
        return s[k] if not w else tm.add(tm.mul(const(1 - w), tm.as_num(s[k])), tm.mul(const(w), tm.as_num(s[k + 1])))

    return la.reduce_(I, A(a), axis, keepdims, f, "f")


def quantile(I, a, q, axis=None, keepdims=False, method="linear", **kw):
    if method != "linear":
        raise Unsupported("quantile method")
    return quantile_(I, a, q, axis, keepdims)


def percentile(I, a, q, axis=None, keepdims=False, method="linear", **kw):
    return quantile(I, a, la.arr_binop(I, "Div", A(q), A(100)), axis, keepdims, method)


def median(I, a, axis=None, keepdims=False, **kw):
    return quantile_(I, a, Fraction(1, 2), axis, keepdims)


def unique(I, ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if axis is not None or return_index or return_inverse or return_counts or kw.get("size") is not None:
        raise Unsupported("unique options")
    xs = A(ar).flat()
    for t in xs:
        I.converted(t)
    s = sort_list(xs) if order(xs) is not None else None
    if s is None:
        raise Unsupported("unique of unknown values")
    out = []
    for x in s:
        c = tm.eq(tm.as_num(out[-1]), tm.as_num(x)) if out else tm.FALSE
        if c is tm.FALSE:
            out.append(x)
        elif c is not tm.TRUE:
            raise Unsupported("unique of unknown values")
    return Arr(np.array(out + [None], dtype=object)[:-1], A(ar).kind)


def nonzero(I, a, size=None, **kw):
    if size is not None:
        raise Unsupported("nonzero(size)")
    b = la.cast(A(a), "b")
    for t in b.flat():
        I.converted(t)  # the number of entries depends on the values
    return tuple(npi(x) for x in np.nonzero(np.atleast_1d(conc(I, b, "condition"))))


def flatnonzero(I, a, **kw):
    return nonzero(I, Arr(A(a).a.reshape(-1), A(a).kind), **kw)[0]


def argwhere(I, a, **kw):
    return npi(np.argwhere(conc(I, la.cast(A(a), "b"), "condition")))


def compress(I, condition, a, axis=None, **kw):
    m = conc(I, la.cast(A(condition), "b"), "condition")
    a = A(a)
    return Arr(np.compress(m, a.a, None if axis is None else I.int_(axis)), a.kind)


def take_along_axis(I, arr, indices, axis=-1, **kw):
    a, ix = A(arr), A(indices)
    if axis is None:
        a, axis = Arr(a.a.reshape(-1), a.kind), 0
    axis = I.int_(axis) % a.ndim
    m, q = np.moveaxis(a.a, axis, -1), np.moveaxis(ix.a, axis, -1)
    sh = np.broadcast_shapes(m.shape[:-1], q.shape[:-1])
    m, q = np.broadcast_to(m, sh + m.shape[-1:]), np.broadcast_to(q, sh + q.shape[-1:])
    out = np.empty(q.shape, dtype=object)
    for i in np.ndindex(*q.shape):
        out[i] = la.arr_getitem(I, Arr(m[i[:-1]], a.kind), Arr(la.box(q[i]), "i")).item()
    return Arr(np.moveaxis(out, -1, axis), a.kind)


def fill_diagonal(I, a, val, wrap=False, inplace=True):
    if inplace:
        pyraise("NotImplementedError", "arrays are immutable, must pass inplace=False")
    a, v = A(a), la.cast(A(val), A(a).dtype)
    out = a.a.copy()
    n = min(a.shape)
    for k in range(n):
        out[(k,) * a.ndim] = v.a[k % v.shape[0]] if v.ndim else v.item()
    return Arr(out, a.kind)


def unstack(I, x, axis=0):
    x = A(x)
    m = np.moveaxis(x.a, I.int_(axis), 0)
    return tuple(Arr(la.box(m[k]), x.kind) for k in range(m.shape[0]))


def dstack(I, xs, **kw):
    def up(x):
        x = A(x)
        return Arr(np.atleast_3d(x.a), x.kind)

    return la.concatenate(I, [up(x) for x in I.iterate(xs)], 2)


def block(I, x):
    def depth(v):
        return 1 + max(map(depth, v)) if isinstance(v, list) else 0

    d = depth(x)
    nd = max([d] + [A(v).ndim for v in lj.flatten(I, x)[0]])

    def go(v, lev):
        if isinstance(v, list):
            return la.concatenate(I, [go(y, lev + 1) for y in v], lev - d)
        a = A(v)
        return Arr(a.a.reshape((1,) * (nd - a.ndim) + a.shape), a.kind)

    return go(x, 0)


def one_hot(I, x, num_classes, dtype=None, axis=-1):
    if axis != -1:
        raise Unsupported("one_hot axis")
    x, n = A(x), I.int_(num_classes)
    out = np.empty(x.shape + (n,), dtype=object)
    for i in np.ndindex(*x.shape):
        for k in range(n):
            out[i + (k,)] = tm.as_num(tm.eq(tm.as_num(x.a[i]), const(k)))
    return Arr(out, "f")


# ---------------------------------------------------------------- lax
def start(n, w, t):
    """start of a slice of width w in an axis of n entries: negative indices count from the end, then clamped"""
    if isinstance(t, Arr):
        t = t.item()
    t = tm.lift(t)
    t = tm.sel(tm.lt(t, tm.ZERO), tm.add(t, const(n)), t)
    return tm.tmin(tm.tmax(t, tm.ZERO), const(n - w))


def dynamic_slice(I, operand, start_indices, slice_sizes):
    a = A(operand)
    ws = [I.int_(x) for x in I.iterate(slice_sizes)]
    cur = a
    for ax, (s, w) in enumerate(zip(I.iterate(start_indices), ws)):
        s = start(cur.shape[ax], w, s)
        rows = [la.box(la.take_axis(cur.a, ax, int(q.data) if q.op == "c" else q)) for q in (tm.add(s, const(k)) for k in range(w))]
        cur = Arr(np.stack(rows, ax) if rows else cur.a.take([], ax), a.kind)
    return cur


def dynamic_slice_in_dim(I, operand, start_index, slice_size, axis=0):
    a = A(operand)
    axis = I.int_(axis) % a.ndim
    return dynamic_slice(I, a, [start_index if k == axis else 0 for k in range(a.ndim)], [slice_size if k == axis else a.shape[k] for k in range(a.ndim)])


def dynamic_index_in_dim(I, operand, index, axis=0, keepdims=True):
    r = dynamic_slice_in_dim(I, operand, index, 1, axis)
    return r if keepdims else Arr(la.box(r.a.squeeze(I.int_(axis))), r.kind)


def dynamic_update_slice(I, operand, update, start_indices):
    a, u = A(operand), A(update)
    ss = [start(n, w, s) for n, w, s in zip(a.shape, u.shape, I.iterate(start_indices))]
    if any(s.op != "c" for s in ss):
        raise Unsupported("update at a symbolic position")
    out = a.a.copy()
    out[tuple(slice(int(s.data), int(s.data) + w) for s, w in zip(ss, u.shape))] = u.a
    return Arr(out, a.kind)


def slice_in_dim(I, operand, start_index, limit_index, stride=1, axis=0):
    a = A(operand)
    k = [slice(None)] * a.ndim
    k[I.int_(axis)] = slice(par(I, start_index), par(I, limit_index), par(I, stride))
    return Arr(a.a[tuple(k)], a.kind)


def lax_slice(I, operand, start_indices, limit_indices, strides=None):
    a = A(operand)
    s, l, st = ([par(I, x) for x in I.iterate(v)] if v is not None else [None] * a.ndim for v in (start_indices, limit_indices, strides))
    return Arr(a.a[tuple(slice(*p) for p in zip(s, l, st))], a.kind)


# ---------------------------------------------------------------- element functions and sums
def interp(I, x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp(period)")
    xp, fp = [tm.as_num(t) for t in A(xp).flat()], [tm.as_num(t) for t in A(fp).flat()]
    lo, hi = (fp[0] if left is None else A(left).item()), (fp[-1] if right is None else A(right).item())

    def f(t):
        t = tm.as_num(t)
        r = tm.sel(tm.le(t, xp[-1]), fp[-1], hi)
        for k in reversed(range(len(xp) - 1)):
            w = tm.div(tm.sub(t, xp[k]), tm.sub(xp[k + 1], xp[k]))
            r = tm.sel(tm.lt(t, xp[k + 1]), tm.add(fp[k], tm.mul(w, tm.sub(fp[k + 1], fp[k]))), r)
        return tm.sel(tm.lt(t, xp[0]), lo, r)

    return ew(f, x, kind="f")


def convolve(I, a, v, mode="full", **kw):
    a, v = A(a).flat(), A(v).flat()
    full = [tm.add(*[tm.mul(tm.as_num(a[i]), tm.as_num(v[k - i])) for i in range(len(a)) if 0 <= k - i < len(v)]) for k in range(len(a) + len(v) - 1)]
    n, m = max(len(a), len(v)), min(len(a), len(v))
    if mode == "same":
        s = (m - 1) // 2
        full = full[s : s + n]
    elif mode == "valid":
        full = full[m - 1 : n]
    return A(full)


def gradient_1d(I, f, *dx, **kw):
    a = A(f)
    if a.ndim != 1 or len(dx) > 1 or kw:
        raise Unsupported("gradient")
    h = A(dx[0]).item() if dx and A(dx[0]).ndim == 0 else const(1) if not dx else None
    if h is None:
        raise Unsupported("gradient spacing")
    x, n = [tm.as_num(t) for t in a.flat()], a.shape[0]
    out = [tm.div(tm.sub(x[1], x[0]), h)] + [tm.div(tm.sub(x[k + 1], x[k - 1]), tm.mul(const(2), h)) for k in range(1, n - 1)] + [tm.div(tm.sub(x[-1], x[-2]), h)]
    return A(out)


def geomspace(I, start_, stop, num=50, endpoint=True, **kw):
    s, e, n = A(start_).item(), A(stop).item(), I.int_(num)
    d = (n - 1) if endpoint else n
    return A([tm.mul(s, tm.pw(tm.div(e, s), const(Fraction(k, d)))) if k else s for k in range(n)])


def logspace(I, start_, stop, num=50, endpoint=True, base=10, **kw):
    return ew(lambda t: tm.pw(tm.lift(base) if not isinstance(base, Arr) else base.item(), t), la.linspace(I, start_, stop, num, endpoint), kind="f")


def piecewise(I, x, condlist, funclist, *args, **kw):
    x = A(x)
    cs = [A(q) for q in I.iterate(condlist)] if isinstance(condlist, (list, tuple)) else [Arr(la.box(r), "b") for r in A(condlist).a]
    fs = list(I.iterate(funclist))
    default = fs.pop() if len(fs) == len(cs) + 1 else 0
    val = lambda f: A(I.call(f, [x, *args], kw)) if isinstance(f, (Func, Builtin, UFun, PartialV, Bound)) else A(f)
    r = val(default)
    for q, f in reversed(list(zip(cs, fs))):
        r = la.where(I, q, val(f), r)
    return la.cast(Arr(np.broadcast_to(r.a, x.shape).copy(), r.kind), x.dtype)


def divmod_(I, a, b):
    return la.arr_binop(I, "FloorDiv", A(a), A(b)), la.arr_binop(I, "Mod", A(a), A(b))


def modf(I, x):
    w = ew(lambda t: la.trunc(tm.as_num(t)), x, kind="f")
    return la.arr_binop(I, "Sub", A(x), w), w


def nan_reduce(f):
    from . import lib_mods as lm

    def run(I, a, axis=None, keepdims=False, **kw):
        a = A(a)
        if not any(lm.nan_cond(t) is not tm.FALSE for t in a.flat()):
            return f(I, a, axis=axis, keepdims=keepdims)
        raise Unsupported("reduction over values that may not be numbers")

    return run


def nanmean(I, a, axis=None, keepdims=False, **kw):
    from . import lib_mods as lm

    a = A(a)
    n = la.asum(I, ew(lambda t: tm.as_num(tm.not_(lm.nan_cond(t))), a, kind="f"), axis, keepdims=keepdims)
    return la.arr_binop(I, "Div", lm.nansum(I, a, axis, keepdims=keepdims), n)


def isin(I, element, test_elements, assume_unique=False, invert=False, **kw):
    ts = [tm.as_num(t) for t in A(test_elements).flat()]
    f = lambda x: tm.or_(*[tm.eq(tm.as_num(x), t) for t in ts])
    return ew((lambda x: tm.not_(f(x))) if invert else f, element, kind="b")


def setdiff1d(I, a, b, **kw):
    return npi(np.setdiff1d(conc(I, a), conc(I, b)))


def vander(I, x, N=None, increasing=False):
    x = A(x)
    n = x.shape[0] if N is None else I.int_(N)
    es = range(n) if increasing else range(n - 1, -1, -1)
    return Arr(np.array([[tm.pw(tm.as_num(t), const(e)) for e in es] for t in x.flat()], dtype=object), x.kind)


def matrix_power(I, a, n):
    n = I.int_(n)
    a = A(a)
    if n < 0:
        a, n = la.la_inv(I, a), -n
    r = la.eye(I, a.shape[-1])
    for _ in range(n):
        r = la.matmul(r, a)
    return r


def slogdet(I, a, **kw):
    d = la.la_det(I, a)
    return ew(tm.sign, d, kind="f"), ew(lambda t: tm.fn("log", tm.fabs(t)), d, kind="f")


def matvec(I, a, b, **kw):
    b = A(b)
    r = la.matmul(A(a), Arr(b.a[..., None], b.kind))
    return Arr(la.box(r.a[..., 0]), r.kind)


def el(f, kind="f"):
    return lambda I, x: ew(lambda t: f(tm.as_num(t)), x, kind=kind)


def log(t):
    return tm.fn("log", t)


def fixed(I, a, **kw):
    return ew(lambda t: la.trunc(tm.as_num(t)), a, kind="f")


def copysign(p, q):
    # the sign of zero is not tracked
    return tm.sel(tm.ge0(tm.as_num(q)), tm.fabs(tm.as_num(p)), tm.neg(tm.fabs(tm.as_num(p))))


one = tm.ONE
JNP = dict(
    delete=delete, pad=pad, sort=sort, argsort=argsort, median=median, quantile=quantile, percentile=percentile, nanmedian=median, unique=unique, nonzero=nonzero, flatnonzero=flatnonzero, argwhere=argwhere,
    compress=compress, extract=lambda I, c, a, **k: compress(I, Arr(A(c).a.reshape(-1), A(c).kind), Arr(A(a).a.reshape(-1), A(a).kind), 0), take_along_axis=take_along_axis, fill_diagonal=fill_diagonal, unstack=unstack, dstack=dstack, row_stack=la.vstack, block=block,
    fliplr=move("fliplr"), flipud=move("flipud"), rot90=move("rot90"), rollaxis=move("rollaxis"), resize=move("resize"), trim_zeros=None, hsplit=move("hsplit"), vsplit=move("vsplit"), dsplit=move("dsplit"),
    triu_indices=ints_of("triu_indices"), tril_indices=ints_of("tril_indices"), diag_indices=ints_of("diag_indices"), indices=ints_of("indices"), unravel_index=ints_of("unravel_index"), tri=lambda I, *a, **k: la.cast(ints_of("tri")(I, *a, **k), "f"),
    ix_=lambda I, *a: tuple(npi(x) for x in np.ix_(*[conc(I, v) for v in a])), interp=interp, convolve=convolve, gradient=gradient_1d, geomspace=geomspace, logspace=logspace, piecewise=piecewise, divmod=divmod_, modf=modf,
    nanmean=nanmean, nanmax=nan_reduce(la.amax), nanmin=nan_reduce(la.amin), nanprod=nan_reduce(la.aprod), isin=isin, setdiff1d=setdiff1d, vander=vander, digitize=None, cumulative_sum=lambda I, x, axis=None, **k: la.cumop(tm.add)(I, x, axis=axis),
    cumulative_prod=lambda I, x, axis=None, **k: la.cumop(tm.mul)(I, x, axis=axis), matvec=matvec, vecmat=lambda I, a, b, **k: matvec(I, Arr(np.swapaxes(A(b).a, -1, -2), A(b).kind), a),
    logaddexp=lambda I, a, b: ew(lambda p, q: log(tm.add(tm.fn("exp", tm.as_num(p)), tm.fn("exp", tm.as_num(q)))), a, b, kind="f"), arcsinh=el(lambda t: log(tm.add(t, tm.sqrt(tm.add(tm.mul(t, t), one))))), arccosh=el(lambda t: log(tm.add(t, tm.sqrt(tm.sub(tm.mul(t, t), one))))),
    arctanh=el(lambda t: tm.mul(const(Fraction(1, 2)), log(tm.div(tm.add(one, t), tm.sub(one, t))))), fix=fixed, signbit=el(lambda t: tm.not_(tm.ge0(t)), "b"), copysign=lambda I, a, b: ew(copysign, a, b, kind="f"), conj=lambda I, x: A(x), conjugate=lambda I, x: A(x), isreal=el(lambda t: tm.TRUE, "b"), isrealobj=lambda I, x: True,
    array_equiv=None, astype=lambda I, x, dt, **k: la.cast(A(x), la.dtype_of(I, dt)), ediff1d=lambda I, a, **k: la.diff(I, Arr(A(a).a.reshape(-1), A(a).kind)), float_power=lambda I, a, b: la.arr_binop(I, "Pow", la.cast(A(a), "f"), A(b)), diagflat=lambda I, v, k=0: la.diag(I, Arr(A(v).a.reshape(-1), A(v).kind), k),
)
JNP.update(asinh=JNP["arcsinh"], acosh=JNP["arccosh"], atanh=JNP["arctanh"])
JNP = {k: v for k, v in JNP.items() if v is not None}
LAX = dict(dynamic_slice=dynamic_slice, dynamic_slice_in_dim=dynamic_slice_in_dim, dynamic_index_in_dim=dynamic_index_in_dim, dynamic_update_slice=dynamic_update_slice, slice_in_dim=slice_in_dim, slice=lax_slice, sort=sort)
LINALG = dict(matrix_power=matrix_power, slogdet=slogdet)
