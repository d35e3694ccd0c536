"""Model of jax.numpy on arrays of terms."""
from __future__ import annotations
from fractions import Fraction
import math

import numpy as np

from . import terms as tm
from .terms import T, const, ZERO, ONE
from .values import *
from . import values as V

A = as_arr


def box(x):
    if isinstance(x, np.ndarray):
        return x
    b = np.empty((), dtype=object)
    b[()] = x
    return b


def full(shape, t, kind="f"):
    a = np.empty(shape, dtype=object)
    a.fill(t)
    return Arr(a, kind)


def floor(t):
    if t.op == "c":
        return const(math.floor(t.data))
    return tm.sub(t, tm.fn("frac", t))


def trunc(t):
    if t.op == "c":
        return const(int(t.data))
    if t.op == "sel":
        return tm.sel(t.args[0], trunc(t.args[1]), trunc(t.args[2]))
    return tm.sel(tm.ge0(t), floor(t), tm.neg(floor(tm.neg(t))))


def cast(a, dt):
    if dt is None:
        return a
    k = dt.kind if isinstance(dt, DType) else dt
    if k == a.kind:
        return a
    if k == "b":
        return ew(tm.as_bool, a, kind="b")
    if a.kind == "b":
        return ew(tm.as_num, a, kind=k)
    if k == "i" and a.kind == "f":
        return ew(trunc, a, kind="i")
    return Arr(a.a, k)


def dtype_of(I, d):
    """python-level dtype argument -> DType"""
    if isinstance(d, DType) and d.fixed or isinstance(d, str) and d in LOWNAMES:
        I.event("narrow", f"{d.name if isinstance(d, DType) else d}", tuple(s[1] for s in I.stack))
    if d is None or isinstance(d, DType):
        return d
    if isinstance(d, str) and d in LOWNAMES - set(LOW):
        return I32 if d.startswith("i") else F32
    if isinstance(d, Builtin):
        return {"type:float": F32, "type:int": I32, "type:bool": BOOL}.get(d.name)
    if isinstance(d, str):
        if d.startswith("float"):
            return F32
        if d.startswith(("int", "uint")):
            return I32
        if d.startswith("bool"):
            return BOOL
    if isinstance(d, Opaque):
        raise Unsupported("opaque dtype")
    raise Unsupported(f"dtype {d}")


# ------------------------------------------------------------------ binary ops
def arr_binop(I, op, a, b):
    for x in (a, b):
        if not isinstance(x, (Arr, T, int, Fraction)):
            if isinstance(x, (list, tuple)) and op in ("Mult", "Add", "Sub", "Div", "MatMult") or isinstance(x, (str, dict, Gen)) or x is None or isinstance(x, (Func, UFun, Builtin, Class)):
                pyraise("TypeError", f"unsupported operand type for {op}: {type(x).__name__}")
            raise Unsupported(f"{op} with {type(x).__name__}")
    x, y = A(a), A(b)
    if "k" in (x.kind, y.kind):
        pyraise("TypeError", "arithmetic on PRNG keys")
    if op == "MatMult":
        return matmul(x, y)
    k = pkind(x.kind, y.kind)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if k == "b":
            f = {"BitAnd": tm.and_, "BitOr": tm.or_, "BitXor": lambda p, q: tm.not_(tm.eq(p, q))}[op]
            return ew(f, x, y, kind="b")
        if k == "i":
            return ew(lambda p, q: _cint(op, p, q), x, y)
        pyraise("TypeError", "bitwise operation on floats")
    n = tm.as_num
    if op in ("Add", "Sub", "Mult"):
        f = {"Add": tm.add, "Sub": tm.sub, "Mult": tm.mul}[op]
        if k == "b":
            if op == "Add":
                return ew(tm.or_, x, y, kind="b")
            if op == "Mult":
                return ew(tm.and_, x, y, kind="b")
            pyraise("TypeError", "boolean subtract")
        if k == "i":
            return ew(lambda p, q: dist_int(f, n(p), n(q)), x, y, kind="i")
        return ew(lambda p, q: f(n(p), n(q)), x, y, kind=k)
    if op == "Div":
        def quot(p, q):
            p, q = n(p), n(q)
            if q is ZERO or (q.op != "c" and not tm.is_pos(q)):
                I.event("div", q, p)
            return tm.div(p, q)

        return ew(quot, x, y, kind="f")
    if op == "Pow":
        if k == "b":
            k = "i"
        if k == "i":
            return ew(lambda p, q: dist_int(tm.pw, n(p), n(q)), x, y, kind="i")

        def power(p, q):
            q = n(q)
            if q.op == "c" and q.data.denominator != 1:
                I.event("sqrt", n(p))
            return tm.pw(n(p), q)

        return ew(power, x, y, kind="f")
    if op == "Mod":
        if k in "ib":
            return ew(lambda p, q: dist_int(tm.mod, n(p), n(q)), x, y, kind="i")
        return ew(lambda p, q: tm.mod(n(p), n(q)), x, y, kind="f")
    if op == "FloorDiv":
        g = lambda p, q: floor(tm.div(p, q))
        if k in "ib":
            return ew(lambda p, q: dist_int(g, n(p), n(q)), x, y, kind="i")
        return ew(lambda p, q: g(n(p), n(q)), x, y, kind="f")
    raise Unsupported(f"array {op}")


def _cint(op, p, q):
    if p.op == "c" and q.op == "c":
        a, b = int(p.data), int(q.data)
        return const({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op])
    raise Unsupported("symbolic integer bit operation")


CMP = {
    "Eq": tm.eq,
    "NotEq": lambda p, q: tm.not_(tm.eq(p, q)),
    "Lt": tm.lt,
    "LtE": tm.le,
    "Gt": lambda p, q: tm.lt(q, p),
    "GtE": lambda p, q: tm.le(q, p),
}


def arr_compare(I, op, a, b):
    for x in (a, b):
        if isinstance(x, (str, dict, Gen, type(None))):
            if op in ("Eq", "NotEq"):
                return op == "NotEq"
            pyraise("TypeError", "comparison")
        if isinstance(x, (list, tuple)):
            pass
    x, y = A(a), A(b)
    f = CMP[op]
    if op in ("Eq", "NotEq"):
        g = f
    else:
        g = lambda p, q: f(tm.as_num(p), tm.as_num(q))
    if x.kind in "ib" and y.kind in "ib":
        return ew(lambda p, q: dist_int(g, tm.as_num(p), tm.as_num(q)), x, y, kind="b")
    return ew(g, x, y, kind="b")


def matmul(x, y):
    x, y = A(x), A(y)
    if x.ndim == 0 or y.ndim == 0:
        pyraise("ValueError", "matmul: input operand does not have enough dimensions")
    a, b = x.a, y.a
    sa, sb = a.ndim == 1, b.ndim == 1
    if sa:
        a = a[None, :]
    if sb:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        pyraise("TypeError", f"matmul: dimension mismatch {x.shape} @ {y.shape}")
    try:
        batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    except ValueError:
        pyraise("TypeError", "matmul batch mismatch")
    a = np.broadcast_to(a, batch + a.shape[-2:])
    b = np.broadcast_to(b, batch + b.shape[-2:])
    out = np.empty(batch + (a.shape[-2], b.shape[-1]), dtype=object)
    for idx in np.ndindex(*out.shape):
        bi, i, j = idx[:-2], idx[-2], idx[-1]
        out[idx] = tm.add(*[tm.mul(tm.as_num(a[bi + (i, k)]), tm.as_num(b[bi + (k, j)])) for k in range(a.shape[-1])]) if a.shape[-1] else ZERO
    if sb:
        out = out[..., 0]
    if sa:
        out = out[..., 0, :] if not sb else out[..., 0]
    return Arr(box(out), pkind(x.kind, y.kind, "i"))


def tensordot(x, y, axes=2):
    x, y = A(x), A(y)
    if isinstance(axes, int):
        n = axes
        ax, ay = list(range(x.ndim - n, x.ndim)), list(range(n))
    else:
        ax, ay = axes
        ax = [ax] if isinstance(ax, int) else [int(i) for i in ax]
        ay = [ay] if isinstance(ay, int) else [int(i) for i in ay]
        ax = [i % x.ndim for i in ax]
        ay = [i % y.ndim for i in ay]
    if len(ax) > x.ndim or len(ay) > y.ndim or any(i < 0 for i in ax) or [x.shape[i] for i in ax] != [y.shape[i] for i in ay]:
        pyraise("TypeError", f"tensordot shape mismatch {x.shape} {y.shape} axes={axes}")
    fx = [i for i in range(x.ndim) if i not in ax]
    fy = [i for i in range(y.ndim) if i not in ay]
    a = x.a.transpose(fx + ax).reshape([x.shape[i] for i in fx] + [-1]) if x.ndim else x.a.reshape(-1)
    b = y.a.transpose(ay + fy)
    b = b.reshape([int(np.prod([y.shape[i] for i in ay], dtype=int))] + [y.shape[i] for i in fy])
    out = np.empty([x.shape[i] for i in fx] + [y.shape[i] for i in fy], dtype=object)
    nf = len(fx)
    for idx in np.ndindex(*out.shape):
        i, j = idx[:nf], idx[nf:]
        out[idx] = tm.add(*[tm.mul(tm.as_num(a[i + (k,)]), tm.as_num(b[(k,) + j])) for k in range(b.shape[0])]) if b.shape[0] else ZERO
    return Arr(box(out), pkind(x.kind, y.kind, "i"))


def einsum(I, spec, *ops, **kw):
    ops = [A(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = ins.replace(",", "").replace(".", "")
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        if "..." in ins:
            out = "..." + out
    ins = ins.split(",")
    if len(ins) != len(ops):
        pyraise("ValueError", "einsum operands")
    # expand ellipsis
    ell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            ell = max(ell, o.ndim - len(s.replace("...", "")))
    el = "".join(chr(0x391 + i) for i in range(ell))
    new = []
    for s, o in zip(ins, ops):
        if "..." in s:
            n = o.ndim - len(s.replace("...", ""))
            s = s.replace("...", el[ell - n :])
        if len(s) != o.ndim:
            pyraise("ValueError", "einsum dimension")
        new.append(s)
    out = out.replace("...", el)
    dims = {}
    for s, o in zip(new, ops):
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n and n != 1 and dims[c] != 1:
                pyraise("ValueError", "einsum size mismatch")
            dims[c] = max(dims[c], n)
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for idx in np.ndindex(*res.shape):
        env = dict(zip(out, idx))
        terms = []
        for k in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, k))
            terms.append(tm.mul(*[tm.as_num(o.a[tuple(min(env[c], o.shape[q] - 1) for q, c in enumerate(s))]) for s, o in zip(new, ops)]))
        res[idx] = tm.add(*terms)
    return Arr(box(res), pkind("i", *[o.kind for o in ops]))


# ------------------------------------------------------------------ indexing
def norm_index(I, a, k):
    """-> list of index items (int/T/slice/None/Arr-int), ellipsis expanded"""
    ks = list(k) if isinstance(k, tuple) else [k]
    out = []
    for x in ks:
        if isinstance(x, list):
            pyraise("TypeError", "using a non-tuple sequence for indexing is not allowed")
        if isinstance(x, tuple):
            x = A(x)
        if isinstance(x, Opaque):
            raise Unsupported("opaque index")
        if isinstance(x, (Fraction, str)):
            pyraise("TypeError", "indexer must have integer or boolean type")
        if isinstance(x, Arr):
            if x.kind == "f":
                pyraise("TypeError", "indexer must have integer or boolean type")
            if x.kind == "b":
                if all(t.op == "b" for t in x.flat()) and x.ndim >= 1:
                    m = np.array([t.data for t in x.flat()], dtype=bool).reshape(x.shape)
                    for q in np.nonzero(m):
                        out.append(A([int(v) for v in q]) if len(q) else Arr(np.empty((0,), dtype=object), "i"))
                    continue
                raise Unsupported("symbolic boolean mask")
            if x.ndim == 0:
                x = x.item()
        if isinstance(x, T):
            if x.op == "c" and x.data.denominator == 1:
                x = int(x.data)
        out.append(x)
    if any(x is Ellipsis for x in out):
        i = next(j for j, x in enumerate(out) if x is Ellipsis)
        used = sum(1 for x in out if x is not None and x is not Ellipsis)
        n = a.ndim - used
        if n < 0:
            pyraise("IndexError", "too many indices for array")
        out = out[:i] + [slice(None)] * n + out[i + 1 :]
    used = sum(1 for x in out if x is not None)
    if used > a.ndim:
        pyraise("IndexError", f"too many indices for array: {a.ndim}-dimensional, {used} indexed")
    res = []
    for x in out:
        if isinstance(x, slice):
            f = lambda v: None if v is None else I.int_(v)
            x = slice(f(x.start), f(x.stop), f(x.step))
        res.append(x)
    return res


def clamp(i, n):
    if i < 0:
        i += n
    return max(0, min(i, n - 1))


def merge_np(c, x, y):
    x, y = box(x), box(y)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = tm.sel(c, x[i], y[i])
    return out


def take_axis(a, axis, t):
    """a: np object array; t: int or T; select along axis (axis removed), clamping"""
    n = a.shape[axis]
    if n == 0:
        pyraise("IndexError", "index into empty axis")
    if isinstance(t, int):
        return np.take(a, clamp(t, n), axis=axis)
    try:
        return lift_index(t, lambda i: box(np.take(a, clamp(i, n), axis=axis)), merge_np)
    except Unsupported:
        m = np.moveaxis(a, axis, 0)
        out = np.empty(m.shape[1:], dtype=object)
        for i in np.ndindex(*out.shape):
            el = tuple(m[(k,) + i] for k in range(n))
            if any(tm.is_bool(e) or tm.is_key(e) for e in el):
                raise
            out[i] = tm.ufun("@gather", (n,), (t,) + el)
        return out


def arr_getitem(I, a, k):
    for x in k if isinstance(k, tuple) else (k,):
        if isinstance(x, Arr) and x.kind == "b" and x.ndim:
            for t in x.flat():
                I.converted(t)  # the shape of the result depends on the mask
    idx = norm_index(I, a, k)
    adv = [i for i, x in enumerate(idx) if isinstance(x, Arr)]
    if not adv:
        # ints, T, slices, None
        cur = a.a
        ax = 0
        for x in idx:
            if x is None:
                cur = np.expand_dims(cur, ax)
                ax += 1
            elif isinstance(x, slice):
                cur = cur[(slice(None),) * ax + (x,)]
                ax += 1
            elif isinstance(x, (int, T)):
                cur = box(take_axis(cur, ax, int(x) if isinstance(x, bool) else x))
            else:
                raise Unsupported("index")
        return Arr(box(cur), a.kind)
    # advanced: broadcast all integer arrays (scalars too when mixed)
    try:
        bs = np.broadcast_arrays(*[idx[i].a for i in adv])
    except ValueError:
        pyraise("IndexError", "shape mismatch of index arrays")
    S = bs[0].shape
    advpos = [i for i, x in enumerate(idx) if isinstance(x, (Arr, int, T)) and not isinstance(x, bool)]
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    pos = sum(1 for x in idx[: advpos[0]] if not isinstance(x, (Arr, int, T))) if contiguous else 0
    rows = []
    for s in np.ndindex(*S):
        sub = list(idx)
        for q, i in enumerate(adv):
            t = bs[q][s]
            sub[i] = int(t.data) if t.op == "c" else t
        rows.append(arr_getitem(I, a, tuple(sub)).a)
    if not rows:
        # empty index array
        probe = list(idx)
        for i in adv:
            probe[i] = 0
        R = arr_getitem(I, a, tuple(probe)).a.shape
        return Arr(np.empty(R[:pos] + S + R[pos:], dtype=object), a.kind)
    R = rows[0].shape
    out = np.empty(S + R, dtype=object)
    for s, r in zip(np.ndindex(*S), rows):
        out[s] = r if r.shape else r[()]
    if pos:
        out = np.moveaxis(out, list(range(len(S))), list(range(pos, pos + len(S))))
    return Arr(out, a.kind)


def at_update(I, a, k, v, f):
    """functional update; f(old, new) -> term"""
    idx = norm_index(I, a, k)
    for i, x in enumerate(idx):
        if isinstance(x, T) or isinstance(x, Arr) and any(t.op != "c" for t in x.flat()):
            if isinstance(x, Arr):
                raise Unsupported("symbolic scatter")

            def g(j, i=i):
                n = [y for y in idx]
                n[i] = j
                return at_update(I, a, tuple(n), v, f).a

            return Arr(lift_index(x, g, merge_np), a.kind)
    ids = np.arange(a.size).reshape(a.shape)
    npidx = []
    ax = 0
    for x in idx:
        if isinstance(x, Arr):
            npidx.append(np.array([int(t.data) for t in x.flat()], dtype=int).reshape(x.shape))
        else:
            npidx.append(int(x) if isinstance(x, bool) else x)
    for q, x in enumerate(npidx):
        if isinstance(x, int):
            axn = sum(1 for y in npidx[:q] if y is not None)
            n = a.shape[axn]
            if x >= n or x < -n:
                return a  # out-of-bounds updates are dropped
    try:
        sel = ids[tuple(npidx)]
    except IndexError:
        raise Unsupported("scatter index")
    v = A(v)
    v = cast(v, a.dtype) if a.kind != "k" else v
    try:
        vb = np.broadcast_to(v.a, sel.shape)
    except ValueError:
        pyraise("ValueError", f"incompatible shapes for update {v.shape} -> {sel.shape}")
    out = a.a.reshape(-1).copy()
    for i in np.ndindex(*np.shape(sel)):
        j = int(sel[i]) if np.shape(sel) else int(sel)
        out[j] = f(out[j], vb[i] if vb.shape else vb[()])
    return Arr(out.reshape(a.shape), a.kind)


# ---------------------------------------------------------------- reductions
def axes_of(I, axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        ax = tuple(I.int_(x) for x in axis)
    else:
        ax = (I.int_(axis),)
    out = []
    for x in ax:
        if x < -ndim or x >= ndim:
            pyraise("ValueError", f"axis {x} is out of bounds for array of dimension {ndim}")
        out.append(x % ndim)
    return tuple(out)


def reduce_(I, a, axis, keepdims, f, kind=None):
    a = A(a)
    ax = axes_of(I, axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in ax]
    m = a.a.transpose(rest + list(ax)).reshape([a.shape[i] for i in rest] + [-1]) if a.ndim else a.a.reshape(-1)
    if a.size == 0:
        m = np.empty([a.shape[i] for i in rest] + [0], dtype=object)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(list(m[i]))
    if keepdims:
        out = out.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    return Arr(box(out), kind or a.kind)


def asum(I, a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = A(a)
    n = tm.as_num
    return reduce_(I, a, axis, keepdims, lambda xs: rounded(I, "sum", tm.add(*map(n, xs)), len(xs), a.kind) if xs else ZERO, "i" if a.kind == "b" else a.kind)


def rounded(I, how, t, n, kind):
    """with I.rounding set, the floating-point value of a sum of three or more numbers: the exact value times 1 + delta; the
    order of summation, hence delta, may differ between a reduction and a running sum"""
    if not getattr(I, "rounding", None) or n < 3 or kind != "f":
        return t
    d = tm.sym(f"delta_{how}_{t.id}", const(-I.rounding).data, const(I.rounding).data)
    I.deltas.setdefault(d, None)
    return tm.mul(t, tm.add(ONE, d))


def aprod(I, a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = A(a)
    n = tm.as_num
    return reduce_(I, a, axis, keepdims, lambda xs: tm.mul(*map(n, xs)) if xs else ONE, "i" if a.kind == "b" else a.kind)


def amean(I, a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = A(a)
    n = tm.as_num
    return reduce_(I, a, axis, keepdims, lambda xs: tm.div(tm.add(*map(n, xs)), const(len(xs))), "f")


def _fold(f):
    def g(xs):
        if not xs:
            pyraise("ValueError", "zero-size array reduction")
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    return g


def amin(I, a, axis=None, out=None, keepdims=False, **kw):
    return reduce_(I, a, axis, keepdims, _fold(lambda p, q: tm.tmin(tm.as_num(p), tm.as_num(q))))


def amax(I, a, axis=None, out=None, keepdims=False, **kw):
    return reduce_(I, a, axis, keepdims, _fold(lambda p, q: tm.tmax(tm.as_num(p), tm.as_num(q))))


def aall(I, a, axis=None, out=None, keepdims=False, **kw):
    return reduce_(I, a, axis, keepdims, lambda xs: tm.and_(*map(tm.as_bool, xs)), "b")


def aany(I, a, axis=None, out=None, keepdims=False, **kw):
    return reduce_(I, a, axis, keepdims, lambda xs: tm.or_(*map(tm.as_bool, xs)), "b")


def argmax(I, a, axis=None, out=None, keepdims=False, best=None):
    a = A(a)

    def f(xs):
        if all(tm.is_bool(x) for x in xs):
            xs2 = xs if best is None else [tm.not_(x) for x in xs]
            r = ZERO
            for i in range(len(xs) - 1, -1, -1):
                r = tm.sel(xs2[i], const(i), r)
            return r
        idx, cur = ZERO, tm.as_num(xs[0])
        for i, x in enumerate(xs[1:], 1):
            x = tm.as_num(x)
            c = tm.lt(cur, x) if best is None else tm.lt(x, cur)
            idx, cur = tm.sel(c, const(i), idx), tm.sel(c, x, cur)
        return idx

    return reduce_(I, a, axis, keepdims, f, "i")


def argmin(I, a, axis=None, out=None, keepdims=False):
    return argmax(I, a, axis, out, keepdims, best="min")


def cumop(f):
    def g(I, a, axis=None, dtype=None, out=None):
        a = A(a)
        m = a.a
        if axis is None:
            m = m.reshape(-1)
            axis = 0
        axis = axes_of(I, axis, m.ndim)[0]
        m = np.moveaxis(m, axis, -1)
        res = np.empty(m.shape, dtype=object)
        for i in np.ndindex(*m.shape[:-1]):
            acc = None
            for j in range(m.shape[-1]):
                x = tm.as_num(m[i + (j,)])
                acc = x if acc is None else f(acc, x)
                res[i + (j,)] = rounded(I, "running", acc, j + 1, a.kind) if f is tm.add else acc
        return Arr(np.moveaxis(res, -1, axis), "i" if a.kind == "b" else a.kind)

    return g


cumsum = cumop(tm.add)
cumprod = cumop(tm.mul)


def sq(t):
    return tm.mul(t, t)


def sqrt_t(I, t):
    I.event("sqrt", t)
    return tm.sqrt(t)


def norm(I, x, ord=None, axis=None, keepdims=False):
    x = A(x)
    if axis is None and x.ndim != 1 and ord is not None and not (x.ndim == 0):
        raise Unsupported("matrix norm")
    if x.ndim == 0 and axis is None:
        return ew(tm.fabs, x, kind="f") if True else x
    if isinstance(axis, (tuple, list)) and len(axis) > 1 and ord is not None:
        raise Unsupported("matrix norm")
    if ord is None or ord == 2 or ord == "fro":
        if isinstance(ord, str):
            pass

        return reduce_(I, x, axis, keepdims, lambda xs: sqrt_t(I, tm.add(*[sq(tm.as_num(v)) for v in xs])), "f")
    if isinstance(ord, T) and ord is tm.INF:
        return reduce_(I, x, axis, keepdims, lambda xs: _fold(tm.tmax)([tm.fabs(tm.as_num(v)) for v in xs]), "f")
    if ord == 1:
        return reduce_(I, x, axis, keepdims, lambda xs: tm.add(*[tm.fabs(tm.as_num(v)) for v in xs]), "f")
    if isinstance(ord, (int, Fraction)) and ord > 0:
        return reduce_(I, x, axis, keepdims, lambda xs: tm.pw(tm.add(*[tm.pw(tm.fabs(tm.as_num(v)), const(ord)) for v in xs]), const(Fraction(1) / Fraction(ord))), "f")
    raise Unsupported("norm order")


def cross(I, a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = A(a), A(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    x = np.moveaxis(a.a, axisa, -1)
    y = np.moveaxis(b.a, axisb, -1)
    if x.shape[-1] not in (2, 3) or y.shape[-1] not in (2, 3):
        pyraise("ValueError", "both input arrays must be (arrays of) 2- or 3-dimensional vectors")
    try:
        bs = np.broadcast_shapes(x.shape[:-1], y.shape[:-1])
    except ValueError:
        pyraise("TypeError", "cross: incompatible shapes")
    n3 = x.shape[-1] == 3 or y.shape[-1] == 3
    x = np.broadcast_to(x, bs + x.shape[-1:])
    y = np.broadcast_to(y, bs + y.shape[-1:])
    out = np.empty(bs + ((3,) if n3 else ()), dtype=object)
    for i in np.ndindex(*bs):
        p = [tm.as_num(t) for t in x[i]] + [ZERO]
        q = [tm.as_num(t) for t in y[i]] + [ZERO]
        z = tm.sub(tm.mul(p[0], q[1]), tm.mul(p[1], q[0]))
        if n3:
            out[i + (0,)] = tm.sub(tm.mul(p[1], q[2]), tm.mul(p[2], q[1]))
            out[i + (1,)] = tm.sub(tm.mul(p[2], q[0]), tm.mul(p[0], q[2]))
            out[i + (2,)] = z
        else:
            out[i] = z
    if n3:
        out = np.moveaxis(out, -1, axisc)
    return Arr(box(out), pkind(a.kind, b.kind))


def det_np(m):
    n = m.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return m[0, 0]
    if n > 5:
        raise Unsupported("large determinant")
    r = ZERO
    for j in range(n):
        if m[0, j] is ZERO:
            continue
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = tm.mul(m[0, j], det_np(minor))
        r = tm.add(r, t) if j % 2 == 0 else tm.sub(r, t)
    return r


def solve_np(m, b):
    """solve m x = b by elimination on terms (pivot must not be the zero term)"""
    n = m.shape[0]
    m = m.copy()
    b = b.copy()
    for c in range(n):
        p = None
        for r in range(c, n):
            if m[r, c].op == "c" and m[r, c].data != 0:
                p = r
                break
        if p is None:
            for r in range(c, n):
                if m[r, c] is not ZERO:
                    p = r
                    break
        if p is None:
            raise Unsupported("singular system")
        if p != c:
            m[[c, p]] = m[[p, c]]
            b[[c, p]] = b[[p, c]]
        for r in range(n):
            if r != c and m[r, c] is not ZERO:
                f = tm.div(m[r, c], m[c, c])
                for k in range(c, n):
                    m[r, k] = tm.sub(m[r, k], tm.mul(f, m[c, k]))
                for k in range(b.shape[1]):
                    b[r, k] = tm.sub(b[r, k], tm.mul(f, b[c, k]))
    for r in range(n):
        for k in range(b.shape[1]):
            b[r, k] = tm.div(b[r, k], m[r, r])
    return b


def la_det(I, a):
    a = A(a)
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        pyraise("ValueError", "det of non-square matrix")
    out = np.empty(a.shape[:-2], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = det_np(a.a[i])
    return Arr(box(out), "f")


def la_solve(I, a, b):
    a, b = A(a), A(b)
    if a.ndim != 2:
        raise Unsupported("batched solve")
    if a.shape[0] != a.shape[1] or b.shape[:1] != a.shape[:1]:
        pyraise("ValueError", "solve shapes")
    B = b.a.reshape(b.shape[0], -1)
    return Arr(solve_np(a.a, B).reshape(b.shape), "f")


def la_inv(I, a):
    a = A(a)
    if a.ndim != 2:
        raise Unsupported("batched inverse")
    n = a.shape[0]
    e = full((n, n), ZERO).a.copy()
    for i in range(n):
        e[i, i] = ONE
    return Arr(solve_np(a.a, e), "f")


# --------------------------------------------------------------- constructors
def shape_of(I, s):
    if isinstance(s, (tuple, list)):
        r = tuple(I.int_(x) for x in s)
    elif isinstance(s, Arr) and s.ndim == 1:
        r = tuple(I.int_(Arr(box(x), s.kind)) for x in s.a)
    else:
        r = (I.int_(s),)
    if any(x < 0 for x in r):
        pyraise("TypeError", "negative dimension")
    return r


def reshape(I, a, *shape, order="C", newshape=None, **kw):
    a = A(a)
    if newshape is not None:
        shape = (newshape,)
    if "shape" in kw:
        shape = (kw["shape"],)
    if order != "C":
        raise Unsupported("reshape order")
    if len(shape) == 1:
        s = shape[0]
        s = tuple(I.int_(x) for x in s) if isinstance(s, (tuple, list)) else (I.int_(s),)
    else:
        s = tuple(I.int_(x) for x in shape)
    try:
        return Arr(a.a.reshape(s), a.kind)
    except ValueError as e:
        pyraise("TypeError", f"cannot reshape array of shape {a.shape} into {s}")


def linspace(I, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = I.int_(num)
    if n < 0:
        pyraise("ValueError", "number of samples must be non-negative")
    s, e = A(start), A(stop)
    shape = np.broadcast_shapes(s.shape, e.shape)
    sb, eb = np.broadcast_to(s.a, shape), np.broadcast_to(e.a, shape)
    div = (n - 1) if endpoint else n
    out = np.empty((n,) + shape, dtype=object)
    for i in range(n):
        for j in np.ndindex(*shape):
            p, q = tm.as_num(sb[j]), tm.as_num(eb[j])
            t = Fraction(i, div) if div > 0 else Fraction(0)
            if t == 0:
                out[(i,) + j] = p
            elif t == 1:
                out[(i,) + j] = q
            else:
                out[(i,) + j] = tm.add(p, tm.mul(const(t), tm.sub(q, p)))
    ax = I.int_(axis)
    if ax:
        out = np.moveaxis(out, 0, ax)
    r = Arr(out, "f")
    if retstep:
        step = ew(lambda p, q: tm.div(tm.sub(q, p), const(div)) if div else tm.NAN, s, e, kind="f")
        return r, step
    return r


def arange(I, start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    vals = []
    for v in (start, stop, 1 if step is None else step):
        if isinstance(v, Arr) and v.size == 1:
            v = v.item()
        if isinstance(v, T):
            if v.op != "c":
                raise Unsupported("symbolic arange")
            v = int(v.data) if v.data.denominator == 1 and True else v.data
        vals.append(v)
    s, e, st = vals
    k = "f" if any(isinstance(v, Fraction) for v in vals) else "i"
    n = max(0, math.ceil(Fraction(Fraction(e) - Fraction(s)) / Fraction(st)))
    a = np.empty((n,), dtype=object)
    for i in range(n):
        a[i] = const(Fraction(s) + i * Fraction(st))
    r = Arr(a, k)
    return cast(r, dtype_of(I, dtype)) if dtype is not None else r


def meshgrid(I, *xs, indexing="xy", sparse=False, copy=True):
    xs = [A(x) for x in xs]
    for x in xs:
        if x.ndim > 1:
            pyraise("ValueError", "meshgrid arguments must be 1D")
    xs = [Arr(x.a.reshape(-1), x.kind) for x in xs]
    n = len(xs)
    if sparse:
        raise Unsupported("sparse meshgrid")
    shape = [x.size for x in xs]
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    elif indexing not in ("xy", "ij"):
        pyraise("ValueError", "meshgrid indexing")
    oshape = [shape[i] for i in order]
    out = []
    for i, x in enumerate(xs):
        ax = order.index(i)
        v = x.a.reshape([-1 if k == ax else 1 for k in range(n)])
        out.append(Arr(np.broadcast_to(v, oshape).copy(), x.kind))
    return out


def seq(I, xs):
    if isinstance(xs, Arr):
        return I.iterate(xs)
    return [A(x) for x in I.iterate(xs)]


def stack(I, arrays, axis=0, out=None, dtype=None):
    xs = seq(I, arrays)
    if not xs:
        pyraise("ValueError", "need at least one array to stack")
    if len({x.shape for x in xs}) > 1:
        pyraise("ValueError", "all input arrays must have the same shape: " + str([x.shape for x in xs]))
    ax = I.int_(axis)
    n = xs[0].ndim + 1
    if ax < -n or ax >= n:
        pyraise("ValueError", "axis out of bounds")
    o = np.empty((len(xs),) + xs[0].a.shape, dtype=object)
    for i, x in enumerate(xs):
        o[i] = x.a if x.a.shape else x.a[()]
    return Arr(np.moveaxis(o, 0, ax % n), pkind(*[x.kind for x in xs]))


def concatenate(I, arrays, axis=0, dtype=None):
    xs = seq(I, arrays)
    if not xs:
        pyraise("ValueError", "need at least one array to concatenate")
    if axis is None:
        xs = [Arr(x.a.reshape(-1), x.kind) for x in xs]
        axis = 0
    if any(x.ndim == 0 for x in xs):
        pyraise("ValueError", "zero-dimensional arrays cannot be concatenated")
    try:
        return Arr(np.concatenate([x.a for x in xs], axis=I.int_(axis)), pkind(*[x.kind for x in xs]))
    except ValueError as e:
        pyraise("TypeError", str(e))


def hstack(I, arrays, dtype=None):
    xs = [Arr(np.atleast_1d(x.a), x.kind) for x in seq(I, arrays)]
    return concatenate(I, xs, 0 if xs[0].ndim == 1 else 1)


def vstack(I, arrays, dtype=None):
    xs = [Arr(np.atleast_2d(x.a), x.kind) for x in seq(I, arrays)]
    return concatenate(I, xs, 0)


def insert(I, arr, obj, values, axis=None):
    a = A(arr)
    if axis is None:
        a = Arr(a.a.reshape(-1), a.kind)
        axis = 0
    axis = axes_of(I, axis, a.ndim)[0]
    v = A(values)
    if isinstance(obj, (Arr, T)) and (isinstance(obj, T) or obj.ndim == 0):
        t = obj if isinstance(obj, T) else obj.item()
        if t.op != "c":
            return Arr(lift_index(t, lambda i: insert(I, a, i, v, axis).a, merge_np), a.kind)
        obj = int(t.data)
    if isinstance(obj, int):
        n = a.shape[axis]
        i = max(0, min(obj if obj >= 0 else obj + n, n))
        m = np.moveaxis(a.a, axis, 0)
        vv = v.a
        if vv.ndim and a.ndim == vv.ndim:
            w = np.moveaxis(vv, axis, 0)
        else:
            w = np.broadcast_to(vv, m.shape[1:])[None]
        kind = a.kind
        w = cast(Arr(w, v.kind), a.dtype).a if v.kind != a.kind else w
        return Arr(np.moveaxis(np.concatenate([m[:i], w, m[i:]], 0), 0, axis), kind)
    o = A(obj)
    idx = [I.int_(Arr(box(t), "i")) for t in o.flat()]
    if a.ndim != 1:
        raise Unsupported("insert nd")
    n = a.shape[0]
    vv = np.broadcast_to(v.a, (len(idx),)) if v.size in (1, len(idx)) else None
    if vv is None:
        pyraise("ValueError", "insert shapes")
    if v.kind != a.kind:
        vv = cast(Arr(np.array(vv, dtype=object), v.kind), a.dtype).a
    idx = [i if i >= 0 else i + n for i in idx]
    order = sorted(range(len(idx)), key=lambda k: idx[k])
    out = []
    p = 0
    for k in order:
        while p < idx[k] and p < n:
            out.append(a.a[p])
            p += 1
        out.append(vv[k])
    out.extend(a.a[p:])
    r = np.empty((len(out),), dtype=object)
    for i, t in enumerate(out):
        r[i] = t
    return Arr(r, a.kind)


def diag(I, v, k=0):
    v = A(v)
    k = I.int_(k)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        o = full((n, n), ZERO).a.copy()
        for i in range(v.shape[0]):
            o[i + max(0, -k), i + max(0, k)] = v.a[i]
        return Arr(o, v.kind)
    if v.ndim == 2:
        return Arr(box(np.array(np.diagonal(v.a, k))), v.kind)
    pyraise("ValueError", "diag input must be 1d or 2d")


def eye(I, N, M=None, k=0, dtype=None):
    n = I.int_(N)
    m = n if M is None else I.int_(M)
    k = I.int_(k)
    o = full((n, m), ZERO).a.copy()
    for i in range(n):
        if 0 <= i + k < m:
            o[i, i + k] = ONE
    r = Arr(o, "f")
    return cast(r, dtype_of(I, dtype)) if dtype is not None else r


def where(I, c, x=MISSING, y=MISSING, **kw):
    if x is MISSING:
        raise Unsupported("one-argument where")
    c, x, y = A(c), A(x), A(y)
    k = pkind(x.kind, y.kind)
    xx = cast(x, k) if x.kind != k else x
    yy = cast(y, k) if y.kind != k else y
    return ew(lambda q, p, r: tm.sel(tm.as_bool(q), p, r), c, xx, yy, kind=k)


def isclose(I, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
    def f(x, y, r, t):
        x, y = tm.as_num(x), tm.as_num(y)
        if x is y:
            return tm.TRUE
        if tm.INF in (x, y) or tm.NAN in (x, y):
            return tm.FALSE
        return tm.le(tm.fabs(tm.sub(x, y)), tm.add(t, tm.mul(r, tm.fabs(y))))

    return ew(f, a, b, rtol, atol, kind="b")


def unary(f, kind="f"):
    def g(I, x, *a, **k):
        x = A(x)
        if x.kind == "k":
            pyraise("TypeError", "arithmetic on PRNG keys")
        kk = x.kind if kind is None else kind
        if kk == "b":
            kk = "i"
        return ew(lambda t: f(tm.as_num(t)), x, kind=kk)

    return g


def binary(op):
    return lambda I, a, b, **k: arr_binop(I, op, A(a) if not isinstance(a, (list, tuple)) else pyraise("TypeError", "requires arrays"), b)


def expm1(t):
    return tm.sub(tm.fn("exp", t), ONE)


def sinh(t):
    return tm.mul(tm.HALF, tm.sub(tm.fn("exp", t), tm.fn("exp", tm.neg(t))))


def cosh(t):
    return tm.mul(tm.HALF, tm.add(tm.fn("exp", t), tm.fn("exp", tm.neg(t))))


def sigmoid(t):
    return tm.fn("sigmoid", t)


def clip(I, a, min=None, max=None, a_min=None, a_max=None, **kw):
    lo = min if min is not None else a_min
    hi = max if max is not None else a_max
    r = A(a)
    if lo is not None:
        r = ew(lambda x, y: tm.tmax(tm.as_num(x), tm.as_num(y)), r, lo)
    if hi is not None:
        r = ew(lambda x, y: tm.tmin(tm.as_num(x), tm.as_num(y)), r, hi)
    return r


def take(I, a, indices, axis=None, **kw):
    a = A(a)
    if axis is None:
        a = Arr(a.a.reshape(-1), a.kind)
        axis = 0
    axis = axes_of(I, axis, a.ndim)[0]
    return arr_getitem(I, a, (slice(None),) * axis + (A(indices),))


def roll(I, a, shift, axis=None):
    a = A(a)
    return Arr(np.roll(a.a, I.int_(shift), None if axis is None else I.int_(axis)), a.kind)


def flip(I, a, axis=None):
    a = A(a)
    return Arr(np.flip(a.a, None if axis is None else axes_of(I, axis, a.ndim)), a.kind)


def tile(I, a, reps):
    a = A(a)
    return Arr(np.tile(a.a, shape_of(I, reps)), a.kind)


def repeat(I, a, repeats, axis=None, **kw):
    a = A(a)
    return Arr(np.repeat(a.a, I.int_(repeats), None if axis is None else I.int_(axis)), a.kind)


def diff(I, a, n=1, axis=-1, **kw):
    a = A(a)
    if any(v is not None for v in kw.values()):
        raise Unsupported("diff options")
    n = I.int_(n)
    if n != 1:
        for _ in range(n):
            a = diff(I, a, 1, axis)
        return a
    m = np.moveaxis(a.a, axis, 0)
    r = arr_binop(I, "Sub", Arr(m[1:], a.kind), Arr(m[:-1], a.kind))
    return Arr(np.moveaxis(r.a, 0, axis), r.kind)


def dot(I, a, b, **kw):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return arr_binop(I, "Mult", a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(a, b)
    return tensordot(a, b, ((a.ndim - 1,), (b.ndim - 2 if b.ndim > 1 else 0,)))


def vdot(I, a, b, **kw):
    a, b = A(a), A(b)
    if a.size != b.size:
        pyraise("TypeError", "vdot shapes")
    return matmul(Arr(a.a.reshape(-1), a.kind), Arr(b.a.reshape(-1), b.kind))


def outer(I, a, b, **kw):
    a, b = A(a), A(b)
    return tensordot(Arr(a.a.reshape(-1), a.kind), Arr(b.a.reshape(-1), b.kind), 0)


def inner(I, a, b, **kw):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return arr_binop(I, "Mult", a, b)
    return tensordot(a, b, ((a.ndim - 1,), (b.ndim - 1,)))


def interp_split(I, a, n, axis=0, split=np.split):
    a = A(a)
    if isinstance(n, (list, tuple)) or isinstance(n, Arr) and n.ndim:
        n = n if isinstance(n, (list, tuple)) else n.flat()
        parts = split(a.a, [I.int_(x) for x in n], axis=I.int_(axis))
    else:
        try:
            parts = split(a.a, I.int_(n), axis=I.int_(axis))
        except ValueError:
            pyraise("ValueError", "split")
    return [Arr(p, a.kind) for p in parts]


def hypot(t, u):
    return tm.sqrt(tm.add(sq(t), sq(u)))


def arctan2(y, x):
    return tm.mk("f", "arctan2", (y, x)) if not (y.op == "c" and y.data == 0 and x.op == "c" and x.data > 0) else ZERO
