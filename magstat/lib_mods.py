"""Module tables: jax, jax.numpy, jax.lax, jax.random, jax.tree, flax, jaxopt, chex, numpy."""
from __future__ import annotations
from fractions import Fraction
import numpy as np

from . import terms as tm
from .terms import const
from .values import *
from . import lib_arr as la
from . import lib_jax as lj
from . import lib_py as lp
from .lib_py import typ

A = as_arr


def B(name, fn):
    return Builtin(name, fn)


# ----------------------------------------------------------------- transforms
def jit_(I, f=None, *, static_argnums=None, static_argnames=None, **kw):
    if f is None:
        return B("jit", lambda I, g: jit_(I, g, static_argnums=static_argnums, static_argnames=static_argnames))
    nums = lj._argnums(I, static_argnums)[0] if static_argnums is not None else []
    nums = list(nums) if isinstance(nums, (list, tuple)) else [nums]
    names = [static_argnames] if isinstance(static_argnames, str) else list(I.iterate(static_argnames)) if static_argnames is not None else []

    def params():
        try:
            return [p.attrs["name"] if p.attrs["kind"] in (0, 1) else None for p in lp.signature_params(I, f)]
        except Unsupported:
            return []

    def run(I, *args, **kwargs):
        ps = params()
        st = {ps.index(n) for n in names if n in ps} | {n if n >= 0 else n + len(ps) for n in nums}
        stn = set(names) | {ps[i] for i in nums if i < len(ps)}

        def leaf(x):
            if isinstance(x, (int, Fraction)):
                r = A(x)
                r.traced = True
                return r
            if isinstance(x, (str, UFun, Builtin, Func, Bound)):
                pyraise("TypeError", f"{x} is not a valid JAX type")
            return A(x) if isinstance(x, lj.NUMLIKE) else x

        def dyn(v):
            return lj.hmap(I, leaf, v)

        return I.call(f, [a if i in st else dyn(a) for i, a in enumerate(args)], {k: v if k in stn else dyn(v) for k, v in kwargs.items()})

    b = B("jit", run)
    b.attrs["__wrapped__"] = f
    return b


def keepsig(maker):
    """transform returning a callable that presents the signature of the wrapped function"""

    def g(I, f, *a, **k):
        r = maker(I, f, *a, **k)
        if isinstance(r, Builtin) and "__wrapped__" not in r.attrs:
            r.attrs["__wrapped__"] = f
        return r

    return g


def checkpoint_(I, f=None, **kw):
    if f is None:
        return B("checkpoint", lambda I, g: g)
    b = B("checkpoint", lambda I, *a, **k: I.call(f, list(a), k))
    b.attrs["__wrapped__"] = f
    return b


def io_callback_(I, f, result_shape, *args, **kw):
    I.event("io_callback", f, args)
    return None


def register_class(I, cls):
    cls.pytree = True
    return cls


def stop_gradient(I, x):
    def one(v):
        if not isinstance(v, lj.NUMLIKE):
            return v
        v = A(v)
        if v.kind != "f":
            return v
        I.event("cut", "stop_gradient", v, tuple(s[1] for s in I.stack))
        return Arr(la.box(np.array([tm.stop(t) for t in v.flat()] + [None], dtype=object)[:-1].reshape(v.shape)), v.kind)

    return lj.hmap(I, one, x)


def convert_element_type(I, x, dt=None, new_dtype=None):
    return la.cast(A(x), la.dtype_of(I, dt if dt is not None else new_dtype))


def reduce_precision(I, x, exponent_bits=8, mantissa_bits=23):
    I.event("narrow", "reduce_precision", tuple(s[1] for s in I.stack))
    return x


def pure_callback_(I, f, result_shape, *args, **kw):
    for x in lj.flatten(I, args)[0]:
        I.event("cut", "host callback", A(x), tuple(s[1] for s in I.stack))
    raise Unsupported("pure_callback")


# ----------------------------------------------------------------------- jnp
def u(f, kind="f"):
    return la.unary(f, kind)


def fnt(name):
    return lambda t: tm.fn(name, t)


def asarray_(I, x, dtype=None, copy=None, order=None, ndmin=0, **kw):
    if isinstance(x, Choice) or isinstance(x, Opaque):
        raise Unsupported("asarray of gated object")
    a = A(list(x.items[x.pos :]) if isinstance(x, Gen) else x)
    if a.weak:
        a = Arr(a.a, a.kind)
    r = la.cast(a, la.dtype_of(I, dtype))
    return r


def like(t):
    def f(I, x, dtype=None, shape=None, **kw):
        a = A(x)
        k = (la.dtype_of(I, dtype) or a.dtype).kind
        v = t
        if k == "b":
            v = tm.FALSE if t is tm.ZERO else tm.TRUE
        return la.full(a.shape if shape is None else la.shape_of(I, shape), v, k)

    return f


def filled(t):
    def f(I, shape, dtype=None, **kw):
        k = (la.dtype_of(I, dtype) or F32).kind
        v = t
        if k == "b":
            v = tm.FALSE if t is tm.ZERO else tm.TRUE
        return la.full(la.shape_of(I, shape), v, k)

    return f


def full_(I, shape, fill_value, dtype=None, **kw):
    v = A(fill_value)
    s = la.shape_of(I, shape)
    return la.cast(Arr(np.broadcast_to(v.a, s).copy(), v.kind), la.dtype_of(I, dtype))


def full_like(I, x, fill_value, dtype=None, shape=None, **kw):
    a = A(x)
    return full_(I, a.shape if shape is None else shape, fill_value, dtype if dtype is not None else a.dtype)


def ravel(I, a, order="C", **kw):
    return Arr(A(a).a.reshape(-1), A(a).kind)


def transpose(I, a, *axes, **kw):
    a = A(a)
    ax = axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, list)) else (axes or None)
    if ax == (None,):
        ax = None
    ax = kw.get("axes", ax)
    return Arr(np.transpose(a.a, None if ax is None else [I.int_(x) for x in ax]), a.kind)


def moveaxis(I, a, s, d):
    a = A(a)
    return Arr(np.moveaxis(a.a, la_int(I, s), la_int(I, d)), a.kind)


def la_int(I, v):
    return tuple(I.int_(x) for x in v) if isinstance(v, (tuple, list)) else I.int_(v)


def swapaxes(I, a, i, j):
    a = A(a)
    return Arr(np.swapaxes(a.a, I.int_(i), I.int_(j)), a.kind)


def expand_dims(I, a, axis):
    a = A(a)
    return Arr(np.expand_dims(a.a, la_int(I, axis)), a.kind)


def squeeze(I, a, axis=None):
    a = A(a)
    try:
        return Arr(la.box(np.squeeze(a.a, None if axis is None else la_int(I, axis))), a.kind)
    except ValueError:
        pyraise("ValueError", "cannot squeeze")


def broadcast_to(I, a, shape, **kw):
    a = A(a)
    try:
        return Arr(np.broadcast_to(a.a, la.shape_of(I, shape)).copy(), a.kind)
    except ValueError:
        pyraise("ValueError", f"cannot broadcast {a.shape}")


def broadcast_arrays(I, *xs):
    xs = [A(x) for x in xs]
    return [Arr(np.array(b), x.kind) for b, x in zip(np.broadcast_arrays(*[x.a for x in xs]), xs)]


def atleast(n):
    def f(I, a):
        a = A(a)
        return Arr(np.array(a.a, ndmin=n, copy=False) if n < 3 else a.a.reshape((1,) * (3 - a.ndim) + a.shape), a.kind)

    return f


def column_stack(I, arrays):
    xs = [A(x) for x in la.seq(I, arrays)]
    xs = [Arr(x.a[:, None], x.kind) if x.ndim == 1 else x for x in xs]
    return la.concatenate(I, xs, axis=1)


def array_equal(I, a, b, **kw):
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return Arr(tm.FALSE, "b")
    return la.aall(I, la.arr_compare(I, "Eq", a, b))


def allclose(I, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **kw):
    return la.aall(I, la.isclose(I, a, b, rtol, atol))


def trace_(I, a, offset=0, axis1=0, axis2=1, **kw):
    a = A(a)
    d = np.diagonal(a.a, offset, axis1, axis2)
    return la.asum(I, Arr(la.box(d.copy()), a.kind), axis=-1)


def diagonal(I, a, offset=0, axis1=0, axis2=1):
    a = A(a)
    return Arr(np.diagonal(a.a, offset, axis1, axis2).copy(), a.kind)


def logic(f):
    return lambda I, a, b: ew(lambda p, q: f(tm.as_bool(p), tm.as_bool(q)), a, b, kind="b")


def logical_not(I, a):
    return ew(lambda p: tm.not_(tm.as_bool(p)), a, kind="b")


def invert(I, a):
    a = A(a)
    if a.kind == "b":
        return logical_not(I, a)
    return I.unop("Invert", a)


def var_(I, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, correction=None, **kw):
    a = A(a)
    n = A(a).size if axis is None else int(np.prod([a.shape[k] for k in la.axes_of(I, axis, a.ndim)]))
    d = la.arr_binop(I, "Sub", a, la.amean(I, a, axis, keepdims=True))
    s = la.asum(I, la.arr_binop(I, "Mult", d, d), axis, keepdims=keepdims)
    return la.arr_binop(I, "Div", s, n - I.int_(ddof if correction is None else correction))


def std_(I, a, *args, **kw):
    return ew(lambda t: la.sqrt_t(I, tm.as_num(t)), var_(I, a, *args, **kw), kind="f")


def average(I, a, axis=None, weights=None, returned=False, keepdims=False):
    if returned:
        raise Unsupported("average(returned)")
    if weights is None:
        return la.amean(I, a, axis, keepdims=keepdims)
    a, w = A(a), A(weights)
    if w.ndim != a.ndim:
        w = Arr(w.a.reshape([-1 if k == I.int_(axis) % a.ndim else 1 for k in range(a.ndim)]), w.kind)
        w = Arr(np.broadcast_to(w.a, a.shape), w.kind)
    return la.arr_binop(I, "Div", la.asum(I, la.arr_binop(I, "Mult", a, w), axis, keepdims=keepdims), la.asum(I, w, axis, keepdims=keepdims))


def cmpf(op):
    return lambda I, a, b: la.arr_compare(I, op, a if isinstance(a, Arr) else A(a), b)


def select_(I, conds, choices, default=0):
    r = A(default)
    for c, x in reversed(list(zip(I.iterate(conds), I.iterate(choices)))):
        r = la.where(I, c, x, r)
    return r


def piecewise_(I, x, conds, funcs, *a, **k):
    raise Unsupported("piecewise")


def heaviside(I, x, h):
    return ew(lambda t, v: tm.sel(tm.gt0(t), tm.ONE, tm.sel(tm.eq0(t), v, tm.ZERO)), x, h, kind="f")


def polyval(I, p, x, **kw):
    p = A(p)
    r = la.full((), tm.ZERO)
    for i in range(p.shape[0]):
        r = I.binop("Add", I.binop("Mult", r, x), Arr(la.box(p.a[i]), p.kind))
    return r


def unravel_index(I, i, shape):
    raise Unsupported("unravel_index")


def finfo(I, dt):
    if isinstance(dt, DType) and dt.fixed:
        I.event("narrow", f"finfo({dt.name})", tuple(s[1] for s in I.stack))
    o = Instance(Class("finfo", [], {}))
    e = Fraction(1, 2**23)
    o.attrs.update(eps=e, tiny=Fraction(1, 2**126), smallest_normal=Fraction(1, 2**126), max=Fraction((2 - Fraction(1, 2**23)) * 2**127), min=-Fraction((2 - Fraction(1, 2**23)) * 2**127), dtype=F32)
    return o


def searchsorted(I, a, v, side="left", **kw):
    """number of entries of the sorted array a that lie below v"""
    a, v = A(a), A(v)
    f = tm.lt if side == "left" else tm.le
    out = np.empty(v.a.shape, dtype=object)
    for i in np.ndindex(*v.a.shape):
        r = const(a.shape[0])
        for j in reversed(range(a.shape[0])):
            # first index j with not (a[j] < v)
            r = tm.sel(tm.not_(f(a.a[j], v.a[i])), const(j), r)
        out[i] = r
    return Arr(la.box(out), "i")


def round_t(t):
    """nearest whole number, halves to the even one"""
    if t.op == "c":
        return const(round(t.data))
    f, half = la.floor(t), const(Fraction(1, 2))
    d, up = tm.sub(t, f), tm.add(f, tm.ONE)
    return tm.sel(tm.lt(d, half), f, tm.sel(tm.lt(half, d), up, tm.sel(tm.eq0(tm.mod(f, const(2))), f, up)))


def round_(I, a, decimals=0, **kw):
    a = A(a)
    if a.kind in "ib":
        return a
    if I.int_(decimals) != 0:
        raise Unsupported("round to decimals")
    return ew(round_t, a, kind="f")


def vectorize(I, f, excluded=(), signature=None):
    if signature is not None:
        raise Unsupported("vectorize signature")

    def run(I, *args):
        xs = [A(a) for a in args]
        bs = np.broadcast_arrays(*[x.a for x in xs])
        out = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(*bs[0].shape):
            r = I.call(f, [Arr(la.box(b[i]), x.kind) for b, x in zip(bs, xs)], {})
            r = A(r)
            if r.shape != ():
                raise Unsupported("vectorize output")
            out[i] = r.item()
        return Arr(la.box(out), "f")

    return B("vectorize", run)


def deg(I, x):
    return la.arr_binop(I, "Mult", A(x), tm.mul(const(180), tm.pw(tm.PI, const(-1))))


def rad(I, x):
    return la.arr_binop(I, "Mult", A(x), tm.mul(const(Fraction(1, 180)), tm.PI))


def sqrt_(I, x):
    a = A(x)
    return ew(lambda t: la.sqrt_t(I, tm.as_num(t)), a, kind="f")


def square(I, x):
    return la.arr_binop(I, "Mult", A(x), A(x))


def nan_cond(t, memo=None):
    """condition under which a value built from an explicit nan is not a number (nan produced by a domain error is not tracked)"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t is tm.NAN:
        r = tm.TRUE
    elif not t.args or t.op == "U":
        r = tm.FALSE
    elif t.op == "sel":
        r = tm.sel(t.args[0], nan_cond(t.args[1], memo), nan_cond(t.args[2], memo))
    elif tm.is_bool(t):
        r = tm.FALSE
    else:
        r = tm.or_(*[nan_cond(a, memo) for a in t.args])
    memo[t] = r
    return r


def isnan(I, x):
    return ew(nan_cond, x, kind="b")


def isfinite(I, x):
    return ew(lambda t: tm.FALSE if t in (tm.INF, tm.neg(tm.INF)) else tm.not_(nan_cond(t)), x, kind="b")


def _drop_nan(x, v=0):
    a = A(x)
    return ew(lambda t: tm.sel(nan_cond(t), tm.lift(v), t), a, kind=a.kind)


def nansum(I, x, axis=None, **k):
    return la.asum(I, _drop_nan(x), axis, **k)


def nan_to_num(I, x, copy=True, nan=0, posinf=None, neginf=None):
    return _drop_nan(x, nan if not isinstance(nan, Arr) else nan.item())


def sign_(I, x):
    a = A(x)
    return ew(lambda t: tm.sign(tm.as_num(t)), a, kind=a.kind if a.kind != "b" else "i")


def abs_(I, x):
    a = A(x)
    return ew(lambda t: tm.fabs(tm.as_num(t)), a, kind=a.kind if a.kind != "b" else "i")


def jsum(f):
    return f


def einsum_(I, spec, *ops, **kw):
    return la.einsum(I, spec, *ops, **kw)


def apply_along(I, func1d, axis, arr, *args, **kwargs):
    return lj.apply_along_axis(I, func1d, axis, arr, *args, **kwargs)


def logsumexp(I, a, axis=None, keepdims=False, **kw):
    e = u(fnt("exp"))(I, a)
    return u(fnt("log"))(I, la.asum(I, e, axis=axis, keepdims=keepdims))


def softmax(I, a, axis=-1):
    e = u(fnt("exp"))(I, a)
    return la.arr_binop(I, "Div", e, la.asum(I, e, axis=axis, keepdims=True))


def elu(I, x, alpha=1):
    return ew(lambda t, a: tm.sel(tm.gt0(t), t, tm.mul(a, la.expm1(t))), x, alpha, kind="f")


def selu(I, x):
    al, sc = const(Fraction("1.6732632423543772848170429916717")), const(Fraction("1.0507009873554804934193349852946"))
    return ew(lambda t: tm.mul(sc, tm.sel(tm.gt0(t), t, tm.mul(al, la.expm1(t)))), x, kind="f")


def softplus(I, x):
    return ew(lambda t: tm.fn("log", tm.add(tm.ONE, tm.fn("exp", t))), x, kind="f")


def jnp_table():
    d = dict(
        array=asarray_, asarray=asarray_, zeros=filled(tm.ZERO), ones=filled(tm.ONE), empty=filled(tm.ZERO), zeros_like=like(tm.ZERO), ones_like=like(tm.ONE), empty_like=like(tm.ZERO),
        full=full_, full_like=full_like, eye=la.eye, identity=lambda I, n, dtype=None: la.eye(I, n), diag=la.diag, diagonal=diagonal, trace=trace_,
        exp=u(fnt("exp")), log=u(fnt("log")), sin=u(fnt("sin")), cos=u(fnt("cos")), tan=u(fnt("tan")), arcsin=u(fnt("arcsin")), arccos=u(fnt("arccos")), arctan=u(fnt("arctan")),
        asin=u(fnt("arcsin")), acos=u(fnt("arccos")), atan=u(fnt("arctan")),
        tanh=u(fnt("tanh")), sinh=u(la.sinh), cosh=u(la.cosh), expm1=u(la.expm1), log1p=u(lambda t: tm.fn("log", tm.add(tm.ONE, t))), exp2=u(lambda t: tm.pw(const(2), t)),
        log2=u(lambda t: tm.div(tm.fn("log", t), tm.fn("log", const(2)))), log10=u(lambda t: tm.div(tm.fn("log", t), tm.fn("log", const(10)))), sinc=u(lambda t: tm.sel(tm.eq0(t), tm.ONE, tm.div(tm.fn("sin", tm.mul(tm.PI, t)), tm.mul(tm.PI, t)))),
        sqrt=sqrt_, square=square, cbrt=u(lambda t: tm.pw(t, const(Fraction(1, 3)))), reciprocal=u(lambda t: tm.pw(t, const(-1))), abs=abs_, absolute=abs_, fabs=abs_, sign=sign_, negative=lambda I, x: I.unop("USub", A(x)), positive=lambda I, x: A(x),
        floor=u(la.floor), ceil=u(lambda t: tm.neg(la.floor(tm.neg(t)))), trunc=u(la.trunc), round=round_, rint=round_,
        deg2rad=rad, radians=rad, rad2deg=deg, degrees=deg, hypot=lambda I, a, b: ew(la.hypot, a, b, kind="f"), arctan2=lambda I, a, b: ew(la.arctan2, a, b, kind="f"), atan2=lambda I, a, b: ew(la.arctan2, a, b, kind="f"),
        pi=tm.PI, e=tm.EUL, inf=tm.INF, nan=tm.NAN, newaxis=None, euler_gamma=tm.sym("euler_gamma"),
        sum=la.asum, prod=la.aprod, mean=la.amean, min=la.amin, max=la.amax, amin=la.amin, amax=la.amax, all=la.aall, any=la.aany, argmax=la.argmax, argmin=la.argmin, cumsum=la.cumop(tm.add), cumprod=la.cumop(tm.mul),
        average=average,
        where=la.where, minimum=lambda I, a, b: ew(tm.tmin, a, b), maximum=lambda I, a, b: ew(tm.tmax, a, b), fmin=lambda I, a, b: ew(tm.tmin, a, b), fmax=lambda I, a, b: ew(tm.tmax, a, b), clip=la.clip,
        meshgrid=la.meshgrid, linspace=la.linspace, arange=la.arange, cross=la.cross, hstack=la.hstack, vstack=la.vstack, stack=la.stack, concatenate=la.concatenate, concat=la.concatenate, column_stack=column_stack, append=lambda I, a, b, axis=None: la.concatenate(I, [a, b], axis) if axis is not None else la.concatenate(I, [ravel(I, a), ravel(I, b)]),
        dot=la.dot, matmul=lambda I, a, b, **k: la.matmul(A(a), A(b)), vdot=la.vdot, inner=la.inner, outer=la.outer, tensordot=lambda I, a, b, axes=2, **k: la.tensordot(A(a), A(b), _axes(I, axes)), einsum=einsum_, vecdot=lambda I, a, b, axis=-1, **k: la.asum(I, la.arr_binop(I, "Mult", A(a), A(b)), axis),
        ravel=ravel, reshape=la.reshape, transpose=transpose, permute_dims=transpose, moveaxis=moveaxis, swapaxes=swapaxes, expand_dims=expand_dims, squeeze=squeeze, broadcast_to=broadcast_to, broadcast_arrays=broadcast_arrays, atleast_1d=atleast(1), atleast_2d=atleast(2), atleast_3d=atleast(3),
        insert=la.insert, take=la.take, roll=la.roll, flip=la.flip, tile=la.tile, repeat=la.repeat, diff=la.diff, split=la.interp_split, array_split=lambda I, a, n, axis=0: la.interp_split(I, a, n, axis, np.array_split),
        isclose=la.isclose, allclose=allclose, array_equal=array_equal, isnan=isnan, isfinite=isfinite, isinf=lambda I, x: ew(lambda t: tm.TRUE if t is tm.INF else tm.FALSE, x, kind="b"), nan_to_num=nan_to_num,
        logical_and=logic(tm.and_), logical_or=logic(tm.or_), logical_not=logical_not, logical_xor=logic(lambda p, q: tm.not_(tm.eq(p, q))), invert=invert, bitwise_not=invert, bitwise_and=lambda I, a, b: la.arr_binop(I, "BitAnd", A(a), A(b)), bitwise_or=lambda I, a, b: la.arr_binop(I, "BitOr", A(a), A(b)), bitwise_xor=lambda I, a, b: la.arr_binop(I, "BitXor", A(a), A(b)),
        less=cmpf("Lt"), less_equal=cmpf("LtE"), greater=cmpf("Gt"), greater_equal=cmpf("GtE"), equal=cmpf("Eq"), not_equal=cmpf("NotEq"),
        add=lambda I, a, b: la.arr_binop(I, "Add", A(a), A(b)), subtract=lambda I, a, b: la.arr_binop(I, "Sub", A(a), A(b)), multiply=lambda I, a, b: la.arr_binop(I, "Mult", A(a), A(b)), divide=lambda I, a, b: la.arr_binop(I, "Div", A(a), A(b)), true_divide=lambda I, a, b: la.arr_binop(I, "Div", A(a), A(b)), power=lambda I, a, b: la.arr_binop(I, "Pow", A(a), A(b)), float_power=lambda I, a, b: la.arr_binop(I, "Pow", A(a), A(b)), mod=lambda I, a, b: la.arr_binop(I, "Mod", A(a), A(b)), remainder=lambda I, a, b: la.arr_binop(I, "Mod", A(a), A(b)), fmod=lambda I, a, b: ew(lambda x, y: tm.sub(x, tm.mul(y, la.trunc(tm.div(x, y)))), A(a), A(b)), floor_divide=lambda I, a, b: la.arr_binop(I, "FloorDiv", A(a), A(b)), pow=lambda I, a, b: la.arr_binop(I, "Pow", A(a), A(b)),
        apply_along_axis=apply_along, vectorize=vectorize, select=select_, heaviside=heaviside, polyval=polyval, searchsorted=searchsorted,
        finfo=finfo, shape=lambda I, a: A(a).shape, ndim=lambda I, a: A(a).ndim, size=lambda I, a, axis=None: A(a).size if axis is None else A(a).shape[I.int_(axis)], result_type=lambda I, *a: BYKIND[pkind(*[x.kind if isinstance(x, (Arr, DType)) else A(x).kind for x in a])], isscalar=lambda I, x: not isinstance(x, (list, tuple)) and A(x).ndim == 0, iscomplexobj=lambda I, x: False, real=lambda I, x: A(x), issubdtype=lambda I, a, b: Opaque("issubdtype"), copy=lambda I, a: A(a),
        **LOW, float64=F32, int32=I32, int64=I32, uint32=U32, bool_=BOOL, ndarray=typ("Array"), floating=Opaque("jnp.floating"), integer=Opaque("jnp.integer"), generic=Opaque("generic"),
        nansum=nansum, sort=Opaque("jnp.sort"), unique=Opaque("jnp.unique"), std=std_, var=var_, nonzero=Opaque("jnp.nonzero"), trapezoid=trapezoid, zeros_init=None, matrix_transpose=lambda I, a: Arr(np.swapaxes(A(a).a, -1, -2), A(a).kind), triu=tri("triu"), tril=tri("tril"), ix_=Opaque("ix_"), logspace=Opaque("logspace"), kron=kron, ptp=lambda I, a, axis=None: la.arr_binop(I, "Sub", la.amax(I, a, axis), la.amin(I, a, axis)), count_nonzero=lambda I, a, axis=None: la.asum(I, la.cast(ew(tm.as_bool, a, kind="b"), I32), axis), cov=Opaque("cov"),
    )
    d.pop("zeros_init")
    from . import lib_more

    d.update(lib_more.JNP)
    return d


def _axes(I, axes):
    if isinstance(axes, (tuple, list)):
        return tuple(la_int(I, x) for x in axes)
    return I.int_(axes)


def kron(I, a, b):
    a, b = A(a), A(b)
    n = max(a.ndim, b.ndim)
    x = a.a.reshape((1,) * (n - a.ndim) + a.shape)
    y = b.a.reshape((1,) * (n - b.ndim) + b.shape)
    o = np.empty(tuple(p * q for p, q in zip(x.shape, y.shape)), dtype=object)
    for i in np.ndindex(*x.shape):
        for j in np.ndindex(*y.shape):
            o[tuple(p * y.shape[k] + q for k, (p, q) in enumerate(zip(i, j)))] = tm.mul(tm.as_num(x[i]), tm.as_num(y[j]))
    return Arr(o, pkind(a.kind, b.kind))


UFUNCS = {"add", "multiply", "subtract", "maximum", "minimum", "logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_xor", "logaddexp"}


def ufunc_method(o, name):
    """jnp.multiply.outer, jnp.add.reduce, jnp.maximum.accumulate"""
    base, _, op = o.name.rpartition(".")
    if base not in ("jax.numpy", "numpy") or op not in UFUNCS:
        return None
    f = lambda I, x, y: I.call(o, [x, y], {})
    if name == "outer":
        def outer(I, a, b):
            a, b = A(a), A(b)
            return f(I, Arr(a.a.reshape(a.shape + (1,) * b.ndim), a.kind), b)

        return Builtin(o.name + ".outer", outer)
    if name in ("reduce", "accumulate"):
        def red(I, a, axis=0, dtype=None, out=None, keepdims=False):
            a = A(a)
            if axis is None or isinstance(axis, tuple):
                raise Unsupported("ufunc reduction over several axes")
            ax = I.int_(axis) % a.ndim
            parts = [Arr(la.box(x) if not isinstance(x, np.ndarray) else x, a.kind) for x in np.moveaxis(a.a, ax, 0)]
            if not parts:
                raise Unsupported("empty ufunc reduction")
            acc, hist = parts[0], [parts[0]]
            for p in parts[1:]:
                acc = f(I, acc, p)
                hist.append(acc)
            if name == "accumulate":
                return la.stack(I, hist, axis=ax)
            return Arr(np.expand_dims(acc.a, ax), acc.kind) if keepdims else acc

        return Builtin(o.name + "." + name, red)
    return None


def tri(which):
    def f(I, a, k=0):
        a = A(a)
        o = a.a.copy()
        for i in np.ndindex(*o.shape):
            if (which == "triu" and i[-1] - i[-2] < k) or (which == "tril" and i[-1] - i[-2] > k):
                o[i] = tm.ZERO
        return Arr(o, a.kind)

    return f


def trapezoid(I, y, x=None, dx=1, axis=-1):
    y = A(y)
    axis = I.int_(axis) % y.ndim
    if x is None:
        h = A(dx)
    else:
        x = A(x)
        h = la.diff(I, x, axis=axis if x.ndim > 1 else -1)
        if x.ndim == 1:
            h = Arr(h.a.reshape([-1 if k == axis else 1 for k in range(y.ndim)]), h.kind)
    m = np.moveaxis(y.a, axis, 0)
    s = la.arr_binop(I, "Add", Arr(np.moveaxis(m[1:], 0, axis), y.kind), Arr(np.moveaxis(m[:-1], 0, axis), y.kind))
    return la.arr_binop(I, "Mult", Fraction(1, 2), la.asum(I, la.arr_binop(I, "Mult", h, s), axis))


# ------------------------------------------------------------------- numpy
_gl = {}


def leggauss(I, n):
    n = I.int_(n)
    if n not in _gl:
        xs = [tm.sym(f"gl{n}.x{i}", -1, 1, True, True) for i in range(n)]
        ws = [tm.sym(f"gl{n}.w{i}", 0, 2, True) for i in range(n)]
        _gl[n] = (xs, ws)
    xs, ws = _gl[n]
    return (Arr(np.array(xs, dtype=object), "f"), Arr(np.array(ws, dtype=object), "f"))


# ------------------------------------------------------------------- jaxopt
def solve_lu(I, matvec, b, ridge=None):
    b = A(b)
    if ridge is not None:
        raise Unsupported("ridge")
    J = I.call(lj.jacfwd(I, matvec), [la.full(b.shape, tm.ZERO)], {})
    if b.ndim == 0:
        return la.arr_binop(I, "Div", b, J)
    if b.ndim == 1:
        return la.la_solve(I, J, b)
    if b.ndim == 2:
        n = b.size
        x = la.solve_np(J.a.reshape(-1, n), b.a.reshape(-1, 1))
        return Arr(np.array(x, dtype=object).reshape(b.shape), "f")
    raise Unsupported("solve_lu")


def jaxopt_while(I, cond_fun, body_fun, init_val, maxiter, unroll=False, jit=False):
    return lj.while_loop(I, cond_fun, body_fun, init_val, maxiter)


# ------------------------------------------------------------------- tables
def tree_structure(I, t, is_leaf=None):
    return lj.TreeDef(lj.flatten(I, t, is_leaf)[1])


def tree_flatten(I, t, is_leaf=None):
    l, s = lj.flatten(I, t, is_leaf)
    return l, lj.TreeDef(s)


def tree_unflatten(I, td, ls):
    return lj.unflatten(I, td.spec, I.iterate(ls))


def tree_all(I, t, is_leaf=None):
    return lp._all(I, lj.tree_leaves(I, t))


def tree_transpose(I, *a, **k):
    raise Unsupported("tree_transpose")


def associative_scan(I, fn, elems, reverse=False, axis=0):
    raise Unsupported("associative_scan")


def build():
    from . import lib

    M = lp.std_modules()

    def mod(name, table):
        M[name] = {k: (B(f"{name}.{k}", v) if callable(v) and not isinstance(v, (Builtin, Class, DType, Opaque)) else v) for k, v in table.items()}

    jnp = jnp_table()
    mod("jax.numpy", jnp)
    mod("jax.numpy.linalg", dict(norm=la.norm, solve=la.la_solve, det=la.la_det, inv=la.la_inv, vector_norm=lambda I, x, axis=None, keepdims=False, ord=2, **k: la.norm(I, x, None if ord == 2 else ord, axis, keepdims), cross=la.cross, outer=la.outer,
                                 matrix_norm=lambda I, x, **k: la.norm(I, x), multi_dot=lambda I, xs: _multidot(I, xs), vecdot=jnp["vecdot"], tensordot=jnp["tensordot"], matmul=jnp["matmul"], trace=trace_, diagonal=diagonal))
    from . import lib_more

    M["jax.numpy.linalg"].update({k: B("jax.numpy.linalg." + k, v) for k, v in lib_more.LINALG.items()})
    numpy = dict(jnp)
    mod("numpy", numpy)
    M["numpy.linalg"] = dict(M["jax.numpy.linalg"])
    mod("numpy.polynomial.legendre", dict(leggauss=leggauss))
    M["numpy.polynomial"] = {}
    tree = dict(map=lj.tree_map, leaves=lj.tree_leaves, reduce=lj.tree_reduce, structure=tree_structure, flatten=tree_flatten, unflatten=tree_unflatten, all=tree_all)
    mod("jax.tree", tree)
    mod("jax.tree_util", dict(tree_map=lj.tree_map, tree_leaves=lj.tree_leaves, tree_reduce=lj.tree_reduce, tree_structure=tree_structure, tree_flatten=tree_flatten, tree_unflatten=tree_unflatten, tree_all=tree_all,
                              register_pytree_node_class=register_class, Partial=lp.partial_, register_dataclass=lambda I, c, *a, **k: (_ for _ in ()).throw(Unsupported("register_dataclass"))))
    mod("jax.lax", dict(convert_element_type=convert_element_type, reduce_precision=reduce_precision, cond=lj.cond, switch=lj.switch, select=lj.select, scan=lj.scan, fori_loop=lj.fori_loop, while_loop=lj.while_loop, map=lj.map_, stop_gradient=stop_gradient, add=jnp["add"], mul=jnp["multiply"], sub=jnp["subtract"], div=jnp["divide"],
                        max=jnp["maximum"], min=jnp["minimum"], sqrt=sqrt_, rsqrt=u(lambda t: tm.pw(t, const(Fraction(-1, 2)))), exp=jnp["exp"], sin=jnp["sin"], cos=jnp["cos"], abs=abs_, neg=jnp["negative"], pow=jnp["power"], integer_pow=jnp["power"], square=square, sign=sign_, dot=la.dot,
                        associative_scan=associative_scan, dynamic_slice=Opaque("dynamic_slice"), expand_dims=expand_dims, clamp=lambda I, lo, x, hi: la.clip(I, x, lo, hi), select_n=lambda I, c, *cs: la.where(I, c, cs[1], cs[0]), cumsum=lambda I, x, axis=0, **k: la.cumop(tm.add)(I, x, axis), dynamic_index_in_dim=Opaque("dyn"), fori=Opaque("fori"), Precision=Opaque("Precision"),
                        log=jnp["log"], tanh=jnp["tanh"], reciprocal=jnp["reciprocal"], eq=jnp["equal"], lt=jnp["less"], gt=jnp["greater"], le=jnp["less_equal"], ge=jnp["greater_equal"], bitwise_and=jnp["bitwise_and"], bitwise_or=jnp["bitwise_or"], bitwise_not=invert))
    M["jax.lax"].update({k: B("jax.lax." + k, v) for k, v in lib_more.LAX.items()})
    rnd = dict(PRNGKey=lj.PRNGKey, key=lj.PRNGKey, split=lj.split, fold_in=lj.fold_in, randint=lj.randint, permutation=lj.permutation, choice=lj.choice, shuffle=lj.permutation)
    for k in ("uniform", "normal", "exponential", "bernoulli", "truncated_normal", "laplace", "cauchy", "gumbel", "beta", "gamma", "bits", "ball", "rademacher"):
        rnd[k] = lj.rnd(k)
    mod("jax.random", rnd)
    nn = dict(selu=selu, elu=elu, tanh=jnp["tanh"], sigmoid=u(la.sigmoid), swish=lambda I, x: ew(lambda t: tm.mul(t, la.sigmoid(t)), x, kind="f"), silu=lambda I, x: ew(lambda t: tm.mul(t, la.sigmoid(t)), x, kind="f"), relu=lambda I, x: ew(lambda t: tm.tmax(t, tm.ZERO), x), softplus=softplus, softmax=softmax, logsumexp=logsumexp,
              gelu=u(fnt("gelu")), celu=elu, leaky_relu=lambda I, x, negative_slope=Fraction(1, 100): ew(lambda t, s: tm.sel(tm.ge0(t), t, tm.mul(s, t)), x, negative_slope, kind="f"), one_hot=lib_more.one_hot, log_sigmoid=u(lambda t: tm.neg(tm.fn("log", tm.add(tm.ONE, tm.fn("exp", tm.neg(t)))))), soft_sign=u(lambda t: tm.div(t, tm.add(tm.ONE, tm.fabs(t)))), hard_tanh=u(lambda t: tm.tmin(tm.tmax(t, const(-1)), tm.ONE)), relu6=u(lambda t: tm.tmin(tm.tmax(t, tm.ZERO), const(6))))
    mod("jax.nn", nn)
    inits = dict(zeros_init=lib.zeros_init, ones_init=lib.ones_init, constant=lib.constant_init, zeros=lib.zeros_init(None), ones=lib.ones_init(None), Initializer=Opaque("Initializer"))
    for k in ("lecun_normal", "glorot_normal", "glorot_uniform", "he_normal", "he_uniform", "normal", "uniform", "xavier_normal", "xavier_uniform", "kaiming_normal", "kaiming_uniform", "lecun_uniform", "orthogonal", "truncated_normal", "variance_scaling"):
        inits[k] = lib.mkinit(k)
    mod("jax.nn.initializers", inits)
    mod("jax.flatten_util", dict(ravel_pytree=lj.ravel_pytree))
    mod("jax.experimental", dict(io_callback=io_callback_))
    mod("jax.debug", dict(print=lambda I, *a, **k: I.event("io", "jax.debug.print"), callback=lambda I, f, *a, **k: I.event("io_callback", f, a)))
    jax = dict(Array=typ("Array"), grad=keepsig(lj.grad), jit=jit_, jacfwd=keepsig(lj.jacfwd), jacrev=keepsig(lj.jacrev), jacobian=keepsig(lj.jacrev), hessian=keepsig(lj.hessian), vmap=keepsig(lj.vmap), jvp=lj.jvp, vjp=lj.vjp, linearize=lj.linearize,
               value_and_grad=keepsig(lj.value_and_grad), checkpoint=checkpoint_, remat=checkpoint_, checkpoint_policies=Opaque("checkpoint_policies"), tree_map=lj.tree_map, pure_callback=pure_callback_, custom_jvp=lj.custom_jvp, custom_vjp=lj.custom_vjp, named_call=lambda I, f, **k: f, eval_shape=lambda I, f, *a, **k: I.call(f, list(a), k), block_until_ready=lambda I, x: x, device_put=lambda I, x, *a, **k: x, ShapeDtypeStruct=Opaque("ShapeDtypeStruct"), config=Opaque("jax.config"), devices=Opaque("devices"), numpy=None)
    jax.pop("numpy")
    M["jax.core"] = {"Tracer": typ("Tracer")}
    mod("jax", jax)
    mod("jaxopt.tree_util", dict(tree_add=lj.tree_add, tree_sub=lj.tree_sub, tree_mul=lj.tree_mul, tree_div=lj.tree_div, tree_dot=lj.tree_dot, tree_vdot=lj.tree_vdot, tree_sum=lj.tree_sum, tree_scalar_mul=lj.tree_scalar_mul, tree_add_scalar_mul=lj.tree_add_scalar_mul, tree_l2_norm=lj.tree_l2_norm,
                                 tree_negative=lj.tree_negative, tree_zeros_like=lj.tree_zeros_like, tree_ones_like=lj.tree_ones_like, tree_map=lj.tree_map, tree_where=lj.tree_where, tree_reduce=lj.tree_reduce, tree_leaves=lj.tree_leaves))
    mod("jaxopt.base", dict(IterativeSolver=lib.ITER, OptStep=lib.OPTSTEP, AutoOrBoolean=Opaque("AutoOrBoolean"), Solver=lib.ITER))
    mod("jaxopt.loop", dict(while_loop=jaxopt_while))
    mod("jaxopt.linear_solve", dict(solve_lu=solve_lu))
    mod("jaxopt", dict(OptStep=lib.OPTSTEP))
    linen = dict(nn)
    linen.update(Module=lib.FLAX, compact=lambda I, f: f, nowrap=lambda I, f: f, Dense=lib.DENSE, jit=jit_, remat=lambda I, c, **k: c, module=None, merge_param=lambda I, n, a, b: a if a is not None else b)
    linen.pop("module")
    mod("flax.linen", linen)
    mod("flax.linen.initializers", inits)
    mod("flax.core", dict(FrozenDict=lp._dict, freeze=lambda I, d: d, unfreeze=lambda I, d: d))
    M["flax"] = {}
    mod("chex", dict(ArrayTree=Opaque("ArrayTree"), Array=typ("Array"), PRNGKey=Opaque("PRNGKey"), dataclass=lp.dataclass_))
    M["optax"] = None
    arrm = dict(sum=la.asum, prod=la.aprod, mean=la.amean, min=la.amin, max=la.amax, all=la.aall, any=la.aany, argmax=la.argmax, argmin=la.argmin, cumsum=jnp["cumsum"], cumprod=jnp["cumprod"], ravel=ravel, flatten=ravel, transpose=transpose, dot=la.dot, squeeze=squeeze, swapaxes=swapaxes,
                clip=la.clip, take=la.take, repeat=la.repeat, diagonal=diagonal, trace=trace_, round=round_)
    lib.ARRM.update(arrm)
    for t in M.values():
        for k, v in (t or {}).items():
            if k in ("clip", "atleast_1d", "atleast_2d", "atleast_3d", "vectorize", "callback") and isinstance(v, Builtin):
                v.lenient = True
    return M


def _multidot(I, xs):
    xs = [A(x) for x in I.iterate(xs)]
    r = xs[0]
    for x in xs[1:]:
        r = la.matmul(r, x)
    return r


_tables = None
_mods = {}


def tables():
    global _tables
    if _tables is None:
        _tables = build()
    return _tables


def has_module(name):
    return name in tables()


def module(name):
    t = tables()
    if name not in _mods:
        if name in t and t[name] is not None:
            m = Mod(name, t[name])
        else:
            m = Mod(name, {}, opaque=True)
        _mods[name] = m
    return _mods[name]
