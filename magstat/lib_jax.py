"""Model of jax transformations, control flow, PRNG, pytrees, jaxopt helpers and flax modules."""
from __future__ import annotations
from fractions import Fraction

import numpy as np

from . import terms as tm, nf
from .terms import T, const, ZERO, ONE
from .values import *
from . import lib_arr as la
from .lib_arr import A, box

NUMLIKE = (Arr, T, int, Fraction)


# -------------------------------------------------------------------- pytrees
class TreeDef:
    def __init__(self, spec):
        self.spec = spec

    def __eq__(self, o):
        return isinstance(o, TreeDef) and self.spec == o.spec

    def __hash__(self):
        return hash(self.spec)


def flatten(I, t, is_leaf=None):
    if is_leaf is not None and I.truth(I.call(is_leaf, [t], {})) in (True, tm.TRUE):
        return [t], ("leaf",)
    if t is None:
        return [], ("none",)
    if isinstance(t, (tuple, list)):
        ls, specs = [], []
        for x in t:
            l, s = flatten(I, x, is_leaf)
            ls += l
            specs.append(s)
        return ls, ("tuple" if isinstance(t, tuple) else "list", tuple(specs))
    if isinstance(t, dict):
        ls, specs = [], []
        keys = sorted(t, key=str)
        for k in keys:
            l, s = flatten(I, t[k], is_leaf)
            ls += l
            specs.append(s)
        return ls, ("dict", tuple(keys), tuple(specs))
    if isinstance(t, Instance):
        if t.cls.kind == "namedtuple":
            ls, specs = [], []
            for f in t.cls.fields:
                l, s = flatten(I, t.attrs[f[0]], is_leaf)
                ls += l
                specs.append(s)
            return ls, ("nt", t.cls, tuple(specs))
        if t.cls.pytree:
            r = I.call(I.getattr(t, "tree_flatten"), [], {})
            ch, aux = r
            ls, specs = [], []
            for x in I.iterate(ch):
                l, s = flatten(I, x, is_leaf)
                ls += l
                specs.append(s)
            return ls, ("node", t.cls, tuple(specs), aux if not isinstance(aux, list) else tuple(aux))
    if isinstance(t, Choice):
        la_, sa = flatten(I, t.a, is_leaf)
        lb_, sb = flatten(I, t.b, is_leaf)
        if sa == sb:
            return [I.merge(t.c, x, y) for x, y in zip(la_, lb_)], sa
        raise Unsupported("gated pytree")
    if isinstance(t, Opaque):
        raise Unsupported(f"pytree of {t}")
    return [t], ("leaf",)


def unflatten(I, spec, leaves):
    it = iter(leaves)

    def go(s):
        k = s[0]
        if k == "leaf":
            return next(it)
        if k == "none":
            return None
        if k == "tuple":
            return tuple(go(x) for x in s[1])
        if k == "list":
            return [go(x) for x in s[1]]
        if k == "dict":
            return {kk: go(x) for kk, x in zip(s[1], s[2])}
        if k == "nt":
            o = Instance(s[1])
            for f, x in zip(s[1].fields, s[2]):
                o.attrs[f[0]] = go(x)
            return o
        if k == "node":
            ch = tuple(go(x) for x in s[2])
            return I.call(I.getattr(s[1], "tree_unflatten"), [s[3], ch], {})
        raise Unsupported("treedef")

    return go(spec)


def flatten_up_to(I, spec, t):
    """leaves of t at the leaves of spec (prefix)"""
    k = spec[0]
    if k == "leaf":
        return [t]
    if k == "none":
        if t is not None:
            pyraise("ValueError", "pytree mismatch: expected None")
        return []
    if k in ("tuple", "list"):
        if not isinstance(t, tuple if k == "tuple" else list) or len(t) != len(spec[1]):
            pyraise("ValueError", f"pytree mismatch: expected {k} of {len(spec[1])}")
        return [l for s, x in zip(spec[1], t) for l in flatten_up_to(I, s, x)]
    if k == "dict":
        if not isinstance(t, dict) or sorted(t, key=str) != list(spec[1]):
            pyraise("ValueError", "pytree mismatch: dict keys")
        return [l for kk, s in zip(spec[1], spec[2]) for l in flatten_up_to(I, s, t[kk])]
    if k == "nt":
        if not (isinstance(t, Instance) and t.cls is spec[1]):
            pyraise("ValueError", "pytree mismatch: namedtuple")
        return [l for f, s in zip(spec[1].fields, spec[2]) for l in flatten_up_to(I, s, t.attrs[f[0]])]
    if k == "node":
        if not (isinstance(t, Instance) and t.cls is spec[1]):
            pyraise("ValueError", "pytree mismatch: node type")
        ch, aux = I.call(I.getattr(t, "tree_flatten"), [], {})
        return [l for s, x in zip(spec[2], I.iterate(ch)) for l in flatten_up_to(I, s, x)]
    raise Unsupported("treedef")


def tree_map(I, f, tree, *rest, is_leaf=None):
    ls, spec = flatten(I, tree, is_leaf)
    others = [flatten_up_to(I, spec, r) for r in rest]
    return unflatten(I, spec, [I.call(f, [x] + [o[i] for o in others], {}) for i, x in enumerate(ls)])


def hmap(I, f, tree, *rest):
    """tree_map with a host function"""
    ls, spec = flatten(I, tree)
    others = [flatten_up_to(I, spec, r) for r in rest]
    return unflatten(I, spec, [f(x, *[o[i] for o in others]) for i, x in enumerate(ls)])


def tree_leaves(I, tree, is_leaf=None):
    return flatten(I, tree, is_leaf)[0]


def tree_reduce(I, f, tree, initializer=MISSING, is_leaf=None):
    ls = flatten(I, tree, is_leaf)[0]
    if initializer is not MISSING:
        ls = [initializer] + ls
    if not ls:
        pyraise("TypeError", "reduce of empty sequence")
    r = ls[0]
    for x in ls[1:]:
        r = I.call(f, [r, x], {})
    return r


# jaxopt.tree_util
def tree_add(I, a, b):
    return hmap(I, lambda x, y: I.binop("Add", x, y), a, b)


def tree_sub(I, a, b):
    return hmap(I, lambda x, y: I.binop("Sub", x, y), a, b)


def tree_mul(I, a, b):
    return hmap(I, lambda x, y: I.binop("Mult", x, y), a, b)


def tree_div(I, a, b):
    return hmap(I, lambda x, y: I.binop("Div", x, y), a, b)


def tree_scalar_mul(I, s, t):
    return hmap(I, lambda x: I.binop("Mult", s, x), t)


def tree_add_scalar_mul(I, a, s, b):
    return hmap(I, lambda x, y: I.binop("Add", x, I.binop("Mult", s, y)), a, b)


def tree_negative(I, t):
    return hmap(I, lambda x: I.unop("USub", x), t)


def tree_vdot(I, a, b):
    vs = flatten(I, hmap(I, lambda x, y: la.vdot(I, x, y), a, b))[0]
    r = vs[0] if vs else 0
    for v in vs[1:]:
        r = I.binop("Add", r, v)
    return r


def tree_dot(I, a, b):
    return hmap(I, lambda x, y: la.dot(I, x, y), a, b)


def tree_sum(I, t):
    vs = flatten(I, hmap(I, lambda x: la.asum(I, x), t))[0]
    r = vs[0] if vs else 0
    for v in vs[1:]:
        r = I.binop("Add", r, v)
    return r


def tree_l2_norm(I, t, squared=False):
    s = tree_sum(I, hmap(I, lambda x: I.binop("Mult", A(x), A(x)), t))
    sqd = I.truth(squared)
    if sqd is True:
        return s
    return ew(lambda v: la.sqrt_t(I, v), s, kind="f")


def tree_zeros_like(I, t):
    return hmap(I, lambda x: la.full(A(x).shape, ZERO, A(x).kind), t)


def tree_ones_like(I, t):
    return hmap(I, lambda x: la.full(A(x).shape, ONE, A(x).kind), t)


def tree_where(I, c, a, b):
    return hmap(I, lambda x, y: la.where(I, c, x, y), a, b)


def ravel_pytree(I, t):
    ls, spec = flatten(I, t)
    arrs = [A(x) for x in ls]
    flat = np.concatenate([x.a.reshape(-1) for x in arrs]) if arrs else np.empty((0,), dtype=object)
    k = pkind(*[x.kind for x in arrs]) if arrs else "f"

    def unravel(I, v):
        v = A(v)
        out, p = [], 0
        for x in arrs:
            out.append(Arr(v.a[p : p + x.size].reshape(x.shape), x.kind))
            p += x.size
        return unflatten(I, spec, out)

    return Arr(flat, k), Builtin("unravel", unravel)


# ---------------------------------------------------------------- AD
def subst_tree(I, m, t):
    memo = {}

    def f(x):
        if isinstance(x, Arr):
            out = np.empty(x.a.shape, dtype=object)
            for i in np.ndindex(*x.a.shape):
                out[i] = tm.subst(x.a[i], m, memo)
            return Arr(out, x.kind)
        if isinstance(x, T):
            return tm.subst(x, m, memo)
        return x

    if isinstance(t, Choice):
        return Choice(tm.subst(t.c, m, memo), subst_tree(I, m, t.a), subst_tree(I, m, t.b))
    return hmap(I, f, t)


def trace(I, f, args, which, kwargs=None):
    """call f with fresh symbols in place of the float leaves of args[i], i in which.
    returns out, fresh: {i: (leaves list of Arr of symbols, spec)}, m: {sym -> primal term}"""
    new = list(args)
    fresh, m = {}, {}
    for i in which:
        ls, spec = flatten(I, args[i])
        fl = []
        for x in ls:
            x = A(x)
            if x.kind != "f":
                pyraise("TypeError", "differentiation requires real inputs (got an integer/boolean/key array)")
            s = np.empty(x.a.shape, dtype=object)
            for j in np.ndindex(*x.a.shape):
                s[j] = tm.fresh("_d")
                m[s[j]] = tm.as_num(x.a[j])
            fl.append(Arr(s, "f"))
        fresh[i] = (fl, spec)
        new[i] = unflatten(I, spec, fl)
    n0 = len(I.events)
    out = I.call(f, new, kwargs or {})
    memo = {}
    for e in I.events[n0:]:
        if e.kind == "sqrt":
            e.data = (tm.subst(e.data[0], m, memo),)
            I.__dict__.setdefault("ad_events", set()).add(id(e))
            e.kind = "sqrt-ad"
        elif e.kind == "sqrt-ad":
            e.data = (tm.subst(e.data[0], m, memo),)
        elif e.kind == "div" and not (tm.syms(e.data[0]) | tm.syms(e.data[1])).isdisjoint(m):
            e.data = (tm.subst(e.data[0], m, memo),)
            e.kind = "div-ad"
        elif e.kind == "div-ad":
            e.data = (tm.subst(e.data[0], m, memo),)
    return out, fresh, m


def d(t, x):
    try:
        return tm.diff(tm.as_num(t) if tm.is_bool(t) else t, x)
    except NotImplementedError as e:
        raise Unsupported(str(e))


def jvp(I, f, primals, tangents, has_aux=False):
    primals, tangents = I.iterate(primals), I.iterate(tangents)
    if len(primals) != len(tangents):
        pyraise("TypeError", "primal and tangent arguments to jax.jvp do not match")
    out, fresh, m = trace(I, f, primals, range(len(primals)))
    aux = None
    if has_aux:
        out, aux = out
    pairs = []
    for i in range(len(primals)):
        fl, spec = fresh[i]
        tl = flatten_up_to(I, spec, tangents[i])
        for s, t in zip(fl, tl):
            t = A(t)
            if t.kind != "f":
                pyraise("TypeError", "primal and tangent dtypes do not match")
            if t.shape != s.shape:
                pyraise("ValueError", f"jvp called with different primal and tangent shapes {s.shape} {t.shape}")
            pairs += list(zip(s.flat(), t.flat()))
    memo = {}

    def tang(x):
        x = A(x)
        r = np.empty(x.a.shape, dtype=object)
        for j in np.ndindex(*x.a.shape):
            if x.kind != "f":
                r[j] = ZERO
                continue
            r[j] = tm.add(*[tm.mul(tm.subst(d(x.a[j], s), m, memo), t) for s, t in pairs if t is not ZERO] or [ZERO])
        return Arr(r, "f")

    tout = hmap(I, tang, out)
    pout = subst_tree(I, m, hmap(I, A, out))
    if has_aux:
        return pout, tout, subst_tree(I, m, aux)
    return pout, tout


def _argnums(I, argnums):
    if isinstance(argnums, (tuple, list)):
        return [I.int_(x) for x in argnums], True
    return [I.int_(argnums)], False


def jacobian(I, f, argnums=0, has_aux=False, holomorphic=False, allow_int=False, name="jac", reverse=False):
    nums, multi = _argnums(I, argnums)

    def call(I, *args, **kwargs):
        args = list(args)
        idx = []
        for n in nums:
            if n >= len(args) or n < -len(args):
                pyraise("ValueError", f"argnums {n} out of range for {len(args)} positional arguments")
            idx.append(n % len(args))
        out, fresh, m = trace(I, f, args, idx, kwargs)
        aux = None
        if has_aux:
            out, aux = pair(I, out)
        memo = {}

        def per_out(x):
            x = A(x)
            res = []
            for i in idx:
                fl, spec = fresh[i]
                parts = []
                for s in fl:
                    r = np.empty(x.a.shape + s.a.shape, dtype=object)
                    for p in np.ndindex(*x.a.shape):
                        for q in np.ndindex(*s.a.shape):
                            r[p + q] = tm.subst(d(x.a[p], s.a[q]), m, memo)
                    parts.append(Arr(r, "f"))
                res.append(unflatten_raw(I, spec, parts))
            return tuple(res) if multi else res[0]

        J = map_out(I, per_out, out)
        if has_aux:
            return J, subst_tree(I, m, aux)
        return J

    b = Builtin(name, call)
    b.attrs["__wrapped__"] = f
    return b


def pair(I, out):
    xs = I.iterate(out)
    if len(xs) != 2:
        pyraise("TypeError", "expected a pair (output, aux)")
    return xs


def unflatten_raw(I, spec, parts):
    """like unflatten, registered node classes are not re-validated (jax does the same for jacobians)"""
    return unflatten(I, spec, parts)


def map_out(I, f, out):
    ls, spec = flatten(I, out)
    return unflatten(I, spec, [f(x) for x in ls])


def value_and_grad(I, f, argnums=0, has_aux=False, holomorphic=False, allow_int=False, only_grad=False, **kw):
    nums, multi = _argnums(I, argnums)

    def call(I, *args, **kwargs):
        args = list(args)
        idx = []
        for n in nums:
            if n >= len(args) or n < -len(args):
                pyraise("ValueError", f"argnums {n} out of range")
            idx.append(n % len(args))
        out, fresh, m = trace(I, f, args, idx, kwargs)
        aux = None
        if has_aux:
            out, aux = pair(I, out)
        if not isinstance(out, NUMLIKE):
            if isinstance(out, (Opaque, Choice)):
                raise Unsupported("grad of opaque output")
            pyraise("TypeError", "Gradient only defined for scalar-output functions")
        o = A(out)
        if o.shape != ():
            pyraise("TypeError", f"Gradient only defined for scalar-output functions. Output had shape: {o.shape}")
        memo = {}
        gs = []
        for i in idx:
            fl, spec = fresh[i]
            parts = []
            for s in fl:
                r = np.empty(s.a.shape, dtype=object)
                for q in np.ndindex(*s.a.shape):
                    r[q] = tm.subst(d(o.item(), s.a[q]), m, memo)
                parts.append(Arr(r, "f"))
            gs.append(unflatten_raw(I, spec, parts))
        g = tuple(gs) if multi else gs[0]
        v = subst_tree(I, m, o)
        if has_aux:
            aux = subst_tree(I, m, aux)
        if only_grad:
            return (g, aux) if has_aux else g
        return ((v, aux), g) if has_aux else (v, g)

    b = Builtin("value_and_grad", call)
    b.attrs["__wrapped__"] = f
    return b


def grad(I, f, argnums=0, has_aux=False, holomorphic=False, allow_int=False, **kw):
    return value_and_grad(I, f, argnums, has_aux, only_grad=True)


def jacfwd(I, f, argnums=0, has_aux=False, holomorphic=False):
    return jacobian(I, f, argnums, has_aux, name="jacfwd")


def jacrev(I, f, argnums=0, has_aux=False, holomorphic=False, allow_int=False):
    return jacobian(I, f, argnums, has_aux, name="jacrev")


def hessian(I, f, argnums=0, has_aux=False, holomorphic=False):
    return jacobian(I, jacobian(I, f, argnums, has_aux), argnums, has_aux, name="hessian")


def linearize(I, f, *primals, has_aux=False):
    out, fresh, m = trace(I, f, list(primals), range(len(primals)))
    aux = None
    if has_aux:
        out, aux = pair(I, out)
    memo = {}

    def lin(I, *tangents):
        if len(tangents) != len(primals):
            pyraise("TypeError", "linearized function called with wrong number of arguments")
        pairs = []
        for i, t in enumerate(tangents):
            fl, spec = fresh[i]
            for s, v in zip(fl, flatten_up_to(I, spec, t)):
                v = A(v)
                if v.shape != s.shape:
                    pyraise("ValueError", "linearized function called on tangent values inconsistent with the original primal values")
                pairs += list(zip(s.flat(), v.flat()))

        def tang(x):
            x = A(x)
            r = np.empty(x.a.shape, dtype=object)
            for j in np.ndindex(*x.a.shape):
                r[j] = tm.add(*[tm.mul(tm.subst(d(x.a[j], s), m, memo), tm.as_num(t)) for s, t in pairs] or [ZERO])
            return Arr(r, "f")

        return map_out(I, tang, out)

    pout = subst_tree(I, m, hmap(I, A, out))
    if has_aux:
        return pout, Builtin("linearized", lin), subst_tree(I, m, aux)
    return pout, Builtin("linearized", lin)


def vjp(I, f, *primals, has_aux=False):
    out, fresh, m = trace(I, f, list(primals), range(len(primals)))
    aux = None
    if has_aux:
        out, aux = pair(I, out)
    ols, ospec = flatten(I, out)
    memo = {}

    def pull(I, ct):
        cts = [A(x) for x in flatten_up_to(I, ospec, ct)]
        res = []
        for i in range(len(primals)):
            fl, spec = fresh[i]
            parts = []
            for s in fl:
                r = np.empty(s.a.shape, dtype=object)
                for q in np.ndindex(*s.a.shape):
                    acc = []
                    for o, c in zip(ols, cts):
                        for t, w in zip(A(o).flat(), c.flat()):
                            acc.append(tm.mul(tm.subst(d(t, s.a[q]), m, memo), w))
                    r[q] = tm.add(*acc) if acc else ZERO
                parts.append(Arr(r, "f"))
            res.append(unflatten_raw(I, spec, parts))
        return tuple(res)

    pout = subst_tree(I, m, hmap(I, A, out))
    if has_aux:
        return pout, Builtin("vjp", pull), subst_tree(I, m, aux)
    return pout, Builtin("vjp", pull)


def custom_rule(kind):
    """a function with its own derivative rule: values come from the body; at each call the rule is compared with the
    derivative of the body, and a difference is recorded (C32)"""

    def make(I, f, nondiff_argnums=(), **kw):
        rule = {}
        nd = sorted({I.int_(k) for k in (I.iterate(nondiff_argnums) if isinstance(nondiff_argnums, (tuple, list)) else [nondiff_argnums])})

        def note(status, why):
            I.event("cut" if status == "violated" else "rule", f"{kind} rule of {getattr(f, 'name', 'a function')} is not its derivative: {why}", None, tuple(s[1] for s in I.stack) or ("?",))

        def verify(args):
            args = [hmap(I, lambda x: A(x) if isinstance(x, NUMLIKE) else x, a) for a in args]
            dif = [k for k in range(len(args)) if k not in nd]
            static = [args[k] for k in nd]

            def full(xs):
                xs = iter(xs)
                return [args[k] if k in nd else next(xs) for k in range(len(args))]

            def sym(x):
                x = A(x)
                if x.kind != "f":
                    raise Unsupported("integer argument of a custom rule")
                return Arr(box(np.array([tm.fresh("_d") for _ in x.flat()] + [None], dtype=object)[:-1].reshape(x.shape)), "f")

            prim = [hmap(I, sym, args[k]) for k in dif]
            body = Builtin("body", lambda I, *xs: I.call(f, full(xs), {}))
            if kind == "custom_jvp":
                if "defjvp" in rule:
                    tan = [hmap(I, sym, args[k]) for k in dif]
                    got = I.call(rule["defjvp"], static + [tuple(prim), tuple(tan)], {})
                    want = jvp(I, body, tuple(prim), tuple(tan))
                elif "defjvps" in rule:
                    tan = [hmap(I, sym, args[k]) for k in dif]
                    out = I.call(body, prim, {})
                    got = [A(ZERO)]
                    for r, t in zip(rule["defjvps"], tan):
                        if r is not None:
                            got = [la.arr_binop(I, "Add", got[0], I.call(r, [t, out] + prim, {}))]
                    got = (out, got[0])
                    want = jvp(I, body, tuple(prim), tuple(tan))
                else:
                    return
            else:
                if "fwd" not in rule:
                    return
                out, res = pair(I, I.call(rule["fwd"], full(prim), {}))
                o, pull = vjp(I, body, *prim)
                ct = hmap(I, sym, o)
                got = (out, tuple(I.iterate(I.call(rule["bwd"], static + [res, ct], {}))))
                want = (o, I.call(pull, [ct], {}))
                g = [y for y, w in zip(got[1], want[1]) if y is not None]
                want = (want[0], tuple(w for y, w in zip(got[1], want[1]) if y is not None))
                if len(g) < len(got[1]):
                    got = (got[0], tuple(g))
            gl, gs = flatten(I, got)
            wl, ws = flatten(I, want)
            if len(gl) != len(wl):
                return note("violated", "another structure")
            for g, w in zip(gl, wl):
                g, w = A(g), A(w)
                if g.shape != w.shape and g.size != 1:
                    return note("violated", f"shape {g.shape} instead of {w.shape}")
                for x, y in zip(g.flat() * (w.size if g.size == 1 else 1), w.flat()):
                    v = nf.decide_eq(x, y)
                    if v.status != "holds":
                        return note(v.status, f"{v.why} {v.witness or ''}")

        def call(I, *a, **k):
            if rule and not k and not I.__dict__.get("in_rule"):
                I.in_rule = True
                n0 = len(I.events)
                try:
                    verify(list(a))
                except Unsupported as e:
                    note("undecided", str(e))
                finally:
                    I.in_rule = False
                    I.events[n0:] = [e for e in I.events[n0:] if e.kind in ("cut", "rule")]
            return I.call(f, list(a), k)

        b = Builtin(kind, call)
        b.attrs["__wrapped__"] = f
        b.attrs["defjvp"] = Builtin("defjvp", lambda I, r, symbolic_zeros=False: rule.__setitem__("defjvp", r) or r)
        b.attrs["defjvps"] = Builtin("defjvps", lambda I, *r: rule.__setitem__("defjvps", r))
        b.attrs["defvjp"] = Builtin("defvjp", lambda I, fwd, bwd, **kw: rule.update(fwd=fwd, bwd=bwd))
        return b

    return lambda I, f=None, **kw: make(I, f, **kw) if f is not None else Builtin(kind, lambda I, g: make(I, g, **kw))


custom_jvp, custom_vjp = custom_rule("custom_jvp"), custom_rule("custom_vjp")


# ------------------------------------------------------------- vmap & friends
def prefix_axes(I, ax, tree):
    """per-leaf axes for a pytree prefix"""
    ls, spec = flatten(I, tree)
    if ax is None or isinstance(ax, int) or isinstance(ax, (Arr, T)):
        a = None if ax is None else I.int_(ax)
        return [a] * len(ls)
    if isinstance(ax, (tuple, list)) and isinstance(tree, (tuple, list)):
        if len(ax) != len(tree):
            pyraise("ValueError", "vmap in_axes mismatch")
        return [y for a, t in zip(ax, tree) for y in prefix_axes(I, a, t)]
    if isinstance(ax, dict) and isinstance(tree, dict):
        return [y for k in sorted(tree, key=str) for y in prefix_axes(I, ax[k], tree[k])]
    raise Unsupported("vmap axes")


def vmap(I, f, in_axes=0, out_axes=0, axis_name=None, axis_size=None, spmd_axis_name=None):
    def call(I, *args, **kwargs):
        axs = prefix_axes(I, in_axes if not isinstance(in_axes, list) else tuple(in_axes), tuple(args))
        ls, spec = flatten(I, tuple(args))
        kls, kspec = flatten(I, kwargs)
        arrs = [A(x) if isinstance(x, NUMLIKE) else x for x in ls]
        karrs = [A(x) for x in kls]
        n = None if axis_size is None else I.int_(axis_size)
        for x, ax in list(zip(arrs, axs)) + [(k, 0) for k in karrs]:
            if ax is None:
                continue
            if not isinstance(x, Arr):
                raise Unsupported("vmap over non-array")
            if x.ndim == 0 or ax >= x.ndim or ax < -x.ndim:
                pyraise("ValueError", f"vmap was requested to map its argument along axis {ax}, but the array has rank {x.ndim}")
            sz = x.shape[ax]
            if n is not None and sz != n:
                pyraise("ValueError", f"vmap got inconsistent sizes for array axes to be mapped: {n} and {sz}")
            n = sz
        if n is None:
            pyraise("ValueError", "vmap must have at least one non-None value in in_axes")
        if n == 0:  # the function is traced once for its result shapes
            fill = lambda x, ax: x if ax is None else Arr(np.insert(x.a, 0, tm.ufun("empty", (), []), axis=ax), x.kind)
            arrs, karrs = [fill(x, ax) for x, ax in zip(arrs, axs)], [fill(x, 0) for x in karrs]
        outs = []
        for i in range(max(n, 1)):
            sl = [x if ax is None else Arr(box(np.take(x.a, i, axis=ax)), x.kind) for x, ax in zip(arrs, axs)]
            sk = [Arr(box(x.a[i]), x.kind) for x in karrs]
            outs.append(I.call(f, list(unflatten(I, spec, sl)), unflatten(I, kspec, sk)))
        fl = [flatten(I, o) for o in outs]
        if any(s != fl[0][1] for _, s in fl):
            raise Unsupported("vmap output structure")
        oax = prefix_axes(I, out_axes, outs[0])
        res = []
        for j in range(len(fl[0][0])):
            parts = [A(o[0][j]) for o in fl]
            if oax[j] is None:
                res.append(parts[0])
            else:
                r = la.stack(I, parts, oax[j])
                res.append(r if n else Arr(np.take(r.a, [], axis=oax[j]), r.kind))
        return unflatten(I, fl[0][1], res)

    b = Builtin("vmap", call)
    b.attrs["__wrapped__"] = f
    return b


def apply_along_axis(I, f, axis, arr, *args, **kwargs):
    arr = A(arr)
    ax = la.axes_of(I, axis, arr.ndim)[0]
    m = np.moveaxis(arr.a, ax, -1)
    batch = m.shape[:-1]
    outs = []
    for i in np.ndindex(*batch):
        outs.append(I.call(f, [Arr(m[i].copy(), arr.kind)] + list(args), dict(kwargs)))
    fl = [flatten(I, o) for o in outs]
    res = []
    for j in range(len(fl[0][0])):
        parts = [A(o[0][j]) for o in fl]
        sh = parts[0].a.shape
        r = np.empty(batch + sh, dtype=object)
        for i, p in zip(np.ndindex(*batch), parts):
            if p.a.shape != sh:
                pyraise("ValueError", "apply_along_axis shape")
            r[i] = p.a if sh else p.a[()]
        # result dimensions are inserted where `axis` was
        if sh and ax < len(batch):
            src = list(range(len(batch), len(batch) + len(sh)))
            r = np.moveaxis(r, src, list(range(ax, ax + len(sh))))
        res.append(Arr(box(r), parts[0].kind))
    return unflatten(I, fl[0][1], res)


def cond(I, pred, true_fun, false_fun, *operands, operand=MISSING, linear=None):
    if operand is not MISSING:
        operands = (operand,)
    p = A(pred)
    if p.shape != ():
        pyraise("TypeError", "Pred must be a scalar")
    t = I.truth(p, True)
    if t is True or t is tm.TRUE:
        return I.call(true_fun, list(operands), {})
    if t is False or t is tm.FALSE:
        return I.call(false_fun, list(operands), {})
    I.path.append((t, True))
    a = I.call(true_fun, list(operands), {})
    I.path.pop()
    I.path.append((t, False))
    b = I.call(false_fun, list(operands), {})
    I.path.pop()
    fa, sa = flatten(I, a)
    fb, sb = flatten(I, b)
    if sa != sb:
        pyraise("TypeError", "true_fun and false_fun output must have identical types")
    out = []
    for x, y in zip(fa, fb):
        xx, yy = A(x), A(y)
        if xx.shape != yy.shape:
            pyraise("TypeError", "true_fun and false_fun output must have identical shapes")
        out.append(A(I.merge(t, xx, yy)))
    return unflatten(I, sa, out)


def switch(I, index, branches, *operands):
    bs = I.iterate(branches)
    t = A(index).item()

    def at(i):
        return I.call(bs[la.clamp(i, len(bs)) if i >= 0 else 0], list(operands), {})

    def mg(c, a, b):
        return I.merge(c, a, b)

    return lift_index(t, at, mg)


def select(I, pred, a, b):
    return la.where(I, pred, a, b)


def scan(I, f, init, xs=None, length=None, reverse=False, unroll=1, **kw):
    ls, spec = flatten(I, xs)
    arrs = [A(x) for x in ls]
    if arrs:
        n = arrs[0].shape[0]
        if any(x.ndim == 0 or x.shape[0] != n for x in arrs):
            pyraise("ValueError", "scan got values with different leading axis sizes")
    else:
        n = I.int_(length)
    if n > 400:
        raise Unsupported("long scan")
    rev = I.truth(reverse) is True
    carry = hmap(I, lambda x: A(x) if isinstance(x, NUMLIKE) else x, init)
    cspec = flatten(I, carry)[1]
    ys = [None] * n
    for i in range(n - 1, -1, -1) if rev else range(n):
        x = unflatten(I, spec, [Arr(box(a.a[i]), a.kind) for a in arrs])
        r = I.call(f, [carry, x], {})
        carry, y = pair(I, r)
        if flatten(I, carry)[1] != cspec:
            pyraise("TypeError", "scan body function carry input and carry output must have the same pytree structure")
        carry = hmap(I, lambda x: A(x) if isinstance(x, NUMLIKE) else x, carry)
        ys[i] = y
    if n == 0:
        # structure of the outputs is known to jax by tracing: analyse the body once on an arbitrary element
        x = unflatten(I, spec, [Arr(box(np.array([tm.fresh("_x") for _ in range(int(np.prod(a.shape[1:], dtype=int)))], dtype=object).reshape(a.shape[1:])), a.kind) for a in arrs])
        _, y = pair(I, I.call(f, [carry, x], {}))
        yl, yspec = flatten(I, y)
        return carry, unflatten(I, yspec, [Arr(np.empty((0,) + A(v).shape, dtype=object), A(v).kind) for v in yl])
    fl = [flatten(I, y) for y in ys]
    out = unflatten(I, fl[0][1], [la.stack(I, [o[0][j] for o in fl], 0) for j in range(len(fl[0][0]))])
    return carry, out


def fori_loop(I, lo, hi, body, init, **kw):
    lo, hi = I.int_(lo), I.int_(hi)
    if hi - lo > 60:
        raise Unsupported("long fori_loop")
    s = init
    for i in range(lo, hi):
        s = I.call(body, [A(i), s], {})
    return s


def map_(I, f, xs, **kw):
    return I.call(vmap(I, f), [xs], {})


def while_loop(I, cond_fun, body_fun, init, maxiter=None):
    """unrolled up to a bound with gated joins; beyond the bound the state is unknown (havoc)"""
    state = hmap(I, lambda x: A(x) if isinstance(x, NUMLIKE) else x, init)
    I.event("loop", cond_fun, body_fun, state, maxiter)
    if maxiter is None:
        I.event("cut", "while_loop (no reverse mode)", state, tuple(s[1] for s in I.stack))
    bound = getattr(I, "while_bound", 3)
    mi = None
    if maxiter is not None:
        mi = I.int_(maxiter)
    n = bound if mi is None else min(bound, mi)
    spec0 = flatten(I, state)[1]

    def resolve(st, c):
        """the state under the continuation condition just tested"""
        if not isinstance(c, T):
            return st

        def one(x):
            if not isinstance(x, Arr) or x.kind == "k":
                return x
            r = np.empty(x.a.shape, dtype=object)
            for i in np.ndindex(*x.a.shape):
                r[i] = nf.under(x.a[i], c)
            return Arr(la.box(r), x.kind)

        return hmap(I, one, st)

    def go(state, k):
        c = I.truth(I.call(cond_fun, [state], {}), True)
        if c is False or c is tm.FALSE:
            return state
        if k == n:
            if mi is not None and mi <= n:
                return state

            def hv(x):
                if not isinstance(x, Arr):
                    return x
                r = np.empty(x.a.shape, dtype=object)
                for i in np.ndindex(*x.a.shape):
                    r[i] = havoc(x.kind)
                return Arr(r, x.kind)

            h = hmap(I, hv, state)
            return h if c is True else I.merge(c, h, state)
        if c is not True:
            I.path.append((c, True))
        try:
            new = I.call(body_fun, [resolve(state, c)], {})
            new = hmap(I, lambda x: A(x) if isinstance(x, NUMLIKE) else x, new)
            if flatten(I, new)[1] != spec0:
                pyraise("TypeError", "while_loop body_fun output and input must have identical types")
            for x, y in zip(flatten(I, state)[0], flatten(I, new)[0]):
                if isinstance(x, Arr) and isinstance(y, Arr) and x.shape != y.shape:
                    pyraise("TypeError", "while_loop body shapes")
            last = go(new, k + 1)
        finally:
            if c is not True:
                I.path.pop()
        return last if c is True else I.merge(c, last, state)

    if mi is not None and mi <= 0:
        return state
    return go(state, 0)


def havoc(kind):
    if kind == "k":
        tm._fresh[0] += 1
        return tm.mk("key", f"havoc#{tm._fresh[0]}")
    if kind == "b":
        tm._fresh[0] += 1
        return tm.boolsym(f"havoc#{tm._fresh[0]}")
    return tm.fresh("havoc")


# -------------------------------------------------------------------- random
def key_term(I, k):
    k = A(k) if not isinstance(k, Arr) else k
    if k.kind == "k" and k.shape == ():
        return k.item()
    if k.kind == "k":
        pyraise("ValueError", f"key must be a single PRNG key, got shape {k.shape}")
    raise Unsupported("raw key data")


def use_key(I, k, what):
    t = key_term(I, k)
    I.event("key-use", t, what)
    return t


def PRNGKey(I, seed, impl=None, **kw):
    if isinstance(seed, int):
        return Arr(tm.mk("key", f"seed{seed}"), "k")
    t = A(seed).item()
    return Arr(tm.mk("key", "seed", (t,)), "k")


def split(I, key, num=2):
    t = use_key(I, key, "split")
    shape = la.shape_of(I, num)
    n = int(np.prod(shape, dtype=int))
    a = np.empty((n,), dtype=object)
    for i in range(n):
        a[i] = tm.mk("split", (i, n), (t,))
    return Arr(a.reshape(shape), "k")


def fold_in(I, key, data):
    t = key_term(I, key)
    v = A(data).item()
    I.event("key-use", t, "fold_in", v)
    return Arr(tm.mk("fold", None, (t, v)), "k")


def rnd(kind):
    def f(I, key, shape=(), dtype=None, minval=0, maxval=1, **kw):
        t = use_key(I, key, kind)
        s = la.shape_of(I, shape) if shape is not None else ()
        a = np.empty(s, dtype=object)
        for i in np.ndindex(*s):
            a[i] = tm.mk("rnd", (kind, i, s), (t,))
        r = Arr(box(a), "f")
        if kind == "uniform" and not (minval == 0 and maxval == 1 and not isinstance(minval, (Arr, T)) and not isinstance(maxval, (Arr, T))):
            lo, hi = A(minval), A(maxval)
            r = ew(lambda u, p, q: tm.add(p, tm.mul(u, tm.sub(q, p))), r, lo, hi, kind="f")
        return r

    return f


def randint(I, key, shape, minval, maxval, dtype=None):
    t = use_key(I, key, "randint")
    s = la.shape_of(I, shape)
    a = np.empty(s, dtype=object)
    lo, hi = A(minval).item(), A(maxval).item()
    for i in np.ndindex(*s):
        a[i] = tm.mk("rnd", ("randint", i, s), (t, lo, hi))
    return Arr(box(a), "i")


def permutation(I, key, x, axis=0, independent=False):
    t = use_key(I, key, "permutation")
    if isinstance(x, int) or isinstance(x, Arr) and x.ndim == 0:
        n = I.int_(x)
        arr = None
    else:
        arr = A(x)
        n = arr.shape[I.int_(axis)]
    p = np.empty((n,), dtype=object)
    for i in range(n):
        p[i] = tm.mk("rnd", ("perm", i, n), (t,))
    P = Arr(p, "i")
    if arr is None:
        return P
    return la.take(I, arr, P, axis=axis)


def choice(I, key, a, shape=(), replace=True, p=None, axis=0, mode=None):
    t = use_key(I, key, "choice")
    if p is not None:
        raise Unsupported("choice with p")
    s = la.shape_of(I, shape)
    rep = I.truth(replace)
    if not isinstance(rep, bool):
        raise Unsupported("symbolic replace flag")
    if isinstance(a, int) or isinstance(a, Arr) and a.ndim == 0:
        n, arr = I.int_(a), None
    else:
        arr = A(a)
        n = arr.shape[0]
    m = int(np.prod(s, dtype=int))
    if not rep and m > n:
        pyraise("ValueError", "Cannot take a larger sample than population when replace is False")
    idx = np.empty((m,), dtype=object)
    for i in range(m):
        idx[i] = tm.mk("rnd", ("choice" if rep else "perm", i, n), (t,))
    P = Arr(idx.reshape(s), "i")
    if arr is None:
        return P
    return la.take(I, arr, P, axis=0)


# ---------------------------------------------------------------- user functions
def call_ufun(I, f, args, kwargs):
    n = len(f.params)
    kw = dict(kwargs)
    if not f.varargs:
        if len(args) > n - len(f.kwonly):
            pyraise("TypeError", f"{f.name}() takes {n - len(f.kwonly)} positional arguments but {len(args)} were given")
        vals = list(args)
        for p in f.params[len(args) :]:
            if p in kw:
                vals.append(kw.pop(p))
            elif p in f.defvals:
                vals.append(f.defvals[p])
            elif f.params.index(p) >= n - f.defaults:
                vals.append(None)
            else:
                pyraise("TypeError", f"{f.name}() missing required positional argument: '{p}'")
        for p in f.params[: len(args)]:
            if p in kw:
                pyraise("TypeError", f"{f.name}() got multiple values for argument '{p}'")
        if kw:
            pyraise("TypeError", f"{f.name}() got an unexpected keyword argument '{next(iter(kw))}'")
    else:
        vals = list(args) + [kw[k] for k in sorted(kw)]
    f.calls.append((list(args), dict(kwargs), I.loc()))
    ts = []
    first = None
    for j, v in enumerate(vals):
        for x in flatten(I, v)[0]:
            if not isinstance(x, NUMLIKE):
                if isinstance(x, str):
                    continue
                raise Unsupported(f"argument {type(x).__name__} of user function {f.name}")
            x = A(x)
            if f.elementwise and j == 0:
                first = x
                continue
            ts += [tm.as_num(t) if not tm.is_key(t) else t for t in x.flat()]
    for t in ts:
        if tm.is_key(t):
            I.event("key-use", t, f.name)
    if f.elementwise:
        if first is None:
            pyraise("TypeError", f"{f.name}() missing argument")
        out = np.empty(first.a.shape, dtype=object)
        for i in np.ndindex(*first.a.shape):
            out[i] = tm.ufun(f.name, (), [tm.as_num(first.a[i])] + ts)
        return Arr(box(out), "f")

    def make(o, tag):
        if o is None:
            return None
        if isinstance(o, tuple) and all(isinstance(x, int) for x in o):
            a = np.empty(o, dtype=object)
            for i in np.ndindex(*o):
                a[i] = tm.ufun(f.name, tag + i, ts)
            return Arr(box(a), f.kind)
        if isinstance(o, dict):
            return {k: make(v, tag + (k,)) for k, v in o.items()}
        if isinstance(o, list):
            return [make(v, tag + (f"#{i}",)) for i, v in enumerate(o)]
        if isinstance(o, PairOut):
            return tuple(make(v, tag + (f"#{i}",)) for i, v in enumerate(o.items))
        raise Unsupported("user function output")

    return make(f.out, ())


class PairOut:
    """tuple-valued output of an uninterpreted function"""

    def __init__(self, *items):
        self.items = items
