"""C17 imposed conditions, C18 network builders."""
from .common import *


def B(f):
    return Builtin("spec", f)


def U(name, *params, out=()):
    return UFun(name, out, params)


# ------------------------------------------------------------------------------------------------ C17
def box(a, f):
    return Arr(la.box(np.vectorize(f, otypes=[object])(as_arr(a).a)), "f")


def both(c, builder, first, model, kw):
    """direct use (positional and by keyword) and use as a decorator"""
    f = c.get(builder)
    yield "direct", lambda: c.call(f, first, model, **kw)
    yield "keyword", lambda: c.call(f, first, model=model, **kw)
    yield "decorator", lambda: c.call(c.call(f, first, **kw), model)


@ob("C17", "dirichlet-formula", "model.impose_dirichlet_bc")
def _(c):
    x, t, p, q = c.vec("x", 2), c.s("t"), {"w": c.vec("w", 2)}, c.s("q")
    for out in ((), (2,)):
        for mode in range(6):
            adf, g, u = U("l", "x"), U("g", "x", out=out), U("u", "x", "t", "p", "q", out=out)
            kw, args = {}, (x, t, p)
            ai, gi = [0], [0]
            if mode == 1:
                adf, g = U("l", "x", "t"), U("g", "t", "x", out=out)
                kw = dict(argnums_adf=[0, 1], argnums_g=(1, 0))
                ai, gi = [0, 1], [1, 0]
            elif mode == 2:
                adf, g = U("l", "x"), U("g", "t", out=out)
                args = (p, x, t)
                kw = dict(argnums_adf=1, argnums_g=2)
                ai, gi = [1], [2]
            elif mode == 3:
                adf, g = U("l", "p", "x"), U("g", "x", "p", out=out)
                args = (p, x, t)
                kw = dict(argnums_adf=(0, 1), argnums_g=[1, 0])
                ai, gi = [0, 1], [1, 0]
            elif mode == 4:
                # any order, also one that is not sorted
                adf, g = U("l", "t", "x"), U("g", "p", "t", "x", out=out)
                kw = dict(argnums_adf=(1, 0), argnums_g=[2, 1, 0])
                ai, gi = [1, 0], [2, 1, 0]
            elif mode == 5:
                # one argument used twice, and counted from the end
                adf, g = U("l", "a", "b"), U("g", "a", "b", out=out)
                kw = dict(argnums_adf=[0, 0], argnums_g=(-2, 0))
                ai, gi = [0, 0], [1, 0]
            lv = item(c.call(adf, *[args[i] for i in ai]))
            gv = c.call(g, *[args[i] for i in gi])
            uv = c.call(u, *args, q=q)
            want = nparr(out, lambda *i: tm.add(tm.mul(lv, uv.a[i]), gv.a[i]))
            zero = nparr(out, lambda *i: tm.mul(lv, uv.a[i]))
            for nm, mk in both(c, "model.impose_dirichlet_bc", adf, u, dict(kw, g=g)):
                lab = f"{nm} args={mode} out={out}"

                def go():
                    r = c.call(mk(), *args, q=q)
                    # the statement of the property: prescribed value where the distance function vanishes ...
                    ra = as_arr(r)
                    c.eq(f"{lab}: value where adf = 0", Arr(la.box(np.vectorize(lambda z: subst(z, {lv: ZERO}), otypes=[object])(ra.a)), "f"), gv)
                    # ... and the network, with all its arguments, everywhere else
                    c.eq(f"{lab}: adf * network + g", r, want)
                    # the same function also to first order, in particular on the boundary itself
                    if mode != 5:
                        for s in fl(x) + [t.item()]:
                            c.eq(f"{lab}: first derivative", box(ra, lambda z: D(z, s)), box(want, lambda z: D(z, s)))

                c.part(lab, go)
            if mode in (0, 2):
                k2 = {k: v for k, v in kw.items() if k != "argnums_g"}
                for nm, mk in both(c, "model.impose_dirichlet_bc", adf, u, k2):
                    c.part(f"{nm} default g {mode} {out}", lambda: c.eq(f"{nm}: homogeneous by default args={mode} out={out}", c.call(mk(), *args, q=q), zero))


@ob("C17", "dirichlet-g-positional", "model.impose_dirichlet_bc")
def _(c):
    x, t = c.vec("x", 2), c.s("t")
    adf, g, u = U("l", "x"), U("g", "t"), U("u", "x", "t")
    lv, gv, uv = item(c.call(adf, x)), item(c.call(g, t)), item(c.call(u, x, t))
    f = c.call("model.impose_dirichlet_bc", adf, u, g, 0, 1)
    c.eq("argnums given by position", c.call(f, x, t), tm.add(tm.mul(lv, uv), gv))
    # the imposed model can itself be constrained again
    g2 = U("g2", "x")
    adf2 = U("l2", "x")
    f2 = c.call("model.impose_dirichlet_bc", adf2, f, g2)
    c.eq("constraints can be stacked", c.call(f2, x, t), tm.add(tm.mul(item(c.call(adf2, x)), tm.add(tm.mul(lv, uv), gv)), item(c.call(g2, x))))


@ob("C17", "neumann-normal-derivative", "model.impose_neumann_bc")
def _(c):
    t, q = c.s("t"), c.s("q")
    p = {"w": c.vec("w", 2)}
    for dim in (1, 2, 3):
        x = c.vec("x", dim)
        # unit normal of the distance function, parametrised
        if dim == 1:
            unit = [[ONE], [const(-1)]]
        elif dim == 2:
            a = c.sym("a")
            unit = [[tm.fn("cos", a), tm.fn("sin", a)]]
        else:
            a, b = c.sym("a"), c.sym("b")
            unit = [[tm.mul(tm.fn("cos", a), tm.fn("cos", b)), tm.mul(tm.fn("sin", a), tm.fn("cos", b)), tm.fn("sin", b)]]
        for mode in range(3):
            h, u = U("h", "x"), U("u", "x", "t", "p", "q")
            adf = U("l", "x")
            args, kw, xi, ai, hi = (x, t, p), {}, 0, [0], [0]
            if mode == 1:
                args, kw, xi, ai, hi = (p, x, t), dict(argnums_adf=1, argnum_model=1, argnums_h=2), 1, [1], [2]
                h = U("h", "t")
            if mode == 2:
                adf, h = U("l", "x", "t"), U("h", "t", "x")
                args, kw, xi, ai, hi = (p, t, x), dict(argnums_adf=[2, 1], argnum_model=2, argnums_h=(1, 2)), 2, [2, 1], [1, 2]
            lv = item(c.call(adf, *[args[i] for i in ai]))
            hv = item(c.call(h, *[args[i] for i in hi]))
            uv = item(c.call(u, *args, q=q))
            for nm, mk in both(c, "model.impose_neumann_bc", adf, u, dict(kw, h=h)):
                for hom in (False, True):
                    if hom and mode == 2:
                        continue
                    lab = f"{nm} dim={dim} args={mode}" + (" default h" if hom else "")

                    def go():
                        mk_ = mk
                        if hom:
                            k2 = {k: v for k, v in kw.items() if k != "argnums_h"}
                            mk_ = dict((n, m) for n, m in both(c, "model.impose_neumann_bc", adf, u, k2))[nm]
                        r = item(c.call(mk_(), *args, q=q))
                        xs = fl(args[xi])
                        nl = [D(lv, s) for s in xs]
                        # value on the boundary: the network's own value
                        c.eq(f"{lab}: network value where adf = 0", subst(r, {lv: ZERO}), uv)
                        grad = [D(r, s) for s in xs]
                        for k, un in enumerate(unit):
                            m = dict(zip(nl, un))
                            # -grad(adf) is the outward normal
                            dn = tm.neg(dotp([subst(subst(z, {lv: ZERO}), m) for z in grad], un))
                            c.eq(f"{lab}: outward normal derivative ({k})", dn, ZERO if hom else hv)
                            # no dependence on the network's normal derivative remains: the imposed model is affine in u
                        want = tm.sub(tm.sub(uv, tm.mul(lv, dotp([D(uv, s) for s in xs], nl))), ZERO if hom else tm.mul(lv, hv))
                        c.eq(f"{lab}: network part", r, want)
                        if not hom:
                            for s in xs:
                                c.eq(f"{lab}: first derivative", D(r, s), D(want, s))

                    c.part(lab, go)


@ob("C17", "neumann-vector-network", "model.impose_neumann_bc")
def _(c):
    x = c.vec("x", 2)
    adf, h, u = U("l", "x"), U("h", "x", out=(2,)), U("u", "x", out=(2,))
    lv, hv, uv = item(c.call(adf, x)), fl(c.call(h, x)), fl(c.call(u, x))
    nl = [D(lv, s) for s in fl(x)]
    want = A([tm.sub(tm.sub(z, tm.mul(lv, dotp([D(z, s) for s in fl(x)], nl))), tm.mul(lv, k)) for z, k in zip(uv, hv)])
    c.eq("vector valued network", c.call(c.call("model.impose_neumann_bc", adf, u, h), x), want)
    c.eq("positional argument numbers", c.call(c.call("model.impose_neumann_bc", U("l", "x"), U("v", "t", "x"), U("k", "t"), 1, 1, 0), c.s("t"), x),
         neumann(c, U("v", "t", "x"), U("l", "x"), U("k", "t"), c.s("t"), x))


def neumann(c, u, l, h, t, x):
    lv, hv, uv = item(c.call(l, x)), item(c.call(h, t)), item(c.call(u, t, x))
    return tm.sub(tm.sub(uv, tm.mul(lv, dotp([D(uv, s) for s in fl(x)], [D(lv, s) for s in fl(x)]))), tm.mul(lv, hv))


@ob("C17", "initial-condition", "model.impose_ic")
def _(c):
    x, t, p, q = c.vec("x", 2), c.s("t"), {"w": c.vec("w", 2)}, c.s("q")
    t0, k = c.s("t0"), c.s("k", 0, None, True)
    for out in ((), (2,)):
        for mode in range(4):
            m0, u = U("m", "x", out=out), U("u", "x", "t", "p", "q", out=out)
            args, kw, mi, T0, K = (x, t, p), {}, [0], ZERO, const(10)
            if mode == 1:
                kw, T0, K = dict(t0=t0, decay_rate=k), t0.item(), k.item()
            elif mode == 2:
                args, mi = (p, x, t), [1, 0]
                m0 = U("m", "x", "p", out=out)
                kw, T0, K = dict(t0=t0, decay_rate=k, argnums_m0=(1, 0), argnum_t=2), t0.item(), k.item()
            elif mode == 3:
                args, mi = (t, x, p), [1]
                kw, T0, K = dict(argnums_m0=1, argnum_t=0, t0=t0), t0.item(), const(10)
            mv = c.call(m0, *[args[i] for i in mi])
            uv = c.call(u, *args, q=q)
            e = tm.fn("exp", tm.neg(tm.mul(K, tm.sub(t.item(), T0))))
            want = nparr(out, lambda *i: tm.add(tm.mul(mv.a[i], e), tm.mul(tm.sub(ONE, e), uv.a[i])))
            for nm, mk in both(c, "model.impose_ic", m0, u, kw):
                lab = f"{nm} args={mode} out={out}"

                def go():
                    r = as_arr(c.call(mk(), *args, q=q))
                    c.eq(f"{lab}: initial model at t0", Arr(la.box(np.vectorize(lambda z: subst(z, {t.item(): T0}), otypes=[object])(r.a)), "f"), mv)
                    c.eq(f"{lab}: exponential blend", r, want)
                    for s in fl(x) + [t.item()]:
                        c.eq(f"{lab}: first derivative", box(r, lambda z: D(z, s)), box(want, lambda z: D(z, s)))

                c.part(lab, go)
    f = c.call("model.impose_ic", U("m", "x"), U("u", "x", "t"), t0, k, 1, 0)
    r = c.call(f, t, x)
    e = tm.fn("exp", tm.neg(tm.mul(k.item(), tm.sub(t.item(), t0.item()))))
    c.eq("parameters by position", r, tm.add(tm.mul(item(c.call(U("m", "x"), x)), e), tm.mul(tm.sub(ONE, e), item(c.call(U("u", "x", "t"), t, x)))))


# ------------------------------------------------------------------------------------------------ C18
def fresh(c, tree, prefix="w"):
    n = [0]

    def one(I, leaf):
        n[0] += 1
        a = as_arr(leaf)
        return c.arr(f"{prefix}{n[0]}_", a.shape)

    return lj.tree_map(c.I, B(one), tree)


def walk_params(tree, path=()):
    if isinstance(tree, dict):
        for k, v in tree.items():
            yield from walk_params(v, path + (k,))
    else:
        yield path, tree


def layers_in_order(params, widths, init=None):
    """[(kernel, bias)] of the dense layers; layers of equal shape are listed in the order of creation"""
    by = {path[:-1]: {} for path, _ in walk_params(init or {})}
    for path, leaf in walk_params(params):
        by.setdefault(path[:-1], {})[path[-1]] = as_arr(leaf)
    pool = {}
    for d in by.values():
        for k in d.values():
            if k.a.ndim == 2:
                b = [v for v in d.values() if v.a.ndim == 1]
                pool.setdefault(k.shape, []).append((k, b[0] if b else None))
    out = []
    for a, b in zip(widths, widths[1:]):
        if not pool.get((a, b)):
            raise Skip()
        out.append(pool[(a, b)].pop(0))
    return out


def dense(x, kb):
    k, b = kb
    out = []
    for j in range(k.shape[1]):
        t = tm.add(*[tm.mul(x[i], k.a[i, j]) for i in range(k.shape[0])])
        if b is not None:
            t = tm.add(t, b.a[j])
        out.append(t)
    return out


ACT = UFun("act", (), ("x",), elementwise=True)


def acts(c):
    yield "tanh (default)", None, lambda t: item(c.call("prelude.tanh", Arr(t, "f")))
    yield "given activation", ACT, lambda t: item(c.call(ACT, Arr(t, "f")))


def mlp_oracle(params, widths, x, act, init=None):
    ls = layers_in_order(params, widths, init)
    h = list(x)
    for kb in ls[:-1]:
        h = [act(t) for t in dense(h, kb)]
    return dense(h, ls[-1])


ARCHS = [[2, 3, 4, 2], [3, 2, 4, 1], [1, 2, 3, 5], [2, 4, 1], [2, 3], [3, 1], [1, 1, 1], [2, 2, 2], [1, 2, 2, 2, 2, 2, 1], [2, 1, 1, 1, 1, 1, 1, 1, 2], [1] * 14, [1] * 24 + [2]]


@ob("C18", "mlp-forward", "model.MLP", "model.mlp", timeout=90)
def _(c):
    deep = [[1] * (k + 1) for k in sizes(c, ["model"], 24, 130)] + [[1, k, 1] for k in sizes(c, ["model"], 24, 130)]
    for nm, act, oracle in acts(c):
        for w in ARCHS + [[2, 40, 1], [30, 2]] + deep:
            lab = f"{w} {nm}" if len(w) < 10 else f"{len(w) - 2} hidden layers of 1, {nm}"

            def go():
                model, init = c.call("model.mlp", c.key(), w, act) if act is not None else c.call("model.mlp", c.key(), w)
                shapes = sorted(as_arr(v).shape for _, v in walk_params(init))
                want = sorted([(a, b) for a, b in zip(w, w[1:])] + [(b,) for b in w[1:]])
                c.fact(f"{lab}: parameter shapes {want}", shapes == want, f"parameters have shapes {shapes}")
                if shapes != want:
                    return
                p = fresh(c, init)
                ap = c.attr(model, "apply")
                x = c.vec("x", w[0])
                o = mlp_oracle(p, w, fl(x), oracle, init)
                c.eq(f"{lab}: single point", c.call(ap, p, x), o[0] if w[-1] == 1 else A(o))
                X = c.arr("X", (2, w[0]))
                rows = [mlp_oracle(p, w, list(X.a[i]), oracle, init) for i in range(2)]
                c.eq(f"{lab}: batch", c.call(ap, p, X), A([r[0] for r in rows]) if w[-1] == 1 else A(rows))
                for bs in ((1,), (2, 1), (1, 1), (2, 2), (0,)):
                    X = c.arr("X", bs + (w[0],))
                    want = nparr(bs + ((w[-1],) if w[-1] > 1 else ()), lambda *i: ZERO)
                    for i in np.ndindex(*bs):
                        r = mlp_oracle(p, w, list(X.a[i]), oracle, init)
                        want.a[i] = r[0] if w[-1] == 1 else r
                    c.eq(f"{lab}: batch {bs}", c.call(ap, p, X), want)

            c.part(lab, go)


@ob("C18", "mlp-module", "model.MLP")
def _(c):
    for w in ([3, 1], [2, 2], [4, 3, 1]):
        def go():
            m = c.call("model.MLP", w)
            x = c.vec("x", 2)
            p = c.call(c.attr(m, "init"), c.key(), x)
            shapes = sorted(as_arr(v).shape for _, v in walk_params(p))
            full = [2] + w
            if w == [2, 2]:
                c.fact(f"MLP({w}): number of parameters", len(shapes) == 4, f"{shapes}")
                return
            want = sorted([(a, b) for a, b in zip(full, full[1:])] + [(b,) for b in full[1:]])
            c.fact(f"MLP({w}): parameter shapes", shapes == want, f"{shapes}")
            q = fresh(c, p)
            o = mlp_oracle(q, full, fl(x), lambda t: item(c.call("prelude.tanh", Arr(t, "f"))))
            c.eq(f"MLP({w}) output", c.call(c.attr(m, "apply"), q, x), o[0] if w[-1] == 1 else A(o))
            m2 = c.call("model.MLP", w, activation=ACT)
            o = mlp_oracle(q, full, fl(x), lambda t: item(c.call(ACT, Arr(t, "f"))))
            c.eq(f"MLP({w}, activation=) output", c.call(c.attr(m2, "apply"), q, x), o[0] if w[-1] == 1 else A(o))

        c.part(f"MLP {w}", go)


@ob("C18", "mlp-initialisation-depends-on-key", "model.mlp")
def _(c):
    m1, p1 = c.call("model.mlp", c.key("K1"), [2, 3, 1])
    m2, p2 = c.call("model.mlp", c.key("K2"), [2, 3, 1])
    k1 = dict(walk_params(p1))
    k2 = dict(walk_params(p2))
    c.fact("same structure for every key", list(k1) == list(k2), f"{list(k1)} {list(k2)}")
    for path in k1:
        a = as_arr(k1[path])
        if a.a.ndim == 2:
            b = as_arr(k2[path])
            c.fact(f"{'/'.join(path)} is drawn from the key", all(x is not y for x, y in zip(a.flat(), b.flat())) and len(set(a.flat())) == a.size, "kernel entries do not depend on the key or repeat")


def spline_basis(c, x, t, k):
    """the package's own basis at one point (its correctness is C19)"""
    r = as_arr(c.call("spline.basis", Arr(x, "f"), A(list(t)), degree=k))
    if r.shape != (len(t) - k - 1,):
        raise Skip()
    return list(r.a)


def grid_want(lo, hi, p, n):
    out = []
    for j in range(n):
        z = F(2 * j, n - 1) - 1
        v = abs(z) ** p * (1 if z > 0 else -1 if z < 0 else 0)
        out.append(tm.add(tm.lift(lo), tm.mul(const((v + 1) / 2), tm.sub(tm.lift(hi), tm.lift(lo)))))
    return out


@ob("C18", "spline-activation", "spline.SplineActivation", timeout=120)
def _(c):
    S = c.get("spline.SplineActivation")
    for nm, kw, deg, n, lo, hi, pw in (
        ("degree 1", dict(nodes=5, degree=1, node_min=-1, node_max=2, grid_power=1), 1, 5, -1, 2, 1),
        ("degree 2", dict(nodes=5, degree=2, node_min=0, node_max=2, grid_power=2), 2, 5, 0, 2, 2),
        ("degree 0", dict(nodes=4, degree=0, grid_power=3), 0, 4, -3, 3, 3),
        ("degree 3", dict(nodes=6, node_min=-1), 3, 6, -1, 3, 2),
    ):
        for feat in (1, 2):
            for act in (None, ACT):
                lab = f"{nm} features={feat} {'activation given' if act else 'tanh'}"
                k = dict(kw, **({"activation": act} if act else {}))

                def go():
                    m = c.call(S, **k)
                    x = c.vec("x", feat)
                    v = c.call(c.attr(m, "init"), c.key(), x)
                    shapes = [as_arr(l).shape for _, l in walk_params(v)]
                    c.fact(f"{lab}: one coefficient per feature and basis function", shapes == [(feat, n - deg - 1)], f"{shapes}")
                    for _, l in walk_params(v):
                        c.eq(f"{lab}: starts as the base activation", l, nparr(as_arr(l).shape, lambda *i: ZERO))
                    p = fresh(c, v)
                    w = next(as_arr(l) for _, l in walk_params(p))
                    g = grid_want(lo, hi, pw, n)
                    base = lambda t: item(c.call(ACT if act else "prelude.tanh", Arr(t, "f")))
                    want = [tm.add(base(x.a[i]), dotp(spline_basis(c, x.a[i], g, deg), list(w.a[i]))) for i in range(feat)]
                    c.eq(f"{lab}: value", c.call(c.attr(m, "apply"), p, x), A(want))
                    for bs in ((2,), (1,), (1, 1), (2, 1)):
                        X = c.arr("X", bs + (feat,))
                        c.eq(f"{lab}: batch {bs}", c.call(c.attr(m, "apply"), p, X), nparr(bs + (feat,), lambda *i: tm.add(base(X.a[i]), dotp(spline_basis(c, X.a[i], g, deg), list(w.a[i[-1]])))))

                c.part(lab, go)


@ob("C18", "spline-activation-own-grid", "spline.SplineActivation", timeout=120)
def _(c):
    S = c.get("spline.SplineActivation")
    for n, deg, lo, hi, pw, kw in (
        (4, 1, -1, 2, 2, dict(nodes=4, degree=1, node_min=-1, node_max=2, grid_power=2)),
        (5, 1, -3, 3, 1, dict(nodes=5, degree=1, grid_power=1)),
        (4, 0, 0, 5, 3, dict(nodes=4, degree=0, node_min=0, node_max=5, grid_power=3)),
        (5, 2, -3, 1, 2, dict(nodes=5, degree=2, node_max=1)),
        (6, 3, -2, 3, 2, dict(nodes=6, node_min=-2)),
    ):
        for act in (None, ACT):
            lab = f"nodes={n} degree={deg} power={pw} {'activation given' if act else 'tanh'}"

            def go():
                m = c.call(S, parameterize_grid=True, **kw, **({"activation": act} if act else {}))
                x = c.vec("x", 2)
                v = c.call(c.attr(m, "init"), c.key(), x)
                leaves = dict((path, as_arr(l)) for path, l in walk_params(v))
                shapes = {p[0]: l.shape for p, l in leaves.items()}
                if not c.fact(f"{lab}: coefficients and grids", shapes == {"grids": (2, n), "params": (2, n - deg - 1)}, f"{shapes}"):
                    return
                for p, l in leaves.items():
                    if p[0] == "grids":
                        g = grid_want(lo, hi, pw, n)
                        c.eq(f"{lab}: grids start as the power grid", l, A([g, g]))
                q = fresh(c, v)
                L = dict((path[0], as_arr(l)) for path, l in walk_params(q))
                w, g = L["params"], L["grids"]
                base = lambda t: item(c.call(ACT if act else "prelude.tanh", Arr(t, "f")))
                one = lambda t, i: tm.add(base(t), dotp(spline_basis(c, t, list(g.a[i]), deg), list(w.a[i])))
                c.eq(f"{lab}: each feature on its own grid", c.call(c.attr(m, "apply"), q, x), A([one(x.a[i], i) for i in range(2)]))
                for bs in ((2,), (1,), (1, 2)) if deg < 2 else ():
                    X = c.arr("X", bs + (2,))
                    c.eq(f"{lab}: batch {bs}", c.call(c.attr(m, "apply"), q, X), nparr(bs + (2,), lambda *i: one(X.a[i], i[-1])))

            c.part(lab, go)


@ob("C18", "spline-activation-defaults", "spline.SplineActivation")
def _(c):
    m = c.call("spline.SplineActivation")
    x = c.vec("x", 1)
    v = c.call(c.attr(m, "init"), c.key(), x)
    shapes = [as_arr(l).shape for _, l in walk_params(v)]
    c.fact("default: nodes - degree - 1 = 10 coefficients", shapes == [(1, 10)], f"{shapes}")
    s = c.call(c.attr(m, "apply"), v, c.s("y"))
    c.eq("scalar input, zero coefficients: tanh", as_arr(s), A([item(c.call("prelude.tanh", c.s("y")))]))


@ob("C17", "same-object-twice", "model.impose_dirichlet_bc", "model.impose_neumann_bc", "model.impose_ic")
def _(c):
    """the positions, not the identity of the objects passed in them, select the arguments"""
    z = c.vec("z", 2)
    y = Arr(z.a.copy(), "f")
    l, g, h, u = U("l", "x"), U("g", "y"), U("h", "y"), U("u", "x", "y")
    for i, j in ((0, 1), (1, 0)):
        for nm, f in (
            ("dirichlet", c.call("model.impose_dirichlet_bc", l, u, g, i, j)),
            ("neumann", c.call("model.impose_neumann_bc", l, u, h, i, i, j)),
        ):
            def go():
                # reference: distinct symbols in the two positions, then identified
                a, b = c.vec("a", 2), c.vec("b", 2)
                r = item(c.call(f, a, b))
                want = subst(r, dict(zip(fl(a) + fl(b), fl(z) + fl(z))))
                c.eq(f"{nm} {i}{j}: one object in both positions", c.call(f, z, z), want)
                c.eq(f"{nm} {i}{j}: equal objects in both positions", c.call(f, z, y), want)
            c.part(f"{nm} {i}{j}", go)
    s = c.s("s")
    f = c.call("model.impose_ic", U("m", "x"), U("u", "x", "t"))
    a, b = c.s("a"), c.s("b")
    c.eq("initial condition: one object as position and time", c.call(f, s, s), subst(item(c.call(f, a, b)), {a.item(): s.item(), b.item(): s.item()}))
