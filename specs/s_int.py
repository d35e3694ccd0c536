"""C04-C08: quadrature, surface integrals, single layer potentials, ODE integration."""
from .common import *


def grid(c, name, m):
    """strictly increasing symbolic grid t0 < t0+h1 < ..."""
    t = [c.sym(name + "0")]
    for i in range(1, m):
        t.append(tm.add(t[-1], c.sym(f"{name}h{i}", 0, None, True)))
    return A(t)


def rule_nodes(name, ts, deg=None):
    """textbook composite rules: list of (weight, node)"""
    out = []
    for a, b in zip(ts, ts[1:]):
        h = tm.sub(b, a)
        mid = tm.mul(const(H), tm.add(a, b))
        if name == "midpoint":
            out.append((h, mid))
        elif name == "trap":
            out += [(tm.mul(const(H), h), a), (tm.mul(const(H), h), b)]
        elif name == "simpson":
            out += [(tm.mul(const(F(1, 6)), h), a), (tm.mul(const(F(4, 6)), h), mid), (tm.mul(const(F(1, 6)), h), b)]
        else:
            from magstat.lib_mods import leggauss, _gl

            xs, ws = _gl[deg]
            for x, w in zip(xs, ws):
                out.append((tm.mul(const(H), h, w), tm.add(mid, tm.mul(const(H), h, x))))
    return out


def the_rule(c, name):
    if name.startswith("gauss"):
        return c.call("integrate.gauss", int(name[5:]))
    return c.get("integrate." + name)


RULES = ["midpoint", "trap", "simpson", "gauss1", "gauss2", "gauss3", "gauss5"]


def rule_ob(c, name):
    deg = int(name[5:]) if name.startswith("gauss") else None
    rule = the_rule(c, name)
    if deg:
        from magstat.lib_mods import leggauss

        leggauss(c.I, deg)
    f = lambda t: tm.ufun("f", (), [t])
    for m in (2, 3, 4, 5):
        ts = grid(c, "t", m)

        def go():
            w, x = c.call(rule, ts)
            w, x = as_arr(w), as_arr(x)
            if not c.fact(f"{m} grid points: one weight per node", w.ndim == 1 and w.shape == x.shape, f"weights {w.shape}, nodes {x.shape}"):
                return
            S = lambda g: tm.add(*[tm.mul(a, g(b)) for a, b in zip(fl(w), fl(x))])
            want = tm.add(*[tm.mul(a, f(b)) for a, b in rule_nodes("gauss" if deg else name, fl(ts), deg)])
            c.eq(f"{m} grid points: sum of weighted values", S(f), want)
            if not deg:
                a, b = fl(ts)[0], fl(ts)[-1]
                for k in range({"midpoint": 2, "trap": 2, "simpson": 4}[name]):
                    c.eq(f"{m} grid points: integrates x^{k}", S(lambda t: tm.pw(t, const(k))), tm.mul(const(F(1, k + 1)), tm.sub(tm.pw(b, const(k + 1)), tm.pw(a, const(k + 1)))))
            for i, t in enumerate(fl(x)):
                if m < 5:
                    c.sign(f"{m} grid points: node {i} >= first", tm.sub(t, fl(ts)[0]), ">=0")
                    c.sign(f"{m} grid points: node {i} <= last", tm.sub(fl(ts)[-1], t), ">=0")

        c.part(f"{m} points", go)


for _r in RULES:
    ob("C04", f"rule-{_r}", "integrate." + (_r if not _r.startswith("gauss") else "gauss"), args=(_r,))(rule_ob)


@ob("C04", "integer-grids", "integrate.simpson", "integrate.midpoint", "integrate.trap", "integrate.gauss")
def _(c):
    """a grid given as whole numbers is the same grid"""
    f = lambda t: tm.ufun("f", (), [t])
    for vals in ([0, 1], [0, 1, 3], [-2, 1, 2, 7]):
        d = as_arr(vals)
        for name in RULES[:5]:
            deg = int(name[5:]) if name.startswith("gauss") else None
            rule = the_rule(c, name)

            def go():
                w, x = c.call(rule, d)
                want = tm.add(*[tm.mul(a, f(b)) for a, b in rule_nodes("gauss" if deg else name, fl(d), deg)])
                c.eq(f"{name} on {vals}", tm.add(*[tm.mul(a, f(b)) for a, b in zip(fl(w), fl(x))]), want)

            c.part(name, go)


@ob("C04", "long-and-decreasing-grids", "integrate.simpson", "integrate.midpoint", "integrate.trap", "integrate.gauss")
def _(c):
    """the rules treat every interval alike: graded grids with many points, grids running downwards, one interval of length zero"""
    f = lambda t: tm.ufun("f", (), [t])

    def check(name, lab, ts):
        deg = int(name[5:]) if name.startswith("gauss") else None
        rule = the_rule(c, name)

        def go():
            w, x = c.call(rule, ts)
            want = tm.add(*[tm.mul(a, f(b)) for a, b in rule_nodes("gauss" if deg else name, fl(ts), deg)])
            c.eq(f"{name} on {lab}", tm.add(*[tm.mul(a, f(b)) for a, b in zip(fl(w), fl(x))]), want)

        c.part(f"{name} {lab}", go)

    for name in RULES:
        for n in [12, 41, 70] + sizes(c, ["integrate"], 70, 400):
            if name in ("gauss3", "gauss5") and n >= 70:
                continue
            check(name, f"a graded grid of {n} points", A([F(k * k, 7) - 3 for k in range(n)]))
        check(name, "a uniform grid of 33 points", A([F(k, 32) for k in range(33)]))
        for n in (2, 3, 6, 30):
            check(name, f"a decreasing grid of {n} points", A([F(50 - k * k - k, 3) for k in range(n)]))
        check(name, "a symbolic grid in any order", c.vec("t", 4))
        check(name, "a grid with a repeated point", A([F(0), F(1), F(1), F(3)]))
        check(name, "a grid of negative points", A([F(-9), F(-5), F(-4), F(-1, 2)]))
        check(name, "a tiny grid", A([F(1) + F(k, 2**20) for k in range(4)]))
        check(name, "a huge grid", A([F(10**8) * k for k in range(4)]))


# ---------------------------------------------------------------------- C05
def any_rule(c, log=None, mult=None):
    """an arbitrary quadrature rule: as many uninterpreted nodes and weights as asked for"""
    def rule(I, d):
        d = as_arr(d)
        if log is not None:
            log.append(d)
        n = d.shape[0] + (mult or 0)
        ts = fl(d)
        return (nparr((n,), lambda i: tm.ufun("qw", (i,), ts)), nparr((n,), lambda i: tm.ufun("qx", (i,), ts)))

    return Builtin("any_rule", rule)


def qw(d, n):
    return [tm.ufun("qw", (i,), fl(d)) for i in range(n)]


def qx(d, n):
    return [tm.ufun("qx", (i,), fl(d)) for i in range(n)]


def tensor_sum(c, doms, f, mult=0):
    """sum over all node tuples of prod(weights) * f(nodes)"""
    ns = [as_arr(d).shape[0] + mult for d in doms]
    W = [qw(d, n) for d, n in zip(doms, ns)]
    X = [qx(d, n) for d, n in zip(doms, ns)]
    acc = None
    for idx in itertools.product(*[range(n) for n in ns]):
        w = tm.mul(*[W[k][i] for k, i in enumerate(idx)])
        y = f([X[k][i] for k, i in enumerate(idx)])
        y = lj.tree_map(c.I, Builtin("spec", lambda I, v: ew(lambda t: tm.mul(w, t), v)), y)
        acc = y if acc is None else lj.tree_add(c.I, acc, y)
    return acc


@ob("C05", "product-domains", "integrate.integrate")
def _(c):
    p, q = c.s("p"), c.s("q")
    p2, q2 = c.s("pp"), c.s("qq")
    for sizes in ((2, 3), (3, 2), (2, 2), (1, 3), (2, 3, 2), (3, 1, 2)):
        for out in ((), (2,), (2, 3), {"a": (), "b": (2,)}):
            if len(sizes) == 3 and out not in ((), (2,)):
                continue
            f = UFun("f", out, ("x", "p", "p2", "q", "q2"))
            doms = [c.vec(f"d{k}_", n) for k, n in enumerate(sizes)]
            for mult in (0, 1) if sizes == (2, 3) else (0,):
                want = tensor_sum(c, doms, lambda x: c.call(f, A(x), p, p2, q=q, q2=q2), mult)
                c.part(f"{sizes}{out}", lambda: c.eq(f"grids {sizes}, integrand {out}, extra nodes {mult}", c.call("integrate.integrate", f, list(doms), p, p2, method=any_rule(c, None, mult), q2=q2, q=q), want))
    doms = c.arr("d", (2, 3))
    f = UFun("f", (), ("x",))
    want = tensor_sum(c, [Arr(doms.a[0]), Arr(doms.a[1])], lambda x: c.call(f, A(x)))
    c.part("2-d array domain", lambda: c.eq("domain given as rows of an array", c.call("integrate.integrate", f, doms, method=any_rule(c)), want))
    c.part("tuple domain", lambda: c.eq("domain given as a tuple", c.call("integrate.integrate", f, (Arr(doms.a[0]), Arr(doms.a[1])), method=any_rule(c)), want))


@ob("C05", "one-dimension", "integrate.integrate")
def _(c):
    p = c.s("p")
    f = UFun("f", (), ("x", "p"), elementwise=True)
    for n in (2, 3, 4):
        d = c.vec("d", n)
        want = tm.add(*[tm.mul(w, tm.ufun("f", (), [x, p.item()])) for w, x in zip(qw(d, n), qx(d, n))])
        for k, dom in (("array", d), ("list", [d])):
            c.part(f"{n}{k}", lambda: c.eq(f"{n} nodes, domain as {k}", c.call("integrate.integrate", f, dom, p, method=any_rule(c)), want))
    g = Builtin("user", lambda I, x: {"u": I.call(f, [x, p], {}), "v": x})
    d = c.vec("d", 3)
    want = {"u": tm.add(*[tm.mul(w, tm.ufun("f", (), [x, p.item()])) for w, x in zip(qw(d, 3), qx(d, 3))]), "v": tm.add(*[tm.mul(w, x) for w, x in zip(qw(d, 3), qx(d, 3))])}
    c.part("pytree", lambda: c.eq("pytree integrand", c.call("integrate.integrate", g, d, method=any_rule(c)), want))


@ob("C05", "default-rule-and-exactness", "integrate.integrate")
def _(c):
    """with the built-in rules a tensor-product polynomial is integrated exactly"""
    a, b = c.s("a"), c.s("b")
    for name, deg in (("midpoint", 1), ("trap", 1), ("simpson", 3)):
        for sizes in ((2, 3), (3, 2)):
            X, Y = grid(c, "x", sizes[0]), grid(c, "y", sizes[1])
            mono = Builtin("mono", lambda I, x: la.arr_binop(I, "Mult", la.arr_binop(I, "Pow", la.arr_getitem(I, x, 0), deg), la.arr_getitem(I, x, 1)))
            I1 = lambda t, k: tm.mul(const(F(1, k + 1)), tm.sub(tm.pw(fl(t)[-1], const(k + 1)), tm.pw(fl(t)[0], const(k + 1))))
            c.part(f"{name}{sizes}", lambda: c.eq(f"{name} {sizes}: x^{deg} y", c.call("integrate.integrate", mono, [X, Y], method=the_rule(c, name)), tm.mul(I1(X, deg), I1(Y, 1))))
    X = grid(c, "x", 3)
    cub = Builtin("cub", lambda I, x: la.arr_binop(I, "Pow", x, 3))
    c.part("default", lambda: c.eq("default rule integrates cubics", c.call("integrate.integrate", cub, X), tm.mul(const(F(1, 4)), tm.sub(tm.pw(fl(X)[-1], const(4)), tm.pw(fl(X)[0], const(4))))))


@ob("C05", "non-finite-values", "integrate.integrate")
def _(c):
    """a value that is not a number is never silently left out of the sum"""
    from magstat.lib_mods import nan_cond

    w = c.vec("w", 3, 0, None, True)
    rule = Builtin("rule", lambda I, d: (w, A([F(0), F(1), F(2)])))
    v = c.sym("v")

    def check(lab, f, dom):
        def go():
            for t in fl(c.call("integrate.integrate", Builtin("f", f), dom, method=rule)):
                r = nan_cond(t)
                c.fact(f"{lab}: the integral is not a number", r is tm.TRUE, f"the value is dropped: {tm.show(t, 5)}")

        c.part(lab, go)

    for k in range(3):
        check(f"value {k} of an integrand in one variable", lambda I, x, k=k: ew(lambda p: tm.NAN if p is const(k) else v, x), c.vec("d", 2))
        check(f"value {k} of a vector integrand in two variables", lambda I, x, k=k: ew(lambda p, q: tm.NAN if p is const(k) else q, la.arr_getitem(I, x, 0), la.arr_getitem(I, x, 1)), [c.vec("d", 2), c.vec("e", 2)])


def linsp(a, b, n):
    return [tm.add(a, tm.mul(const(F(i, n - 1)), tm.sub(b, a))) if n > 1 else a for i in range(n)]


def lift(x):
    return item(x) if isinstance(x, Arr) else tm.lift(x)


def mesh_ob(c, which):
    """disk / ball integrals for an arbitrary rule: grids, volume element, node position, extra arguments"""
    ball = which == "integrate_sphere"
    dim = 3 if ball else 2
    r, ri, p, q = c.s("r", 0, None, True), c.s("ri", 0), c.s("p"), c.s("q")
    p2, q2 = c.s("pp"), c.s("qq")
    o = c.vec("o", dim)
    lims = [c.s(n) for n in (["p1", "p2", "q1", "q2"] if ball else ["p1", "p2"])]
    ns = (2, 3, 4)[:dim]

    def node(t):
        rr, ph = t[0], t[1]
        if ball:
            th = t[2]
            return [tm.mul(rr, tm.fn("sin", ph), tm.fn("cos", th)), tm.mul(rr, tm.fn("sin", ph), tm.fn("sin", th)), tm.mul(rr, tm.fn("cos", ph))], tm.mul(rr, rr, tm.fn("sin", ph))
        return [tm.mul(rr, tm.fn("cos", ph)), tm.mul(rr, tm.fn("sin", ph))], rr

    def want(f, doms, *extra, **kw):
        def g(t):
            x, jac = node(t)
            y = c.call(f, A([tm.add(a, b) for a, b in zip(x, fl(o))]), *extra, **kw)
            return lj.tree_map(c.I, Builtin("spec", lambda I, v: ew(lambda s: tm.mul(jac, s), v)), y)

        return tensor_sum(c, doms, g)

    def doms(n, lo, hi):
        return [A(linsp(lift(a), lift(b), k)) for a, b, k in zip(lo, hi, n)]

    for out in ((), (2,), {"a": (), "b": (2,)}):
        f = UFun("f", out, ("x", "p", "p2", "q", "q2"))
        dd = doms(ns, [ri] + lims[::2], [r] + lims[1::2])
        c.part(f"{out}", lambda: c.eq(f"all limits given, integrand {out}", c.call("integrate." + which, f, r, o, ns, ri, *lims, p, p2, method=any_rule(c), q2=q2, q=q), want(f, dd, p, p2, q=q, q2=q2)))
    f = UFun("f", (), ("x",))
    full = [(0, PI), (0, tm.mul(const(2), PI))] if ball else [(0, tm.mul(const(2), PI))]
    for n in (2, 3):
        dd = doms((n,) * dim, [0] + [a for a, _ in full], [r] + [b for _, b in full])
        c.part(f"n={n}", lambda: c.eq(f"default limits, n={n}", c.call("integrate." + which, f, r, o, n, method=any_rule(c)), want(f, dd)))
    kw = dict(r_inner=ri, phi1=lims[0], phi2=lims[1])
    if ball:
        kw.update(theta1=lims[2], theta2=lims[3])
    dd = doms(ns, [ri] + lims[::2], [r] + lims[1::2])
    # limits given as numbers, node counts all different
    lims_n = [((0, 1), (0, F(1, 2)), (0, 2)), ((F(1, 4), 2), (0, 3), (0, 1)), ((0, 1), (-1, F(1, 2)), (-2, -1)), ((F(1, 2), 1), (2, 1), (F(3), F(1)))]
    for k, row in enumerate(lims_n):
        for n in ((2, 3, 4), (4, 3, 2), (3, 4, 2)) if k < 2 else ((2, 4, 3),):
            row_, n_ = row[:dim], n[:dim]
            num = lambda v: float(v) if k % 2 else A(const(F(v)))
            dd = doms(n_, [A(const(F(a))) for a, _ in row_], [A(const(F(b))) for _, b in row_])
            args = [num(v) for ab in row_[1:] for v in ab]
            c.part(f"numbers{k}{n}", lambda: c.eq(f"limits {row_}, node counts {n_}", c.call("integrate." + which, f, num(row_[0][1]), o, n_, num(row_[0][0]), *args, method=any_rule(c)), want(f, dd)))
    dd = doms(ns, [ri] + lims[::2], [r] + lims[1::2])
    c.part("kw", lambda: c.eq("limits by keyword", c.call("integrate." + which, f, r, o, ns, method=any_rule(c), **kw), want(f, dd)))
    c.raises("wrong number of node counts refused", lambda: c.call("integrate." + which, f, r, o, (2,) * (dim + 1)))


ob("C05", "disk", "integrate.integrate_disk", timeout=120, args=("integrate_disk",))(mesh_ob)
ob("C05", "ball", "integrate.integrate_sphere", timeout=120, args=("integrate_sphere",))(mesh_ob)


# ---------------------------------------------------------------------- C06
def area(c, par, u, v):
    """norm of the cross product of the tangent vectors at (u, v); u, v plain symbols"""
    U, V = tm.fresh("U"), tm.fresh("V")
    r = fl(c.call(par, A([U, V])))
    ru, rv = [D(t, U) for t in r], [D(t, V) for t in r]
    cr = [tm.sub(tm.mul(ru[1], rv[2]), tm.mul(ru[2], rv[1])), tm.sub(tm.mul(ru[2], rv[0]), tm.mul(ru[0], rv[2])), tm.sub(tm.mul(ru[0], rv[1]), tm.mul(ru[1], rv[0]))]
    m = {U: u, V: v}
    return [subst(t, m) for t in r], subst(tm.sqrt(tm.add(*[tm.mul(t, t) for t in cr])), m)


def surf_want(c, f, par, u, v, *args, **kw):
    def g(t):
        r, z = area(c, par, *t)
        y = c.call(f, A(r), *args, **kw)
        return lj.tree_map(c.I, Builtin("spec", lambda I, w: ew(lambda s: tm.mul(z, s), w)), y)

    return tensor_sum(c, [u, v], g)


@ob("C06", "surface-integral", "surface_integral.integrate_surface")
def _(c):
    par = UFun("r", (3,), ("uv",))
    p, p2, q = c.vec("p", 2), c.s("pp"), c.s("q")
    u, v = c.vec("u", 2), c.vec("v", 3)
    for out in ((), (2,), {"a": (), "b": (3,)}):
        f = UFun("f", out, ("x", "p", "p2", "q"))
        c.part(f"{out}", lambda: c.eq(f"integrand {out}", c.call("surface_integral.integrate_surface", f, par, u, v, p, p2, method=any_rule(c), q=q), surf_want(c, f, par, u, v, p, p2, q=q)))
    f = UFun("f", (), ("x",))
    c.raises("not a surface in space", lambda: c.call("surface_integral.integrate_surface", f, UFun("r2", (2,), ("uv",)), u, v, method=any_rule(c)))


@ob("C06", "element-by-element", "surface_integral.integrate_surface_elements", "surface_integral.midpoints", "surface_integral.center")
def _(c):
    par = UFun("r", (3,), ("uv",))
    p, p2, q = c.s("p"), c.s("pp"), c.s("q")
    for nu, nv in ((2, 3), (3, 2), (3, 3)):
        u, v = c.vec("u", nu), c.vec("v", nv)
        mid = lambda a, i: tm.mul(const(H), tm.add(fl(a)[i], fl(a)[i + 1]))
        C = {(i, j): c.call(par, A([mid(u, i), mid(v, j)])) for i in range(nu - 1) for j in range(nv - 1)}
        c.part(f"mid{nu}{nv}", lambda: c.eq(f"midpoints of a {nu}x{nv} grid", c.call("surface_integral.midpoints", par, u, v), nparr((nu - 1, nv - 1, 3), lambda i, j, k: C[i, j].a[k])))
        f = UFun("f", (2,), ("x", "c", "p", "p2", "q"))
        cell = {k: surf_want(c, f, par, Arr(u.a[k[0] : k[0] + 2]), Arr(v.a[k[1] : k[1] + 2]), C[k], p, p2, q=q) for k in C}
        c.part(f"el{nu}{nv}", lambda: c.eq(f"elements of a {nu}x{nv} grid", c.call("surface_integral.integrate_surface_elements", f, par, u, v, p, p2, method=any_rule(c), q=q), nparr((nu - 1, nv - 1, 2), lambda i, j, k: cell[i, j].a[k])))


def surfaces(k):
    """parametrizations of known surfaces of size k: label, map, area element"""
    P = lambda g: Builtin("surface", lambda I, x: A(g(*[t for t in as_arr(x).a.reshape(-1)])))
    m, a = tm.mul, tm.add
    return [
        ("plane", P(lambda u, v: [m(k, u), m(k, v), ZERO])),
        ("slanted plane", P(lambda u, v: [m(k, a(u, v)), m(const(-2), k, v), m(k, u)])),
        ("degenerate cell", P(lambda u, v: [m(k, u), m(k, u, v), ZERO])),
        ("saddle", P(lambda u, v: [m(k, u), m(k, v), m(k, u, v)])),
        ("cylinder", P(lambda u, v: [m(k, tm.fn("cos", u)), m(k, tm.fn("sin", u)), v])),
    ]


@ob("C06", "known-surfaces", "surface_integral.integrate_surface", "surface_integral.integrate_surface_elements")
def _(c):
    """surfaces of every size, however small or large, and cells that shrink to a line"""
    k = c.sym("k", 0, None, True)
    for lab, par in surfaces(k):
        for gl, u, v in (("unit grid", A([0, 1]), A([0, F(1, 2), 1])), ("tiny grid", A([0, F(1, 10 ** 5)]), A([F(1, 3), F(1, 3) + F(1, 10 ** 6)])), ("far grid", A([1000, 1001]), A([-2000, -1999])), ("reversed grid", A([1, 0]), A([0, 1]))):
            for f in (UFun("f", (), ("x",)), UFun("f", (2,), ("x",))):
                for rule in ("midpoint", "trap"):
                    def go():
                        got = c.call("surface_integral.integrate_surface", f, par, u, v, method=c.get("integrate." + rule))
                        c.eq(f"{lab}, {gl}, {rule}, integrand {f.out}", got, known_sum(c, f, par, fl(u), fl(v), rule), nan_violates=True)
                        g2 = Builtin("g", lambda I, x, cc: c.call(f, x))
                        el = as_arr(c.call("surface_integral.integrate_surface_elements", g2, par, u, v, method=c.get("integrate." + rule)))
                        c.eq(f"{lab}, {gl}, {rule}, integrand {f.out}: elements add up to the surface", lambda_sum(el, len(f.out)), got)
                    c.part(f"{lab}{gl}{rule}{f.out}", go)


def lambda_sum(el, k):
    n = el.a.ndim - k
    r = el.a.reshape((-1,) + el.a.shape[n:])
    return nparr(r.shape[1:], lambda *i: tm.add(*[r[(j,) + i] for j in range(r.shape[0])]))


def rule_pts(u, rule):
    out = []
    for a, b in zip(u, u[1:]):
        h = tm.sub(b, a)
        out += [(tm.mul(const(H), tm.add(a, b)), h)] if rule == "midpoint" else [(a, tm.mul(const(H), h)), (b, tm.mul(const(H), h))]
    return out


def known_sum(c, f, par, u, v, rule):
    tot = None
    for a, wa in rule_pts(u, rule):
        for b, wb in rule_pts(v, rule):
            r, z = area(c, par, a, b)
            w = tm.mul(wa, wb, z)
            y = ew(lambda t: tm.mul(w, t), c.call(f, A(r)))
            tot = y if tot is None else ew(tm.add, tot, y)
    return tot


# ---------------------------------------------------------------------- C07
@ob("C07", "near-and-far", "surface_integral.source_tensor")
def _(c):
    """target points at any distance from the surface, down to and beyond every number"""
    h = c.sym("h", 0, None, True)
    k = c.sym("k", 0, None, True)
    for lab, par in surfaces(k)[:2]:
        for rule in ("midpoint", "trap"):
            for order in (0, 1, 2):
                u, v = A([0, 1]), A([0, F(1, 2), 1])
                def go():
                    x = [tm.mul(const(F(1, 2)), k), tm.mul(const(F(1, 4)), k), h]
                    want = []
                    for j in range(2):
                        ui, vj = fl(u), fl(v)[j:j + 2]
                        cc = fl(c.call(par, A([tm.mul(const(H), tm.add(*ui)), tm.mul(const(H), tm.add(*vj))])))
                        rows = None
                        for a, wa in rule_pts(ui, rule):
                            for b, wb in rule_pts(vj, rule):
                                r, z = area(c, par, a, b)
                                d = [tm.sub(p, q) for p, q in zip(r, cc)]
                                dist = tm.sqrt(tm.add(*[tm.pw(tm.sub(p, q), const(2)) for p, q in zip(x, r)]))
                                row = [tm.div(tm.mul(wa, wb, z, *[d[s] for s in idx]), dist) for o in range(order + 1) for idx in itertools.product(range(3), repeat=o)]
                                rows = row if rows is None else [tm.add(p, q) for p, q in zip(rows, row)]
                        want += rows
                    got = c.call("surface_integral.source_tensor", A(x), par, u, v, method=c.get("integrate." + rule), order=order, compute_jacfwd=False)
                    c.eq(f"{lab}, {rule}, order {order}", got, A(want))
                    y = c.vec("y", 3)
                    if order < 2 and rule == "midpoint":
                        g, J = c.call("surface_integral.source_tensor", y, par, u, v, method=c.get("integrate." + rule), order=order)
                        c.eq(f"{lab}, {rule}, order {order}: value with derivative", as_arr(g), c.call("surface_integral.source_tensor", y, par, u, v, method=c.get("integrate." + rule), order=order, compute_jacfwd=False))
                        m = dict(zip(fl(y), x))
                        gg = [subst(t, m) for t in fl(as_arr(g))]
                        c.eq(f"{lab}, {rule}, order {order}: value at the target", A(gg), A(want))
                        c.eq(f"{lab}, {rule}, order {order}: derivative", as_arr(J), nparr((len(gg), 3), lambda i, s: D(fl(as_arr(g))[i], y.a[s])))
                c.part(f"{lab}{rule}{order}", go)


@ob("C07", "source-tensor", "surface_integral.source_tensor", timeout=150)
def _(c):
    par = UFun("r", (3,), ("uv",))
    x = c.vec("x", 3)
    for nu, nv, order in ((2, 2, 0), (2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 2, 2), (2, 2, 3)):
        u, v = c.vec("u", nu), c.vec("v", nv)
        want = []
        for i in range(nu - 1):
            for j in range(nv - 1):
                ui, vj = Arr(u.a[i : i + 2]), Arr(v.a[j : j + 2])
                cc = fl(c.call(par, A([tm.mul(const(H), tm.add(*fl(ui))), tm.mul(const(H), tm.add(*fl(vj)))])))

                def g(t):
                    r, z = area(c, par, *t)
                    d = [tm.sub(a, b) for a, b in zip(r, cc)]
                    dist = tm.sqrt(tm.add(*[tm.pw(tm.sub(a, b), const(2)) for a, b in zip(fl(x), r)]))
                    mom = []
                    for k in range(order + 1):
                        for idx in itertools.product(range(3), repeat=k):
                            mom.append(tm.div(tm.mul(z, *[d[s] for s in idx]) if idx else z, dist))
                    return A(mom)

                want += fl(tensor_sum(c, [ui, vj], g))
        lab = f"{nu}x{nv} grid, order {order}"
        call = lambda jac: c.call("surface_integral.source_tensor", x, par, u, v, method=any_rule(c), order=order, compute_jacfwd=jac)
        c.part(lab, lambda: c.eq(lab, call(False), A(want)))
        if order <= 1:

            def go():
                val, J = call(True)
                c.eq("value with derivative, " + lab, val, A(want))
                c.eq("derivative, " + lab, J, nparr((len(want), 3), lambda i, k: D(want[i], x.a[k])))

            c.part("jac " + lab, go)


@ob("C07", "charge-tensor", "surface_integral.charge_tensor")
def _(c):
    par = UFun("r", (3,), ("uv",))
    p, p2, q = c.s("p"), c.s("pp"), c.s("q")
    for out in ((), (3,)):
        for nu, nv, order in ((2, 2, 0), (2, 3, 1), (3, 2, 2), (2, 2, 3)):
            u, v = c.vec("u", nu), c.vec("v", nv)
            f = UFun("f", out, ("x", "p", "p2", "q"))
            z = [tm.fresh("z") for _ in range(3)]
            fz = as_arr(c.call(f, A(z), p, p2, q=q))
            rows = []
            for i in range(nu - 1):
                for j in range(nv - 1):
                    cc = fl(c.call(par, A([tm.mul(const(H), tm.add(*fl(u)[i : i + 2])), tm.mul(const(H), tm.add(*fl(v)[j : j + 2]))])))
                    m = dict(zip(z, cc))
                    for k in range(order + 1):
                        for idx in itertools.product(range(3), repeat=k):
                            rows.append(nparr(out, lambda *o: subst(tm.mul(const(F(1, math.factorial(k))), D(fz.a[o], *[z[s] for s in idx])), m)))
            want = nparr((len(rows),) + out, lambda i, *o: rows[i].a[o])
            lab = f"{nu}x{nv} grid, order {order}, charge {out}"
            c.part(lab, lambda: c.eq(lab, c.call("surface_integral.charge_tensor", f, par, u, v, p, p2, order=order, q=q), want))


@ob("C07", "orders-agree", "surface_integral.source_tensor", "surface_integral.charge_tensor")
def _(c):
    """default expansion order is the same for sources and charges"""
    par, f = UFun("r", (3,), ("uv",)), UFun("f", (), ("x",))
    u, v = c.vec("u", 2), c.vec("v", 2)
    s = c.call("surface_integral.source_tensor", c.vec("x", 3), par, u, v, method=any_rule(c), compute_jacfwd=False)
    t = c.call("surface_integral.charge_tensor", f, par, u, v)
    c.fact("default orders agree", as_arr(s).shape == as_arr(t).shape, f"source {as_arr(s).shape} vs charge {as_arr(t).shape}")


@ob("C07", "contraction", "surface_integral.single_layer_potential", "surface_integral.curl_single_layer_potential")
def _(c):
    k = tm.div(ONE, tm.mul(const(4), PI))
    for n in [1, 2, 3, 4, 5, 13, 40] + sizes(c, ["surface_integral"], 40, 400):
        s = c.vec("s", n)
        ch, vec = c.vec("q", n), c.arr("m", (n, 3))
        c.part(f"scalar{n}", lambda: c.eq(f"scalar potential, {n} terms", c.call("surface_integral.single_layer_potential", s, ch), tm.mul(k, dotp(fl(s), fl(ch)))))
        c.part(f"vector{n}", lambda: c.eq(f"vector potential, {n} terms", c.call("surface_integral.single_layer_potential", s, vec), A([tm.mul(k, dotp(fl(s), list(vec.a[:, i]))) for i in range(3)])))
        ds = c.arr("d", (n, 3))
        # curl of sum_i m_i s_i(x) with constant m_i: grad(s_i) x m_i
        cr = lambda a, b: [tm.sub(tm.mul(a[1], b[2]), tm.mul(a[2], b[1])), tm.sub(tm.mul(a[2], b[0]), tm.mul(a[0], b[2])), tm.sub(tm.mul(a[0], b[1]), tm.mul(a[1], b[0]))]
        tot = [tm.mul(k, tm.add(*[cr(list(ds.a[i]), list(vec.a[i]))[j] for i in range(n)])) for j in range(3)]
        c.part(f"curl{n}", lambda: c.eq(f"curl potential, {n} terms", c.call("surface_integral.curl_single_layer_potential", ds, vec), A(tot)))


@ob("C07", "charges", "surface_integral.scalar_potential_charge", "surface_integral.vector_potential_charge")
def _(c):
    adf = UFun("adf", (), ("x",))
    x = c.vec("x", 3)
    p, p2, q, q2 = c.s("p"), c.s("pp"), c.s("q"), c.s("qq")
    g = [D(item(c.call(adf, x)), s) for s in fl(x)]
    nn = tm.sqrt(tm.add(*[tm.mul(t, t) for t in g]))
    n = [tm.neg(tm.div(t, nn)) for t in g]
    mag = UFun("mag", (3,), ("x", "p", "p2"))
    m = fl(c.call(mag, x, p, p2))
    phi = UFun("phi", (), ("x", "q", "q2"))
    ph = item(c.call(phi, x, q, q2))
    mn = dotp(m, n)
    dphi = dotp([D(ph, s) for s in fl(x)], n)
    for norm_, want in ((True, tm.add(mn, ph)), (False, tm.sub(mn, dphi))):
        c.part(f"scalar {norm_}", lambda: c.eq(f"scalar charge normalized={norm_}", c.call(c.call("surface_integral.scalar_potential_charge", adf, mag, phi, norm_), x, (p, p2), (q, q2)), want))
    c.part("scalar default", lambda: c.eq("scalar charge default", c.call(c.call("surface_integral.scalar_potential_charge", adf, mag, phi), x, (p, p2), (q, q2)), tm.sub(mn, dphi)))
    Af = UFun("A1", (3,), ("x", "q", "q2"))
    a1 = fl(c.call(Af, x, q, q2))
    cr = [tm.sub(tm.mul(m[1], n[2]), tm.mul(m[2], n[1])), tm.sub(tm.mul(m[2], n[0]), tm.mul(m[0], n[2])), tm.sub(tm.mul(m[0], n[1]), tm.mul(m[1], n[0]))]
    dA = [dotp([D(t, s) for s in fl(x)], n) for t in a1]
    for norm_, want in ((True, [tm.add(a, b) for a, b in zip(cr, a1)]), (False, [tm.sub(a, b) for a, b in zip(cr, dA)])):
        c.part(f"vector {norm_}", lambda: c.eq(f"vector charge normalized={norm_}", c.call(c.call("surface_integral.vector_potential_charge", adf, mag, Af, norm_), x, (p, p2), (q, q2)), A(want)))


# ---------------------------------------------------------------------- C08
def tadd(c, a, s, b):
    return lj.tree_map(c.I, Builtin("spec", lambda I, x, y: ew(lambda p, q: tm.add(p, tm.mul(s, q)), x, y)), a, b)


def step_euler(c, df, y, t, h, *args):
    return tadd(c, y, h, c.call(df, y, A(t), *args))


def step_rk4(c, df, y, t, h, *args):
    half = tm.mul(const(H), h)
    k1 = c.call(df, y, A(t), *args)
    k2 = c.call(df, tadd(c, y, half, k1), A(tm.add(t, half)), *args)
    k3 = c.call(df, tadd(c, y, half, k2), A(tm.add(t, half)), *args)
    k4 = c.call(df, tadd(c, y, h, k3), A(tm.add(t, h)), *args)
    for w, k in ((F(1, 6), k1), (F(1, 3), k2), (F(1, 3), k3), (F(1, 6), k4)):
        y = tadd(c, y, tm.mul(const(w), h), k)
    return y


SCHEMES = {"rk4": step_rk4, "explicit_euler": step_euler}


def states(c):
    yield "vector", c.vec("y", 2), (2,)
    yield "scalar", c.s("y"), ()
    yield "pytree", {"u": c.vec("y", 1), "v": [c.s("z")]}, {"u": (1,), "v": [()]}


@ob("C08", "single-step", "ode.rk4", "ode.explicit_euler")
def _(c):
    t, h, p, p2 = c.sym("t"), c.sym("h"), c.s("p"), c.s("pp")
    for nm, y, out in states(c):
        df = UFun("df", out, ("y", "t", "p", "p2"))
        for sch, f in SCHEMES.items():
            c.part(f"{sch}/{nm}", lambda: c.eq(f"{sch} step, {nm} state", c.call("ode." + sch, df, y, A(t), A(h), p, p2), f(c, df, y, t, h, p, p2)))


@ob("C08", "time-grid", "ode.odeint")
def _(c):
    p, p2 = c.s("p"), c.s("pp")
    for nm, y, out in states(c):
        df = UFun("df", out, ("y", "t", "p", "p2"))
        for sch, f in SCHEMES.items():
            for n in (2, 3) if sch == "rk4" else (2, 3, 4):
                ts = c.vec("t", n)

                def go():
                    traj = [y]
                    for k in range(1, n):
                        traj.append(f(c, df, traj[-1], ts.a[k - 1], tm.sub(ts.a[k], ts.a[k - 1]), p, p2))
                    want = lj.tree_map(c.I, Builtin("spec", lambda I, *xs: la.stack(I, list(xs))), *traj)
                    lab = f"{sch}, {n} time levels, {nm} state"
                    c.eq(lab, c.call("ode.odeint", df, y, ts, p, p2, method=c.get("ode." + sch)), want)
                    if n == 3:
                        c.eq("unrolled, " + lab, c.call("ode.odeint", df, y, ts, p, p2, unroll=2, method=c.get("ode." + sch)), want)
                    if sch == "rk4":
                        c.eq("default method, " + lab, c.call("ode.odeint", df, y, ts, p, p2), want)

                c.part(f"{sch}{n}{nm}", go)


@ob("C08", "custom-method", "ode.odeint")
def _(c):
    """any one-step method receives the start time, the step and the state of its own step"""
    calls = []

    def meth(I, df, y, t, dt, *args):
        calls.append((y, t, dt, args))
        return nparr((2,), lambda i: tm.ufun("step", (i,), fl(y) + fl(as_arr(t)) + fl(as_arr(dt)) + [item(a) for a in args]))

    p, p2 = c.s("p"), c.s("pp")
    df = UFun("df", (2,), ("y", "t", "p", "p2"))
    grids = [(f"{n} time levels", c.vec("t", n)) for n in [1, 2, 4, 7, 12, 40, 101] + sizes(c, ["ode"], 101, 300)]
    grids += [("a decreasing grid", A([F(9 - k) for k in range(9)])), ("a graded grid", A([F(k * k, 3) for k in range(9)])), ("a repeated time", A([F(0), F(1), F(1), F(2)])),
              ("whole-number times", as_arr([0, 1, 3, 4])), ("negative times", A([F(-3), F(-2), F(-1)]))]
    for lab, ts in grids:
        for unroll in (1, 3):
            def go():
                y = c.vec("y", 2)
                r = c.call("ode.odeint", df, y, ts, p, p2, unroll=unroll, method=Builtin("method", meth))
                want = [fl(y)]
                for k in range(1, ts.shape[0]):
                    want.append([tm.ufun("step", (i,), want[-1] + [ts.a[k - 1], tm.sub(ts.a[k], ts.a[k - 1]), p.item(), p2.item()]) for i in range(2)])
                c.eq(f"trajectory of an arbitrary method, {lab}, unroll={unroll}", r, A(want))

            c.part(f"{lab}{unroll}", go)


@ob("C08", "whole-numbers", "ode.rk4", "ode.explicit_euler", "ode.odeint")
def _(c):
    """times, steps and states given as whole numbers are the same numbers"""
    df = UFun("df", (2,), ("y", "t", "p"))
    dg = UFun("dg", (), ("y", "t", "p"))
    for sch in SCHEMES:
        ints(c, f"{sch} step", lambda y, t, h, p: c.call("ode." + sch, df, y, t, h, p), iarr([1, 2]), 1, 2, 3)
        ints(c, f"{sch} step of a number", lambda y, t, h, p: c.call("ode." + sch, dg, y, t, h, p), iarr(3), iarr(1), iarr(2), 3)
        ints(c, f"odeint {sch}", lambda t, p: c.call("ode.odeint", df, c.vec("y", 2), t, p, method=c.get("ode." + sch)), iarr([0, 1, 3]), 3)
