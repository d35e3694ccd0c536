"""C09-C11: domains."""
from .common import *


def unit(c, n, name="x"):
    return c.vec(name, n, 0, 1, False, True)


def rows_of(c, f, name, shape, n, lo=0, hi=1):
    """batched call equals the call on every row"""
    x = c.arr(name, shape + (n,), lo, hi, False, True)
    got = c.call(f, x)
    rows = {}
    for i in np.ndindex(*shape):
        rows[i] = as_arr(c.call(f, Arr(x.a[i], "f")))
    out = rows[(0,) * len(shape)].shape
    want = nparr(shape + out, lambda *k: rows[k[: len(shape)]].a[k[len(shape) :]])
    return got, want


def batch(c, label, f, n, shapes=((1,), (2,), (2, 2), (1, 2, 1), (2, 1, 2, 1))):
    for sh in shapes:
        def go():
            got, want = rows_of(c, f, "b", sh, n)
            c.eq(f"{label}: batch {sh} maps every row like a single point", got, want)
        c.part(f"{label}: batch {sh}", go)


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    return tm.add(*[tm.mul(const((-1) ** j), m[0][j], det([r[:j] + r[j + 1 :] for r in m[1:]])) for j in range(n)])


def jac(y, x):
    return [[D(t, s) for s in x] for t in y]


def gram(y, x):
    J = jac(y, x)
    return det([[tm.add(*[tm.mul(J[k][i], J[k][j]) for k in range(len(J))]) for j in range(len(x))] for i in range(len(x))])


def sq(t):
    return tm.mul(t, t)


def uniform(c, label, y, x, measure, assume=TRUE):
    """density of the image of uniform parameters is constant: gram determinant = measure^2"""
    c.eq(f"{label}: volume element is the measure everywhere", gram(y, x), sq(measure), assume)


def periodic(c, label, f, n):
    """coordinates beyond the unit cube are wrapped"""
    for k in (1, 2, -1, -3):
        y0 = c.vec("y", n, 0, 1, True, True)
        z = A([tm.add(const(k), t) for t in fl(y0)])
        c.eq(f"{label}: inputs shifted by {k} wrap", c.call(f, z), c.call(f, y0))
    if n > 1:
        # every coordinate on its own, in a batch with a point of the cube
        y0 = c.vec("y", n, 0, 1, True, True)
        w = c.call(f, A([fl(y0), fl(y0)]))
        for i in range(n):
            for k in (1, -1):
                z = [tm.add(const(k), t) if j == i else t for j, t in enumerate(fl(y0))]
                c.eq(f"{label}: coordinate {i} shifted by {k} wraps", c.call(f, A([z, fl(y0)])), w)


def box(c, d, pos=True):
    lb = [c.sym(f"l{i}") for i in range(d)]
    w = [c.sym(f"w{i}", 0, None, True) for i in range(d)]
    return lb, [tm.add(a, b) for a, b in zip(lb, w)], w


def fn1(f, *rest, c=None):
    return Builtin("curry", lambda I, x: I.call(f, [x, *rest], {}))


# ---------------------------------------------------------------------- C09
@ob("C09", "hypercube", "domain.transform_hypercube", "domain.Hypercube.transform")
def _(c):
    for d in (1, 2, 3):
        lb, ub, w = box(c, d)
        x = c.vec("x", d, 0, 1)
        dom = c.call("domain.Hypercube", tuple(A(t) for t in lb), tuple(A(t) for t in ub))
        for nm, f in (("function", fn1(c.get("domain.transform_hypercube"), A(lb), A(ub))), ("method", c.attr(dom, "transform"))):
            def go():
                lab = f"{d}-d box {nm}"
                y = fl(c.call(f, x))
                for k in range(d):
                    c.sign(f"{lab}: coordinate {k} >= lower bound", tm.sub(y[k], lb[k]), ">=0")
                    c.sign(f"{lab}: coordinate {k} <= upper bound", tm.sub(ub[k], y[k]), ">=0")
                uniform(c, lab, y, fl(x), tm.mul(*w))
                batch(c, lab, f, d)
                periodic(c, lab, f, d)
            c.part(f"{d}-d {nm}", go)


@ob("C09", "parallelogram", "domain.Parallelogram.transform", "domain.affine_plane", "domain.linear_map")
def _(c):
    for d in (2, 3):
        a, b, e = c.vec("a", d), c.vec("b", d), c.vec("c", d)
        dom = c.call("domain.Parallelogram", *[tuple(A(t) for t in fl(v)) for v in (a, b, e)])
        f = c.attr(dom, "transform")
        u = [tm.sub(p, q) for p, q in zip(fl(b), fl(a))]
        v = [tm.sub(p, q) for p, q in zip(fl(e), fl(a))]

        def go():
            x = c.vec("x", 2, 0, 1)
            lab = f"parallelogram in {d}-d"
            c.eq(f"{lab}: affine image of the unit square", c.call(f, x), A([tm.add(p, tm.mul(x.a[0], q), tm.mul(x.a[1], r)) for p, q, r in zip(fl(a), u, v)]))
            area2 = tm.sub(tm.mul(dotp(u, u), dotp(v, v)), sq(dotp(u, v)))
            c.eq(f"{lab}: volume element", gram(fl(c.call(f, unit(c, 2))), fl(unit(c, 2))), area2)
            batch(c, lab, f, 2)
            periodic(c, lab, f, 2)
        c.part(f"{d}", go)


def radii(c):
    r1 = c.sym("r1", 0, None, True)
    r2 = tm.add(r1, c.sym("dr", 0, None, True))
    return r1, r2


@ob("C09", "annulus", "domain.transform_annulus", "domain.Annulus.transform")
def _(c):
    r1, r2 = radii(c)
    o = c.vec("o", 2)
    dom = c.call("domain.Annulus", A(r1), A(r2), tuple(A(t) for t in fl(o)))
    for nm, f in (("function", fn1(c.get("domain.transform_annulus"), A(r1), A(r2), o)), ("method", c.attr(dom, "transform"))):
        def go():
            x = unit(c, 2)
            y = fl(c.call(f, x))
            rr = tm.add(*[sq(tm.sub(p, q)) for p, q in zip(y, fl(o))])
            lab = f"annulus {nm}"
            c.sign(f"{lab}: outside the inner circle", tm.sub(rr, sq(r1)), ">=0")
            c.sign(f"{lab}: inside the outer circle", tm.sub(sq(r2), rr), ">=0")
            uniform(c, lab, y, fl(x), tm.mul(PI, tm.sub(sq(r2), sq(r1))))
            batch(c, lab, f, 2)
            periodic(c, lab, f, 2)
        c.part(nm, go)


@ob("C09", "disk", "domain.transform_circle", "domain.Disk.transform")
def _(c):
    r = c.sym("r", 0, None, True)
    o = c.vec("o", 2)
    dom = c.call("domain.Disk", A(r), tuple(A(t) for t in fl(o)))
    for nm, f in (("function", fn1(c.get("domain.transform_circle"), A(r), o)), ("method", c.attr(dom, "transform"))):
        def go():
            x = unit(c, 2)
            y = fl(c.call(f, x))
            rr = tm.add(*[sq(tm.sub(p, q)) for p, q in zip(y, fl(o))])
            lab = f"disk {nm}"
            c.sign(f"{lab}: inside the circle", tm.sub(sq(r), rr), ">=0")
            uniform(c, lab, y, fl(x), tm.mul(PI, sq(r)), tm.gt0(tm.mul(*fl(x))))
            batch(c, lab, f, 2)
            periodic(c, lab, f, 2)
        c.part(nm, go)


@ob("C09", "ball", "domain.transform_sphere", "domain.Sphere.transform")
def _(c):
    r = c.sym("r", 0, None, True)
    o = c.vec("o", 3)
    dom = c.call("domain.Sphere", A(r), tuple(A(t) for t in fl(o)))
    for nm, f in (("function", fn1(c.get("domain.transform_sphere"), A(r), o)), ("method", c.attr(dom, "transform"))):
        def go():
            x = c.vec("x", 3, 0, 1, True, True)
            y = fl(c.call(f, x))
            rr = tm.add(*[sq(tm.sub(p, q)) for p, q in zip(y, fl(o))])
            lab = f"ball {nm}"
            c.sign(f"{lab}: inside the sphere", tm.sub(sq(r), rr), ">=0")
            c.eq(f"{lab}: volume element is the measure everywhere", sq(det(jac(y, fl(x)))), sq(tm.mul(const(F(4, 3)), PI, tm.pw(r, const(3)))))
            batch(c, lab, f, 3)
            periodic(c, lab, f, 3)
        c.part(nm, go)


@ob("C09", "triangle", "domain.transform_triangle")
def _(c):
    for d in (2, 3):
        a, b, e = c.vec("a", d), c.vec("b", d), c.vec("c", d)
        f = fn1(c.get("domain.transform_triangle"), a, b, e)
        u = [tm.sub(p, q) for p, q in zip(fl(b), fl(a))]
        v = [tm.sub(p, q) for p, q in zip(fl(e), fl(a))]
        uu, vv, uv = dotp(u, u), dotp(v, v), dotp(u, v)
        g = tm.sub(tm.mul(uu, vv), sq(uv))

        def go():
            x = unit(c, 2)
            lab = f"triangle in {d}-d"
            y = fl(c.call(f, x))
            if not c.fact(f"{lab}: a point has {d} coordinates", len(y) == d, f"{len(y)}"):
                return
            w = [tm.sub(p, q) for p, q in zip(y, fl(a))]
            s = tm.div(tm.sub(tm.mul(vv, dotp(u, w)), tm.mul(uv, dotp(v, w))), g)
            t = tm.div(tm.sub(tm.mul(uu, dotp(v, w)), tm.mul(uv, dotp(u, w))), g)
            pos = tm.gt0(g)
            x0, x1 = fl(x)
            for half, cond in (("lower", tm.lt(tm.add(x0, x1), ONE)), ("upper", tm.lt(ONE, tm.add(x0, x1)))):
                As = tm.and_(pos, cond)
                geo = [({}, "")] if d == 2 else [(dict(zip(fl(a) + fl(b) + fl(e), map(const, g))), f" {g}") for g in ((0, 0, 0, 1, 0, 0, 0, 1, 0), (1, -2, 3, 4, 0, 1, -1, 2, 2))]
                for m, gl in geo:
                    S_, T_, P_ = (subst(q, m) for q in (s, t, As))
                    c.sign(f"{lab}{gl}, {half} half: first barycentric coordinate >= 0", S_, ">=0", P_)
                    c.sign(f"{lab}{gl}, {half} half: second barycentric coordinate >= 0", T_, ">=0", P_)
                    c.sign(f"{lab}{gl}, {half} half: sum of barycentric coordinates <= 1", tm.sub(ONE, tm.add(S_, T_)), ">=0", P_)
                    c.eq(f"{lab}{gl}, {half} half: volume element is constant", sq(det(jac([S_, T_], fl(x)))), ONE, P_)
                c.eq(f"{lab}, {half} half: lies in the plane", A(w), A([tm.add(tm.mul(s, p), tm.mul(t, q)) for p, q in zip(u, v)]), As)
            batch(c, lab, f, 2, ((1,), (2,), (3,), (2, 2), (1, 2, 1), (1, 2, 1, 1)))
            periodic(c, lab, f, 2)
        c.part(f"{d}", go)


def domains_of_ints(c, use, mixed=True):
    """domain objects with whole-number geometry"""
    for lb, ub in (((1,), (4,)), ((-1, 2), (2, 7)), ((0, 1, 2), (1, 3, 5))):
        ints(c, f"box {lb}-{ub}", lambda l, u: use("box", len(lb), c.call("domain.Hypercube", l, u)), lb, ub, mixed=mixed)
    ints(c, "ball", lambda r, o: use("ball", 3, c.call("domain.Sphere", r, o)), 3, (1, -2, 5), mixed=mixed)
    ints(c, "disk", lambda r, o: use("disk", 2, c.call("domain.Disk", r, o)), 3, (1, -2), mixed=mixed)
    ints(c, "annulus", lambda p, q, o: use("annulus", 2, c.call("domain.Annulus", p, q, o)), 1, 3, (1, -2), mixed=mixed)


@ob("C09", "whole-numbers", "domain.Hypercube.transform", "domain.Sphere.transform", "domain.Disk.transform", "domain.Annulus.transform")
def _(c):
    domains_of_ints(c, lambda nm, d, o: c.call(c.attr(o, "transform"), unit(c, d)))
    x = unit(c, 2)
    ints(c, "triangle", lambda *p: c.call("domain.transform_triangle", x, *p), iarr([0, 1]), iarr([3, 0]), iarr([-1, 5]))
    ints(c, "box function", lambda *p: c.call("domain.transform_hypercube", x, *p), iarr([-1, 2]), iarr([2, 7]))


@ob("C10", "whole-numbers", "domain.Hypercube.transform_bnd", "domain.Sphere.transform_bnd", "domain.Disk.transform_bnd")
def _(c):
    s = c.sym("s", 0, 1, False, True)
    t = c.sym("t", 0, 1, False, True)

    def use(nm, d, o):
        if nm == "annulus":
            return A(0)
        return c.call(c.attr(o, "transform_bnd"), A(s) if nm == "disk" or nm == "box" and d < 3 else A([s, t]))
    domains_of_ints(c, use)
    ints(c, "polyline", lambda *p: c.call("domain.transform_polyline", A(s), p), iarr([0, 0]), iarr([3, 4]), iarr([3, 5]))


@ob("C11", "whole-numbers", "domain.Hypercube", "domain.Sphere", "domain.Disk", "domain.Annulus")
def _(c):
    domains_of_ints(c, lambda nm, d, o: c.call(c.attr(o, "support")))
    domains_of_ints(c, lambda nm, d, o: A(0) if nm == "annulus" else c.call(c.attr(o, "includes"), c.vec("x", d)))
    pt = dict(ball=[1, -2, 8], disk=[-2, -2], annulus=[0, 0])

    def nv(nm, d, o):
        if nm == "annulus":
            return A(0)
        y = pt[nm] if nm != "box" else [{1: 4, 2: 0, 3: 1}[d]] + [{2: 7, 3: 2}.get(d)] * (d > 1) + [3] * (d > 2)
        v = c.call(c.attr(o, "normal_vec"), A(y))
        c.fact(f"{nm} {d}: a normal is returned", isinstance(v, Arr), f"{v}")
        return v
    domains_of_ints(c, nv, mixed=False)


# ---------------------------------------------------------------------- C10
def on_box(c, lab, y, lb, ub, assume=TRUE):
    for k in range(len(y)):
        c.sign(f"{lab}: coordinate {k} >= lower bound", tm.sub(y[k], lb[k]), ">=0", assume)
        c.sign(f"{lab}: coordinate {k} <= upper bound", tm.sub(ub[k], y[k]), ">=0", assume)
    c.eq(f"{lab}: some coordinate sits on a bound", tm.mul(*[tm.mul(tm.sub(p, q), tm.sub(p, r)) for p, q, r in zip(y, lb, ub)]), ZERO, assume)


def cells_of(ts, x, u, lim=200):
    """partition of (0,1) on which no comparison depends on x; yields (a, b, terms with x = a + (b-a) u)"""
    todo, out = [(F(0), F(1))], []
    while todo:
        lim -= 1
        if lim < 0:
            return None
        a, b = todo.pop()
        z = [subst(t, {x: tm.add(const(a), tm.mul(const(b - a), u))}) for t in ts]
        cut, open_ = None, False
        for t in tm.subterms(*z):
            if t.op in ("gt0", "eq0") and u in tm.syms(t):
                open_ = True
                if nf.has_sel(t.args[0]):
                    continue
                d, o = nf_const(D(t.args[0], u)), nf_const(subst(t.args[0], {u: ZERO}))
                if d is None or o is None or d == 0 or not 0 < -o / d < 1:
                    continue
                cut = -o / d
                break
        if cut is not None:
            m = a + (b - a) * cut
            todo += [(m, b), (a, m)]
        elif open_:
            return None
        else:
            out.append((a, b, z))
    return out


def nf_const(t):
    return t.data if t.op == "c" else None


def face_shares(c, lab, f, lb, ub):
    """measure of the parameter set mapped to every face, exactly (piecewise constant in the first parameter)"""
    d = len(lb)
    x = [c.sym("p0", 0, 1, False, True)] + [c.sym(f"p{i}", 0, 1, True, True) for i in range(1, d - 1)]
    y = fl(c.call(f, A(x)))
    u = c.sym("u", 0, 1, True, True)
    cells = cells_of(y, x[0], u)
    if cells is None:
        c.undecided(lab, "partition of the parameter interval not found")
        return
    share = {}
    for a, b, z in cells:
        face = None
        for k in range(d):
            for side, v in ((0, lb), (1, ub)):
                if nf.decide_eq(z[k], const(v[k])).ok:
                    face = (k, side)
        if face is None:
            c.undecided(f"{lab}: cell ({a},{b})", "face not determined")
            return
        share[face] = share.get(face, F(0)) + (b - a)
    w = [F(q) - F(p) for p, q in zip(lb, ub)]
    area = {(k, s): math.prod([w[j] for j in range(d) if j != k]) for k in range(d) for s in (0, 1)}
    tot = sum(area.values())
    for k in sorted(area):
        c.fact(f"{lab}: face {'lower' if k[1] == 0 else 'upper'} {k[0]} gets its share of parameters", share.get(k, F(0)) == area[k] / tot, f"{share.get(k, 0)} instead of {area[k] / tot}")


def _rowwise(c, names, done=300):
    """a large batch is mapped row by row: every row equals the image of that row alone"""
    o2, o3 = A([F(1, 3), F(2)]), A([F(1), F(-2), F(1, 2)])
    v = lambda *a: tuple(A([F(z) for z in r]) for r in a)
    lb, ub = A([F(-1), F(2), F(0)]), A([F(1), F(5), F(1, 2)])
    table = {
        "transform_hypercube": (3, (lb, ub)), "transform_annulus": (2, (A(F(1, 2)), A(F(2)), o2)), "transform_circle": (2, (A(F(2)), o2)),
        "transform_sphere": (3, (A(F(2)), o3)), "transform_triangle": (2, v((0, 0), (2, 1), (1, 3))),
        "transform_sphere_bnd": (2, (A(F(2)), o3)), "transform_circle_bnd": (None, (A(F(2)), o2)), "transform_polyline": (None, (v((0, 0), (3, 4), (3, 7)),)),
        "transform_hypercube_bnd": (2, (lb, ub)),
    }
    for nm in names:
        dim, args = table[nm]
        f = c.get("domain." + nm)
        heavy = nm in ("transform_hypercube_bnd", "transform_polyline")
        for n in ([9, 40] if heavy else [9, 40, done]) + sizes(c, ["domain"], 40 if heavy else done, 260 if heavy else 2100):
            def go():
                # the rows repeat a few symbolic points, so that every row has a known image
                rows = [c.vec(f"u{k}_", dim) if dim else c.s(f"u{k}") for k in range(4)]
                # interior maps and the box are entered without wrapping, boundary maps with it
                X = Arr(np.array([rows[(k * k + k // 3) % 4].a if dim else rows[(k * k + k // 3) % 4].item() for k in range(n)], dtype=object).reshape((n,) + ((dim,) if dim else ())), "f")
                r = as_arr(c.call(f, X, *args))
                one = [as_arr(c.call(f, x, *args)) for x in rows]
                if not c.fact(f"{nm}, {n} points: one image per point", r.shape == (n,) + one[0].shape, f"shape {r.shape}"):
                    return
                bad, seen = None, {}
                for k in range(n):
                    j = (k * k + k // 3) % 4
                    for p, q in zip(r.a[k].reshape(-1), one[j].a.reshape(-1)):
                        if (p, q) not in seen:
                            seen[p, q] = "holds" if p is q else nf.decide_eq(p, q).status
                        if seen[p, q] == "violated":
                            bad = bad or f"row {k} is {tm.show(p, 5)}, alone it is {tm.show(q, 5)}"
                        elif seen[p, q] == "undecided":
                            c.undecided(f"{nm}, {n} points", "rows not comparable")
                            return
                c.fact(f"{nm}, {n} points: every row is mapped like the point alone", bad is None, bad or "")

            c.part(f"{nm} {n}", go)


@ob("C09", "large-batches", "domain.transform_hypercube", "domain.transform_annulus", "domain.transform_circle", "domain.transform_sphere", "domain.transform_triangle", timeout=120)
def _(c):
    _rowwise(c, ["transform_hypercube", "transform_annulus", "transform_circle", "transform_sphere", "transform_triangle"])


@ob("C10", "large-batches", "domain.transform_sphere_bnd", "domain.transform_circle_bnd", "domain.transform_polyline", "domain.transform_hypercube_bnd", timeout=240)
def _(c):
    _rowwise(c, ["transform_sphere_bnd", "transform_circle_bnd", "transform_polyline", "transform_hypercube_bnd"])


def _independent(c, cases):
    """batches whose rows lie inside, on the edge of and outside the reference square: what becomes of a row does not
    depend on its neighbours, and a batch of one or two rows stays a batch"""
    q = F(1, 4)
    vals = [(F(1), q, F(0)), (F(-3, 4), F(5, 2), F(1, 3)), (F(3, 8), F(1), F(1)), (F(7, 4), F(1), F(2, 3)), (F(1), F(1), F(1)), (F(0), F(0), F(0)), (F(2, 3), F(-2), q), (q, F(3, 8), F(2, 3)), (F(5, 2), q, F(0))]
    for lab, mk, dim, least in cases:
        def go():
            f = mk()
            rows = [A(list(v[:dim])) if dim else A(v[0]) for v in vals]
            one = [as_arr(c.call(f, x)) for x in rows]
            for pick in ([0], [3], [5, 1], [1, 2], [0, 1, 2, 3], [3, 1, 4, 6, 5], [8, 7, 6, 5, 4, 3, 2, 1, 0], [0, 3, 5, 8], [1, 1, 1], [2, 4]):
                if len(pick) < least:
                    continue
                X = Arr(np.array([rows[k].a if dim else rows[k].item() for k in pick], dtype=object).reshape((len(pick),) + ((dim,) if dim else ())), "f")
                r = as_arr(c.call(f, X))
                if c.fact(f"{lab}, rows {pick}: one image per row", r.shape == (len(pick),) + one[0].shape, f"shape {r.shape}"):
                    c.eq(f"{lab}, rows {pick}: every row is mapped like the point alone", r, Arr(np.array([one[k].a for k in pick], dtype=object), "f"))
        c.part(lab, go)


def _geo(c):
    o2, o3 = A([F(1, 3), F(2)]), A([F(1), F(-2), F(1, 2)])
    v = lambda *a: tuple(A([F(z) for z in r]) for r in a)
    tp = lambda *a: tuple(map(float_, a))
    get = lambda n, *a: (lambda: fn1(c.get("domain." + n), *a))
    met = lambda n, m, *a: (lambda: c.attr(c.call("domain." + n, *a), m))
    lb, ub = (F(-1), F(2), F(0)), (F(1), F(5), F(1, 2))
    par = (tp(0, 1), tp(3, 0), tp(-1, 5))
    par3 = (tp(0, 1, 2), tp(3, 0, 1), tp(-1, 5, 0))
    inner = [("box function", get("transform_hypercube", A(lb), A(ub)), 3, 1), ("annulus function", get("transform_annulus", A(F(1, 2)), A(F(2)), o2), 2, 1), ("disk function", get("transform_circle", A(F(2)), o2), 2, 1),
             ("ball function", get("transform_sphere", A(F(2)), o3), 3, 1), ("triangle function", get("transform_triangle", *v((0, 0), (2, 1), (1, 3))), 2, 1), ("triangle in space", get("transform_triangle", *v((0, 0, 1), (2, 1, 0), (1, 3, 1))), 2, 1),
             ("parallelogram", met("Parallelogram", "transform", *par), 2, 1), ("ball", met("Sphere", "transform", float_(2), tp(1, -2, F(1, 2))), 3, 1),
             ("disk", met("Disk", "transform", float_(2), tp(1, -2)), 2, 1), ("annulus", met("Annulus", "transform", float_(1), float_(2), tp(1, -2)), 2, 1)]
    inner += [(f"{d}-d box", met("Hypercube", "transform", tp(*lb[:d]), tp(*ub[:d])), d, 1) for d in (1, 2, 3)]
    outer = [("sphere function", get("transform_sphere_bnd", A(F(2)), o3), 2, 1), ("circle function", get("transform_circle_bnd", A(F(2)), o2), None, 2), ("polyline", get("transform_polyline", v((0, 0), (3, 4), (3, 7))), None, 1),
             ("box boundary function", get("transform_hypercube_bnd", A(lb), A(ub)), 2, 1), ("polyline in space", get("transform_polyline", v((0, 0, 1), (1, 2, 3), (1, 0, 3))), None, 1),
             ("sphere", met("Sphere", "transform_bnd", float_(2), tp(1, -2, F(1, 2))), 2, 1), ("circle", met("Disk", "transform_bnd", float_(2), tp(1, -2)), None, 2), ("parallelogram boundary", met("Parallelogram", "transform_bnd", *par), None, 1),
             ("3-d box boundary", met("Hypercube", "transform_bnd", tp(*lb), tp(*ub)), 2, 1), ("2-d box boundary", met("Hypercube", "transform_bnd", tp(*lb[:2]), tp(*ub[:2])), None, 1)]
    return inner, outer


@ob("C09", "independent-rows", "domain.transform_hypercube", "domain.transform_annulus", "domain.transform_circle", "domain.transform_sphere", "domain.transform_triangle", "domain.Parallelogram.transform", "domain.Hypercube.transform")
def _(c):
    _independent(c, _geo(c)[0])


@ob("C10", "independent-rows", "domain.transform_sphere_bnd", "domain.transform_circle_bnd", "domain.transform_polyline", "domain.transform_hypercube_bnd", "domain.Parallelogram.transform_bnd")
def _(c):
    _independent(c, _geo(c)[1])


@ob("C10", "box", "domain.transform_hypercube_bnd", "domain.Hypercube.transform_bnd", timeout=240)
def _(c):
    for d in (2, 3):
        lb, ub, w = box(c, d)
        dom = c.call("domain.Hypercube", tuple(A(t) for t in lb), tuple(A(t) for t in ub))
        for nm, f in (("function", fn1(c.get("domain.transform_hypercube_bnd"), A(lb), A(ub))), ("method", c.attr(dom, "transform_bnd"))):
            def go():
                lab = f"{d}-d box {nm}"
                x = c.vec("x", d - 1, 0, 1, False, True)
                r = as_arr(c.call(f, x))
                y = fl(r)
                c.fact(f"{lab}: shape of the image", r.shape in ((d,), (1, d)), f"{r.shape}")
                on_box(c, lab, y, lb, ub)
                tot = tm.mul(const(2), tm.add(*[tm.mul(*[w[j] for j in range(d) if j != k]) for k in range(d)]))
                uniform(c, lab, y, fl(x), tot)
            c.part(f"{d} {nm}", go)


@ob("C10", "box-faces", "domain.transform_hypercube_bnd", "domain.Hypercube.transform_bnd")
def _(c):
    for lb, ub in (([0, 0], [1, 1]), ([-1, 2], [2, 7]), ([0, 1, 2], [1, 3, 5]), ([-2, F(1, 2), 0], [3, 1, F(1, 3)]), ([0, 0, 0, 0], [1, 2, 3, 4])):
        dom = c.call("domain.Hypercube", tuple(map(float_, lb)), tuple(map(float_, ub)))
        for nm, f in (("function", fn1(c.get("domain.transform_hypercube_bnd"), A(lb), A(ub))), ("method", c.attr(dom, "transform_bnd"))):
            c.part(f"{lb}", lambda: face_shares(c, f"box {list(map(str, lb))}-{list(map(str, ub))} {nm}", f, lb, ub))


def float_(v):
    return A(const(F(v)))


@ob("C10", "box-shapes", "domain.transform_hypercube_bnd")
def _(c):
    lb, ub = [const(F(-1)), const(F(2))], [const(F(2)), const(F(7))]
    f = fn1(c.get("domain.transform_hypercube_bnd"), A(lb), A(ub))
    s = c.sym("s", 0, 1, False, True)
    t = c.sym("t", 0, 1, False, True)
    one = as_arr(c.call(f, A([[s]])))
    c.fact("column input gives one point per row", one.shape == (1, 2), f"{one.shape}")
    if one.shape == (1, 2):
        c.part("scalar", lambda: c.eq("a scalar parameter gives a single point", c.call(f, A(s)), A(fl(one))))
        two = as_arr(c.call(f, A([s, t])))
        oth = as_arr(c.call(f, A([[t]])))
        c.eq("a vector of parameters gives one point each", two, A([fl(one), fl(oth)]))
    lb3, ub3 = A([0, 1, 2]), A([1, 3, 5])
    g = fn1(c.get("domain.transform_hypercube_bnd"), lb3, ub3)
    batch(c, "3-d box boundary", g, 2, ((1,), (2,), (2, 2)))
    c.part("wrap", lambda: periodic(c, "3-d box boundary", g, 2))
    c.raises("wrong number of parameters is rejected", lambda: c.call(g, c.vec("q", 3)))


@ob("C10", "interval", "domain.transform_hypercube_bnd", "domain.Hypercube.transform_bnd")
def _(c):
    lb, ub, w = box(c, 1)
    dom = c.call("domain.Hypercube", (A(lb[0]),), (A(ub[0]),))
    for nm, f in (("function", fn1(c.get("domain.transform_hypercube_bnd"), A(lb), A(ub))), ("method", c.attr(dom, "transform_bnd"))):
        lo, hi = c.sym("lo", 0, F(1, 2), True, True), c.sym("hi", F(1, 2), 1, True, True)
        s = c.sym("s", 0, 1, False, True)
        for k, v in (("scalar", lambda z: A(z)), ("vector", lambda z: A([z])), ("column", lambda z: A([[z]]))):
            def go():
                ya, yb = fl(c.call(f, v(lo))), fl(c.call(f, v(hi)))
                c.fact(f"interval {nm} {k}: one coordinate", len(ya) == 1, f"{len(ya)}")
                c.eq(f"interval {nm} {k}: both end points share the parameters equally", tm.mul(tm.sub(ya[0], lb[0]), tm.sub(yb[0], lb[0])), ZERO)
                c.eq(f"interval {nm} {k}: end points are reached", tm.add(ya[0], yb[0]), tm.add(lb[0], ub[0]))
                on_box(c, f"interval {nm} {k}", fl(c.call(f, v(s))), lb, ub)
            c.part(f"{nm} {k}", go)


@ob("C10", "circle", "domain.transform_circle_bnd", "domain.Disk.transform_bnd")
def _(c):
    r = c.sym("r", 0, None, True)
    o = c.vec("o", 2)
    dom = c.call("domain.Disk", A(r), tuple(A(t) for t in fl(o)))
    for nm, f in (("function", fn1(c.get("domain.transform_circle_bnd"), A(r), o)), ("method", c.attr(dom, "transform_bnd"))):
        for k, v in (("scalar", lambda z: A(z)), ("vector", lambda z: A([z, c.sym("t", 0, 1, False, True)])), ("column", lambda z: A([[z], [c.sym("t", 0, 1, False, True)]]))):
            def go():
                s = c.sym("s", 0, 1, False, True)
                y_ = as_arr(c.call(f, v(s)))
                c.fact(f"circle {nm} {k}: one point per parameter", y_.shape == ((2,) if k == "scalar" else (2, 2)), f"{y_.shape}")
                y = fl(y_)[:2]
                rr = tm.add(*[sq(tm.sub(p, q)) for p, q in zip(y, fl(o))])
                c.eq(f"circle {nm} {k}: on the circle", rr, sq(r))
                # constant speed, whole number of turns
                w = tm.div(tm.sub(tm.mul(tm.sub(y[0], o.a[0]), D(y[1], s)), tm.mul(tm.sub(y[1], o.a[1]), D(y[0], s))), tm.mul(sq(r), const(2), PI))
                turns = [n for n in (1, 2, 3, 4, -1, -2, -3, -4) if nf.decide_eq(w, const(n)).ok]
                if turns:
                    c.fact(f"circle {nm} {k}: whole number of turns at constant speed", True)
                else:
                    c.eq(f"circle {nm} {k}: whole number of turns at constant speed", w, const(2))
                y0 = c.sym("y", 0, 1, True, True)
                for sh in (1, 2, -1):
                    c.eq(f"circle {nm} {k}: parameters shifted by {sh} wrap", Arr(as_arr(c.call(f, v(tm.add(const(sh), y0)))).a.reshape(-1)[:2], "f"), Arr(as_arr(c.call(f, v(y0))).a.reshape(-1)[:2], "f"))
            c.part(f"{nm} {k}", go)


@ob("C10", "sphere", "domain.transform_sphere_bnd", "domain.Sphere.transform_bnd")
def _(c):
    r = c.sym("r", 0, None, True)
    o = c.vec("o", 3)
    dom = c.call("domain.Sphere", A(r), tuple(A(t) for t in fl(o)))
    for nm, f in (("function", fn1(c.get("domain.transform_sphere_bnd"), A(r), o)), ("method", c.attr(dom, "transform_bnd"))):
        def go():
            x = c.vec("x", 2, 0, 1, True, True)
            y = fl(c.call(f, x))
            lab = f"sphere {nm}"
            c.eq(f"{lab}: on the sphere", tm.add(*[sq(tm.sub(p, q)) for p, q in zip(y, fl(o))]), sq(r))
            uniform(c, lab, y, fl(x), tm.mul(const(4), PI, sq(r)))
            batch(c, lab, f, 2)
            periodic(c, lab, f, 2)
        c.part(nm, go)


def walk(pts, lens, s, wrap=None):
    """constant-speed walk along rational-length segments as gated value"""
    L = sum(lens)
    out = None
    cum = [F(0)]
    for l in lens:
        cum.append(cum[-1] + l)
    segs = []
    for k in range(len(lens)):
        al = tm.mul(tm.sub(tm.mul(s, const(L)), const(cum[k])), const(1 / F(lens[k])))
        segs.append([tm.add(const(F(p)), tm.mul(al, const(F(q) - F(p)))) for p, q in zip(pts[k], pts[k + 1])])
    res = segs[-1]
    for k in range(len(lens) - 2, -1, -1):
        cond = tm.le(tm.mul(s, const(L)), const(cum[k + 1]))
        res = [tm.sel(cond, a, b) for a, b in zip(segs[k], res)]
    return res


POLYS = [
    ([(0, 0), (3, 4)], [5]),
    ([(1, 2), (4, 6), (4, 7)], [5, 1]),
    ([(0, 0), (3, 0), (3, 4), (0, 0)], [3, 4, 5]),
    ([(0, 0, 0), (1, 2, 2), (1, 2, 0)], [3, 2]),
    ([(1, 1), (4, 1), (4, 2), (2, 2), (2, 5)], [3, 1, 2, 3]),
]


@ob("C10", "polyline", "domain.transform_polyline")
def _(c):
    for pts, lens in POLYS:
        s = c.sym("s", 0, 1, False, True)
        P = tuple(A(list(map(const, p))) for p in pts)
        lab = f"polyline {pts}"
        c.part(lab, lambda: c.eq(f"{lab}: constant-speed walk, scalar parameter", c.call("domain.transform_polyline", A(s), P), A(walk(pts, lens, s))))
        t = c.sym("t", 0, 1, False, True)
        c.part(lab, lambda: c.eq(f"{lab}: vector of parameters", c.call("domain.transform_polyline", A([s, t]), P), A([walk(pts, lens, s), walk(pts, lens, t)])))
        c.part(lab, lambda: periodic1(c, lab, P))
    # one symbolic segment / two symbolic segments
    s = c.sym("s", 0, 1, True, True)
    a, b, e = c.vec("a", 2), c.vec("b", 2), c.vec("c", 2)
    c.part("segment", lambda: c.eq("segment between arbitrary points", c.call("domain.transform_polyline", A(s), (a, b)), A([tm.add(p, tm.mul(s, tm.sub(q, p))) for p, q in zip(fl(a), fl(b))])))

    def two():
        n = lambda p, q: tm.sqrt(tm.add(*[sq(tm.sub(x, y)) for x, y in zip(fl(p), fl(q))]))
        l1, l2 = n(a, b), n(b, e)
        L = tm.add(l1, l2)
        y = fl(c.call("domain.transform_polyline", A(s), (a, b, e)))
        pos = tm.and_(tm.gt0(l1), tm.gt0(l2))
        al = tm.div(tm.mul(s, L), l1)
        c.eq("two arbitrary segments: first", A(y), A([tm.add(p, tm.mul(al, tm.sub(q, p))) for p, q in zip(fl(a), fl(b))]), tm.and_(pos, tm.lt(tm.mul(s, L), l1)))
        be = tm.div(tm.sub(tm.mul(s, L), l1), l2)
        c.eq("two arbitrary segments: second", A(y), A([tm.add(p, tm.mul(be, tm.sub(q, p))) for p, q in zip(fl(b), fl(e))]), tm.and_(pos, tm.lt(l1, tm.mul(s, L))))

    c.part("two", two)


def periodic1(c, lab, P):
    y0 = c.sym("y", 0, 1, True, True)
    w = c.call("domain.transform_polyline", A(y0), P)
    for k in (1, 2, -1):
        c.eq(f"{lab}: parameters shifted by {k} wrap", c.call("domain.transform_polyline", A(tm.add(const(k), y0)), P), w)


def worst_roundings(c, lab, got, par, vals, ok):
    """got: components of the image of a parameter with fractional part par, with an unknown rounding error of every sum of
    three or more numbers. ok(values) must hold for the extreme errors and the extreme fractional parts, which rounding makes
    attainable (a fractional part rounds to 1 for tiny negative parameters)."""
    ds = sorted(c.I.deltas, key=lambda t: t.id)
    if len(ds) > 6:
        c.undecided(lab, f"{len(ds)} roundings")
        return
    e = c.I.rounding
    bad = None
    for v in vals:
        for es in itertools.product((-e, 0, e), repeat=len(ds)):
            m = {d: const(x) for d, x in zip(ds, es)}
            m[par] = const(v)
            r = [tm.subst(t, m) for t in got]
            try:
                r = [float(t.data) if t.op == "c" else float(nf.decide_const(t)) for t in r]
            except Exception:
                try:
                    r = [float(tm.evaluate(t, {})) for t in r]
                except Exception as x:
                    c.undecided(lab, f"value not computable: {x}")
                    return
            if not ok(r):
                bad = f"fractional part {float(v)!r}, relative rounding errors {[float(x) for x in es]} of the sums: the image is {r}"
                break
        if bad:
            break
    c.fact(lab, bad is None, bad or "")


@ob("C10", "rounded-sums", "domain.transform_polyline", "domain.Parallelogram.transform_bnd", "domain.transform_hypercube_bnd")
def _(c):
    """the maps select a segment or a face by comparing the parameter with running sums: the last entry must be reached although
    the total and the running sum are rounded differently"""
    e = F(1, 2**22)
    near = (F(0), F(1, 2**24), 1 - F(1, 2**24), F(1))
    polys = [p for p, _ in POLYS if len(p) > 3] + [[(0, 0), (1, 0), (1, 1), (0, 1), (0, 0)]]

    def dist(q, pts):
        best = None
        for p, r in zip(pts, pts[1:]):
            d = [y - x for x, y in zip(p, r)]
            t = sum((a - x) * w for a, x, w in zip(q, p, d)) / sum(w * w for w in d)
            t = min(1.0, max(0.0, t))
            z = sum((a - x - t * w) ** 2 for a, x, w in zip(q, p, d)) ** 0.5
            best = z if best is None else min(best, z)
        return best

    def start():
        c.I.rounding, c.I.deltas = e, {}

    try:
        for pts in polys:
            def go():
                start()
                s = c.sym("s")
                P = tuple(A([const(x) for x in p]) for p in pts)
                y = fl(c.call("domain.transform_polyline", A(s), P))
                worst_roundings(c, f"polyline {pts}: stays on the line when the sums are rounded", y, tm.fn("frac", s), near, lambda r: dist(r, pts) < 1e-5)

            c.part(f"polyline {pts}", go)

        def par():
            start()
            s = c.sym("s")
            dom = c.call("domain.Parallelogram", *[tuple(map(float_, q)) for q in ((0, 0), (3, 4), (0, 2))])
            y = fl(c.call(c.attr(dom, "transform_bnd"), A(s)))
            worst_roundings(c, "parallelogram: stays on the boundary when the sums are rounded", y, tm.fn("frac", s), near, lambda r: dist(r, [(0, 0), (3, 4), (3, 6), (0, 2), (0, 0)]) < 1e-5)

        c.part("parallelogram", par)
        for lb, ub in (([-1, 2], [2, 7]), ([0, 1, 2], [1, 3, 5])):
            def box_():
                start()
                d = len(lb)
                s = c.sym("s")
                rest = [const(F(1, 3))] * (d - 2)
                y = fl(c.call("domain.transform_hypercube_bnd", A([s] + rest), A([const(x) for x in lb]), A([const(x) for x in ub])))
                on = lambda r: all(l - 1e-5 <= x <= u + 1e-5 for x, l, u in zip(r, lb, ub)) and any(min(abs(x - l), abs(x - u)) < 1e-5 for x, l, u in zip(r, lb, ub))
                worst_roundings(c, f"box {lb}-{ub}: stays on the boundary when the sums are rounded", y, tm.fn("frac", s), near, on)

            c.part(f"box {lb}", box_)
    finally:
        c.I.rounding = None


@ob("C10", "parallelogram", "domain.Parallelogram.transform_bnd")
def _(c):
    for a, u, v in (((0, 0), (3, 4), (0, 2)), ((1, 2), (3, 4), (-4, 3)), ((-2, 1), (0, 7), (5, 12)), ((1, 0, 2), (1, 2, 2), (2, 0, 0))):
        nu, nv = (math.isqrt(sum(t * t for t in w)) for w in (u, v))
        pt = lambda i, j: tuple(p + i * q + j * r for p, q, r in zip(a, u, v))
        loop = [pt(0, 0), pt(1, 0), pt(1, 1), pt(0, 1), pt(0, 0)]
        lens = [nu, nv, nu, nv]
        dom = c.call("domain.Parallelogram", *[tuple(map(float_, q)) for q in (pt(0, 0), pt(1, 0), pt(0, 1))])
        s = c.sym("s", 0, 1, False, True)
        lab = f"parallelogram a={a}, b-a={u}, c-a={v}"
        c.part(lab, lambda: c.eq(f"{lab}: closed walk around the parallelogram", c.call(c.attr(dom, "transform_bnd"), A(s)), A(walk(loop, lens, s))))


# ---------------------------------------------------------------------- C11
@ob("C11", "support", "domain.Hypercube.support", "domain.Parallelogram.support", "domain.Sphere.support", "domain.Disk.support", "domain.Annulus.support")
def _(c):
    sup = lambda d: c.call(c.attr(d, "support"))
    tup = lambda ts: tuple(A(t) for t in ts)
    for d in (1, 2, 3, 4):
        lb, ub, w = box(c, d)
        c.part(f"box{d}", lambda: c.eq(f"measure of a {d}-d box", sup(c.call("domain.Hypercube", tup(lb), tup(ub))), tm.mul(*w)))
    for d in (2, 3):
        a, b, e = c.vec("a", d), c.vec("b", d), c.vec("c", d)
        u = [tm.sub(p, q) for p, q in zip(fl(b), fl(a))]
        v = [tm.sub(p, q) for p, q in zip(fl(e), fl(a))]
        c.part(f"par{d}", lambda: c.eq(f"area of a parallelogram in {d}-d", sup(c.call("domain.Parallelogram", tup(fl(a)), tup(fl(b)), tup(fl(e)))), tm.sqrt(tm.sub(tm.mul(dotp(u, u), dotp(v, v)), sq(dotp(u, v))))))
    r = c.sym("r", 0, None, True)
    r1, r2 = radii(c)
    o2, o3 = tup(fl(c.vec("o", 2))), tup(fl(c.vec("o", 3)))
    c.part("ball", lambda: c.eq("volume of a ball", sup(c.call("domain.Sphere", A(r), o3)), tm.mul(const(F(4, 3)), PI, tm.pw(r, const(3)))))
    c.part("disk", lambda: c.eq("area of a disk", sup(c.call("domain.Disk", A(r), o2)), tm.mul(PI, sq(r))))
    c.part("ann", lambda: c.eq("area of an annulus", sup(c.call("domain.Annulus", A(r1), A(r2), o2)), tm.mul(PI, tm.sub(sq(r2), sq(r1)))))


@ob("C11", "dimension", "domain.Hypercube.dimension", "domain.Sphere.dimension")
def _(c):
    for d in (1, 2, 3):
        lb, ub, w = box(c, d)
        c.fact(f"{d}-d box", c.attr(c.call("domain.Hypercube", tuple(map(A, lb)), tuple(map(A, ub))), "dimension") == d)
    r = A(c.sym("r", 0, None, True))
    o2, o3 = tuple(map(A, fl(c.vec("o", 2)))), tuple(map(A, fl(c.vec("o", 3))))
    c.fact("ball", c.attr(c.call("domain.Sphere", r, o3), "dimension") == 3)
    c.fact("disk", c.attr(c.call("domain.Disk", r, o2), "dimension") == 2)
    c.fact("annulus", c.attr(c.call("domain.Annulus", r, r, o2), "dimension") == 2)
    for d in (2, 3):
        v = tuple(map(A, fl(c.vec("a", d))))
        w = tuple(map(A, fl(c.vec("b", d))))
        z = tuple(map(A, fl(c.vec("c", d))))
        c.fact(f"parallelogram in {d}-d", c.attr(c.call("domain.Parallelogram", v, w, z), "dimension") == d)


def member(r, d):
    """membership as one truth value: either a truth value or one per coordinate"""
    r = as_arr(r)
    return [tm.and_(*[tm.as_bool(t) for t in fl(r)])] if r.shape in ((), (d,)) else None


@ob("C11", "membership", "domain.Hypercube.includes", "domain._Spherical.includes")
def _(c):
    tup = lambda ts: tuple(A(t) for t in ts)
    for d in (1, 2, 3):
        lb, ub, w = box(c, d)
        dom = c.call("domain.Hypercube", tup(lb), tup(ub))
        inc = c.attr(dom, "includes")
        x = c.vec("x", d)
        m = member(c.call(inc, x), d)
        want = tm.and_(*[tm.and_(tm.le(l, t), tm.le(t, u)) for l, t, u in zip(lb, fl(x), ub)])
        c.eq(f"point of a {d}-d box", m[0], want)
        X = c.arr("X", (2, d))
        rb = as_arr(c.call(inc, X))
        ok = rb.shape in ((2, d), (2,))
        c.fact(f"{d}-d box: one answer per point", ok, f"{rb.shape}")
        if ok:
            for i in range(2):
                c.eq(f"point {i} of a batch, {d}-d box", member(Arr(rb.a[i], "b"), d)[0] if rb.ndim == 2 else rb.a[i], tm.and_(*[tm.and_(tm.le(l, t), tm.le(t, u)) for l, t, u in zip(lb, X.a[i], ub)]))
    r = c.sym("r", 0, None, True)
    for nm, d in (("Sphere", 3), ("Disk", 2)):
        o = c.vec("o", d)
        inc = c.attr(c.call("domain." + nm, A(r), tup(fl(o))), "includes")
        x = c.vec("x", d)
        q = tm.add(*[sq(tm.sub(a, b)) for a, b in zip(fl(x), fl(o))])
        m = item(c.call(inc, x))
        c.eq(f"{nm}: points closer than the radius are inside", m, tm.TRUE, tm.lt(q, sq(r)))
        c.eq(f"{nm}: points farther than the radius are outside", m, tm.FALSE, tm.lt(sq(r), q))
        X = c.arr("X", (2, d))
        rb = as_arr(c.call(inc, X))
        if c.fact(f"{nm}: one answer per point", rb.shape == (2,), f"{rb.shape}"):
            for i in range(2):
                c.eq(f"{nm}: point {i} of a batch", rb.a[i], subst(m, dict(zip(fl(x), X.a[i]))))


@ob("C11", "normals-sphere", "domain._Spherical.normal_vec")
def _(c):
    r = c.sym("r", 0, None, True)
    tup = lambda ts: tuple(A(t) for t in ts)
    for nm, d in (("Sphere", 3), ("Disk", 2)):
        o = c.vec("o", d)
        nv = c.attr(c.call("domain." + nm, A(r), tup(fl(o))), "normal_vec")
        th, ph = c.sym("th"), c.sym("ph")
        dirs = lambda th, ph: [tm.mul(tm.fn("cos", th), tm.fn("cos", ph)), tm.mul(tm.fn("sin", th), tm.fn("cos", ph)), tm.fn("sin", ph)] if d == 3 else [tm.fn("cos", th), tm.fn("sin", th)]
        n1, n2 = dirs(th, ph), dirs(c.sym("th2"), c.sym("ph2"))
        at = lambda n: [tm.add(p, tm.mul(r, q)) for p, q in zip(fl(o), n)]

        def strip(v):
            return v.a if isinstance(v, Choice) and v.b is None else v.b if isinstance(v, Choice) and v.a is None else v

        def go(v, want, lab):
            # the value returned when one is returned
            v = strip(v)
            if not c.fact(f"{lab}: a normal is returned", isinstance(v, Arr), f"{v}"):
                return
            c.eq(f"{lab}: outward unit normal", v, want)
        c.part(nm, lambda: go(c.call(nv, A(at(n1))), A(n1), nm))
        for k in (2, 3):
            ns = [n1, n2, dirs(c.sym("th3"), c.sym("ph3"))][:k]
            c.part(nm, lambda: go(c.call(nv, A([at(n) for n in ns])), A(ns), f"{nm}, batch of {k}"))
        c.part(nm, lambda: go(c.call(nv, A([[at(n1), at(n2)]])), A([[n1, n2]]), f"{nm}, two batch axes"))
        # rejection: radius off by more than the tolerance
        at_ = c.sym("tol", 0, None, True)
        off = c.sym("off", 0, None, True)
        for side, rad in (("outside", tm.add(r, at_, off)),):
            y = [tm.add(p, tm.mul(rad, q)) for p, q in zip(fl(o), n1)]
            v = c.call(nv, A(y), rtol=A(0), atol=A(at_))
            none_when(c, f"{nm}: point {side} the boundary has no normal", v)
            for lab, yy in (("first", [y, at(n2)]), ("last", [at(n2), y])):
                v = c.call(nv, A(yy), rtol=A(0), atol=A(at_))
                none_when(c, f"{nm}: batch whose {lab} point is off the boundary has no normals", v)
        # distances inside
        rr = tm.add(at_, off, c.sym("rest", 0, None, True))
        nv2 = c.attr(c.call("domain." + nm, A(rr), tup(fl(o))), "normal_vec")
        y = [tm.add(p, tm.mul(c.sym("rest", 0, None, True), q)) for p, q in zip(fl(o), n1)]
        none_when(c, f"{nm}: interior point has no normal", c.call(nv2, A(y), rtol=A(0), atol=A(at_)))


def none_when(c, label, v, assume=TRUE):
    """the (gated) value is None whenever assume holds"""
    def walk(v, cond):
        if v is None:
            return
        if isinstance(v, Choice):
            walk(v.a, tm.and_(cond, v.c))
            walk(v.b, tm.and_(cond, tm.not_(v.c)))
            return
        vd = nf.decide_eq(cond, tm.FALSE, assume)
        c.add(vd.status, label, vd.why, vd.witness, tm.show(cond, 6)[:300], "None")
        walk.n = 1
    walk.n = 0
    walk(v, TRUE)
    if not walk.n:
        c.add("holds", label, "no value on any path")


@ob("C11", "normals-box", "domain.Hypercube.normal_vec")
def _(c):
    tup = lambda ts: tuple(A(t) for t in ts)
    tol = c.sym("tol", 0, None, True)
    for d in (1, 2, 3):
        def setup(face, side):
            lb = [c.sym(f"l{i}") for i in range(d)]
            y, ub = [], []
            for i in range(d):
                p, q = c.sym(f"p{i}", 0, None, True), c.sym(f"q{i}", 0, None, True)
                y_ = tm.add(lb[i], tol, p)
                u_ = tm.add(y_, tol, q)
                ub.append(u_)
                y.append(y_ if i != face else (lb[i] if side == 0 else u_))
            return lb, ub, y
        for face in range(d):
            for side in (0, 1):
                lb, ub, y = setup(face, side)
                lab = f"{d}-d box, {'lower' if side == 0 else 'upper'} face {face}"

                def go():
                    nv = c.attr(c.call("domain.Hypercube", tup(lb), tup(ub)), "normal_vec")
                    n = [ZERO] * d
                    n[face] = const(-1 if side == 0 else 1)
                    v = c.call(nv, A(y), rtol=A(0), atol=A(tol))
                    is_value(c, f"{lab}: outward unit normal", v, A(n))
                    v = c.call(nv, A([y, y]), rtol=A(0), atol=A(tol))
                    is_value(c, f"{lab}: outward unit normals of a batch", v, A([n, n]))
                c.part(lab, go)
        lb, ub, y = setup(None, None)

        def inside():
            nv = c.attr(c.call("domain.Hypercube", tup(lb), tup(ub)), "normal_vec")
            none_when(c, f"{d}-d box: interior point has no normal", c.call(nv, A(y), rtol=A(0), atol=A(tol)))
            z = list(y)
            z[0] = tm.sub(tm.sub(lb[0], tol), c.sym("off", 0, None, True))
            none_when(c, f"{d}-d box: point below the box has no normal", c.call(nv, A(z), rtol=A(0), atol=A(tol)))
            z[0] = tm.add(tm.add(ub[0], tol), c.sym("off", 0, None, True))
            none_when(c, f"{d}-d box: point above the box has no normal", c.call(nv, A(z), rtol=A(0), atol=A(tol)))
            if d > 1:
                # extension of a face plane beyond the box
                z = list(y)
                z[0] = lb[0]
                z[1] = tm.add(tm.add(ub[1], tol), c.sym("off", 0, None, True))
                none_when(c, f"{d}-d box: point on the extension of a face has no normal", c.call(nv, A(z), rtol=A(0), atol=A(tol)))
        c.part(f"{d} inside", inside)

    def mixed():
        dom = c.call("domain.Hypercube", (float_(0), float_(1)), (float_(2), float_(5)))
        nv = c.attr(dom, "normal_vec")
        pts = [[0, 2], [2, 3], [1, 1], [F(1, 2), 5]]
        is_value(c, "2-d box, batch over all faces", c.call(nv, A(pts)), A([[-1, 0], [1, 0], [0, -1], [0, 1]]))
        none_when(c, "2-d box: batch with an interior point", c.call(nv, A([[0, 2], [1, 2]])))
        none_when(c, "2-d box: batch with an interior point first", c.call(nv, A([[1, 2], [0, 2]])))
        for lab, z in (("beyond a face", [0, 7]), ("outside", [-1, 8])):
            none_when(c, f"2-d box: batch with a point {lab}", c.call(nv, A([[0, 2], z])))
            none_when(c, f"2-d box: batch with a point {lab} first", c.call(nv, A([z, [0, 2]])))
        is_value(c, "2-d box, two batch axes", c.call(nv, A([[[0, 2], [2, 3]], [[1, 1], [F(1, 2), 5]]])), A([[[-1, 0], [1, 0]], [[0, -1], [0, 1]]]))
    c.part("mixed", mixed)

    def corners():
        for d in (2, 3):
            lb, ub = [F(k) for k in range(d)], [F(2 * k + 3) for k in range(d)]
            nv = c.attr(c.call("domain.Hypercube", tuple(map(A, lb)), tuple(map(A, ub))), "normal_vec")
            for pos in itertools.product((-1, 0, 1), repeat=d):
                faces = [i for i in range(d) if pos[i]]
                if len(faces) < 2:
                    continue
                y = [lb[i] if pos[i] < 0 else ub[i] if pos[i] > 0 else (lb[i] + ub[i]) / 2 for i in range(d)]
                v = c.call(nv, A(y))
                lab = f"{d}-d box: corner or edge {pos} has the normal of one of its faces"
                if isinstance(v, Choice):
                    c.undecided(lab, str(v))
                    continue
                ok = isinstance(v, Arr) and v.shape == (d,) and any(all(t is const(pos[i] if i == f else 0) for i, t in enumerate(fl(v))) for f in faces)
                c.fact(lab, ok, f"{v}")
    c.part("corners", corners)


def is_value(c, label, v, want):
    if isinstance(v, Choice):
        def walk(v, cond):
            if isinstance(v, Choice):
                walk(v.a, tm.and_(cond, v.c))
                walk(v.b, tm.and_(cond, tm.not_(v.c)))
            elif v is None:
                vd = nf.decide_eq(cond, tm.FALSE)
                c.add(vd.status, label + " is returned", vd.why, vd.witness, "None", "a normal")
            else:
                c.eq(label, v, want, cond)
        walk(v, TRUE)
    elif v is None:
        c.add("violated", label, "None is returned")
    else:
        c.eq(label, v, want)


@ob("C11", "values", "domain.Hypercube", "domain.Parallelogram", "domain.Sphere", "domain.Disk", "domain.Annulus")
def _(c):
    r = A(c.sym("r", 0, None, True))
    o2, o3 = tuple(map(A, fl(c.vec("o", 2)))), tuple(map(A, fl(c.vec("o", 3))))
    objs = [("Hypercube", (o2, o2), "lb"), ("Parallelogram", (o2, o2, o2), "a"), ("Sphere", (r, o3), "radius"), ("Disk", (r, o2), "origin"), ("Annulus", (r, r, o2), "r2")]
    for nm, a, at in objs:
        o = c.call("domain." + nm, *a)
        c.raises(f"{nm} cannot be modified", lambda: c.I.setattr(o, at, r))
    c.raises("box bounds must have the same length", lambda: c.call("domain.Hypercube", o2, o3))
    c.raises("parallelogram vertices must have the same length", lambda: c.call("domain.Parallelogram", o2, o2, o3))
    c.raises("sphere radius must be a scalar", lambda: c.call("domain.Sphere", A([1, 2]), o3))
