"""C19: spline basis and grids."""
from .common import *


def B(f):
    return Builtin("spec", f)


def coxde(x, k, i, t):
    """Cox-de Boor on the term level, 0/0 = 0, half-open intervals"""
    if k == 0:
        return tm.sel(tm.and_(tm.le(t[i], x), tm.lt(x, t[i + 1])), ONE, ZERO)
    r = ZERO
    for lo, hi, num, j in ((t[i], t[i + k], tm.sub(x, t[i]), i), (t[i + 1], t[i + k + 1], tm.sub(t[i + k + 1], x), i + 1)):
        d = tm.sub(hi, lo)
        r = tm.add(r, tm.sel(tm.eq0(d), ZERO, tm.div(tm.mul(num, coxde(x, k - 1, j, t)), tm.sel(tm.eq0(d), ONE, d))))
    return r


def knots(c, mult):
    """symbolic knot vector with the given multiplicities: positive gaps between distinct knots"""
    t, cur = [], c.sym("t0")
    for m, n in enumerate(mult):
        if m:
            cur = tm.add(cur, c.sym(f"d{m}", 0, None, True))
        t += [cur] * n
    return t


def patterns(total):
    """all multiplicity patterns of a knot vector of this length with at least two distinct knots"""
    for cuts in itertools.product((0, 1), repeat=total - 1):
        if sum(cuts):
            out = [1]
            for b in cuts:
                if b:
                    out.append(1)
                else:
                    out[-1] += 1
            yield out


def places(c, t):
    """symbolic points: at each distinct knot, inside each gap, below and above"""
    ds = sorted(set(range(len(t))), key=lambda i: i)
    dist = [t[0]]
    for s in t[1:]:
        if s is not dist[-1]:
            dist.append(s)
    yield "below", tm.sub(dist[0], c.sym("e", 0, None, True)), None
    for j, s in enumerate(dist):
        yield f"at knot {j}", s, (j if j + 1 < len(dist) else None)
        if j + 1 < len(dist):
            th = c.sym("th", 0, 1, True, True)
            yield f"in interval {j}", tm.add(s, tm.mul(th, tm.sub(dist[j + 1], s))), j
    yield "above", tm.add(dist[-1], c.sym("e", 0, None, True)), None


def check_pieces(c, k, mult, lab):
    t = knots(c, mult)
    n = len(t) - k - 1
    for nm, x, j in places(c, t):
        def go():
            b = as_arr(c.call("spline.basis", Arr(x, "f"), A(t), degree=k))
            c.fact(f"{lab} {nm}: one basis function per admissible index", b.shape == (n,), f"shape {b.shape} instead of {(n,)}")
            if b.shape != (n,):
                return
            want = [coxde(x, k, i, t) for i in range(n)]
            c.eq(f"{lab} {nm}: Cox-de Boor", b, A(want))
            first = np.cumsum([0] + mult)
            if j is None:
                c.eq(f"{lab} {nm}: zero outside the knots", b, A([ZERO] * n))
                return
            # index of the last knot <= x
            last = int(first[j + 1]) - 1
            for i in range(n):
                if not (i <= last < i + k + 1):
                    c.eq(f"{lab} {nm}: B{i} vanishes outside its support", b.a[i], ZERO)
                elif k <= 2:
                    c.sign(f"{lab} {nm}: B{i} non-negative", b.a[i], ">=0")
            if last >= k and last + 1 <= n:
                c.eq(f"{lab} {nm}: partition of unity", tm.add(*list(b.a)), ONE)

        c.part(f"{lab} {nm}", go)


def mk(k, total, tier, tmo=120):
    for mult in patterns(total):
        def go(c, k, mult):
            check_pieces(c, k, mult, f"degree {k} multiplicities {mult}")

        ob("C19", f"basis-degree{k}-knots{'-'.join(map(str, mult))}", "spline.basis", tier=tier, timeout=tmo, args=(k, mult))(go)


mk(0, 2, "quick")
mk(0, 4, "quick")
mk(1, 3, "quick")
mk(1, 4, "quick")
mk(2, 4, "quick")
mk(2, 5, "quick")
mk(3, 5, "quick")
mk(3, 6, "thorough", 300)
mk(3, 7, "thorough", 600)
for _m in ([1, 1, 1, 1, 1, 1, 1, 1], [4, 1, 4], [4, 4], [2, 2, 2, 2], [4, 2, 3], [1, 3, 1, 3]):
    def _go(c, k, mult):
        check_pieces(c, k, mult, f"degree {k} multiplicities {mult}")
    ob("C19", f"basis-degree3-knots{'-'.join(map(str, _m))}", "spline.basis", tier="thorough" if len(_m) > 4 else "quick", timeout=200, args=(3, _m))(_go)


@ob("C19", "derivatives-finite", "spline.basis")
def _(c):
    f = c.get("spline.basis")
    for k, mult in ((1, [2, 1, 2]), (2, [3, 1, 3]), (3, [4, 4]), (1, [1, 2, 1]), (2, [1, 1, 1, 1])):
        t = knots(c, mult)
        x = c.s("x")
        for nm, g, at in (("point", lambda I, z: I.call(f, [z, A(t)], {"degree": k}), x), ("knots", lambda I, z: I.call(f, [x, z], {"degree": k}), A(t))):
            def go():
                n0 = len(c.I.events)
                c.call(lj.jacrev(c.I, B(g)), at)
                bad = [e for e in c.I.events[n0:] if e.kind == "div-ad" and e.data[0] is ZERO and not e.path]
                c.add("violated" if bad else "holds", f"degree {k} multiplicities {mult}: reverse derivative with respect to the {nm}",
                      "a division by the width of an empty interval is differentiated: the reverse-mode derivative is not a number" if bad else "no empty interval's width is divided by", loc=bad[0].loc if bad else None)
            c.part(f"{nm} {k} {mult}", go)


@ob("C19", "vectorised", "spline.basis")
def _(c):
    t = knots(c, [1, 1, 2])
    for k in (0, 1, 2):
        f = c.get("spline.basis")
        n = 4 - k - 1

        def one(x, tt):
            r = as_arr(c.call(f, Arr(x, "f"), A(list(tt)), degree=k))
            return list(r.a)

        def go():
            X = c.arr("x", (3,))
            c.eq(f"degree {k}: vector of points", c.call(f, X, A(t), degree=k), A([one(X.a[i], t) for i in range(3)]))
            Y = c.arr("y", (2, 3))
            c.eq(f"degree {k}: matrix of points", c.call(f, Y, A(t), degree=k), A([[one(Y.a[i, j], t) for j in range(3)] for i in range(2)]))
            T2 = c.arr("g", (3, 4))
            c.eq(f"degree {k}: one grid per feature", c.call(f, X, T2, degree=k), A([one(X.a[i], T2.a[i]) for i in range(3)]))
            c.eq(f"degree {k}: batch with one grid per feature", c.call(f, Y, T2, degree=k), A([[one(Y.a[i, j], T2.a[j]) for j in range(3)] for i in range(2)]))

        c.part(f"degree {k}", go)
    c.part("default degree", lambda: c.eq("cubic by default", c.call("spline.basis", c.s("x"), A(knots(c, [1, 1, 1, 1, 1]))), c.call("spline.basis", c.s("x"), A(knots(c, [1, 1, 1, 1, 1])), degree=3)))


def exact_basis(t, k, i, x):
    if k == 0:
        return F(1) if t[i] <= x < t[i + 1] else F(0)
    a, b = t[i + k] - t[i], t[i + k + 1] - t[i + 1]
    return ((x - t[i]) / a * exact_basis(t, k - 1, i, x) if a else F(0)) + ((t[i + k + 1] - x) / b * exact_basis(t, k - 1, i + 1, x) if b else F(0))


@ob("C19", "long-knot-vectors", "spline.basis", timeout=120)
def _(c):
    """many knots, graded and repeated; points inside every region, on knots and outside"""
    for n in [12, 30] + sizes(c, ["spline"], 30, 80):
        grids = {"uniform": [F(k, 3) for k in range(n)], "graded": [F(k * abs(k), 9) for k in range(-3, n - 3)], "with triple knots": [F((k + 1) // 3) for k in range(n)]}
        for gn, t in grids.items():
            for deg in (0, 1, 2, 3, 5):
                lab = f"{gn}, {n} knots, degree {deg}"

                def go():
                    pts = [t[0] - 1, t[0], (t[1] + t[2]) / 2, t[n // 2], (2 * t[n // 2] + t[n // 2 + 1]) / 3, (t[-3] + t[-2]) / 2, t[-2], t[-1], t[-1] + 1]
                    r = as_arr(c.call("spline.basis", A(pts), A(t), degree=deg))
                    if c.fact(f"{lab}: one function per admissible index", r.shape == (len(pts), n - deg - 1), f"shape {r.shape}"):
                        c.eq(f"{lab}: values", r, A([[exact_basis(t, deg, i, x) for i in range(n - deg - 1)] for x in pts]), nan_violates=True)

                c.part(lab, go)


@ob("C19", "power-grid", "spline.make_grid")
def _(c):
    f = c.get("spline.make_grid")
    for n in (2, 3, 4, 5, 6):
        for p in (F(1), F(2), F(3), H, F(3, 2)):
            for up in (True, False):
                a = c.sym("a")
                w = c.sym("w", 0, None, True)
                b = tm.add(a, w) if up else tm.sub(a, w)
                lab = f"power {p}, {n} nodes, {'start < stop' if up else 'start > stop'}"

                def go():
                    g = as_arr(c.call(f, Arr(a, "f"), Arr(b, "f"), p if p.denominator > 1 else int(p), n))
                    c.fact(f"{lab}: number of nodes", g.shape == (n,), f"shape {g.shape}")
                    c.eq(f"{lab}: first node", g.a[0], a)
                    c.eq(f"{lab}: last node", g.a[-1], b)
                    for i in range(n // 2 + n % 2):
                        c.eq(f"{lab}: symmetric about the centre ({i})", tm.add(g.a[i], g.a[n - 1 - i]), tm.add(a, b))
                    for i in range(n - 1):
                        d = tm.sub(g.a[i + 1], g.a[i])
                        c.sign(f"{lab}: monotone ({i})", d if up else tm.neg(d), ">0")
                    mid = tm.div(tm.add(a, b), const(2))
                    half = tm.div(tm.sub(b, a), const(2))
                    want = []
                    for i in range(n):
                        z = F(2 * i, n - 1) - 1
                        v = tm.pw(const(abs(z)), const(p))
                        want.append(tm.add(mid, tm.mul(half, v if z > 0 else tm.neg(v) if z < 0 else ZERO)))
                    c.eq(f"{lab}: power spacing from the centre", g, A(want), nan_violates=True)

                c.part(lab, go)
    a, b, p = c.sym("a"), c.sym("b"), c.sym("p", 0, None, True)
    for n in [2, 3, 4, 5, 7, 20, 61] + sizes(c, ["spline"], 61, 300):
        g = as_arr(c.call(f, Arr(a, "f"), Arr(b, "f"), Arr(p, "f"), n))
        for i in range(n):
            z = F(2 * i, n - 1) - 1
            v = tm.pw(const(abs(z)), p) if z else ZERO
            want = tm.add(tm.div(tm.add(a, b), const(2)), tm.mul(tm.div(tm.sub(b, a), const(2)), v if z > 0 else tm.neg(v)))
            c.eq(f"any power, {n} nodes: node {i}", g.a[i], want)
        c.eq(f"any power, {n} nodes: first", g.a[0], a)
        c.eq(f"any power, {n} nodes: last", g.a[-1], b)
        for i in range(n // 2):
            c.eq(f"any power, {n} nodes: symmetric ({i})", tm.add(g.a[i], g.a[n - 1 - i]), tm.add(a, b))
