"""C12-C13: quaternions."""
from .common import *


def q4(c, name):
    return [c.sym(f"{name}{i}") for i in range(4)]


def Q(c, t):
    return c.call("quaternions.Quaternion", A(t[0]), A(list(t[1:])))


def comp(c, q):
    return A([item(c.attr(q, "real"))] + fl(c.attr(q, "imag")))


def ham(p, q):
    a, b = p, q
    m = tm.mul
    return [
        tm.add(m(a[0], b[0]), *[tm.neg(m(a[i], b[i])) for i in (1, 2, 3)]),
        tm.add(m(a[0], b[1]), m(a[1], b[0]), m(a[2], b[3]), tm.neg(m(a[3], b[2]))),
        tm.add(m(a[0], b[2]), m(a[2], b[0]), m(a[3], b[1]), tm.neg(m(a[1], b[3]))),
        tm.add(m(a[0], b[3]), m(a[3], b[0]), m(a[1], b[2]), tm.neg(m(a[2], b[1]))),
    ]


def n2(q):
    return tm.add(*[tm.mul(t, t) for t in q])


def conj(q):
    return [q[0]] + [tm.neg(t) for t in q[1:]]


def inv(q):
    n = n2(q)
    return [tm.div(t, n) for t in conj(q)]


def op(c, name, *a):
    return c.I.binop(name, *a)


@ob("C12", "arithmetic", "quaternions.Quaternion")
def _(c):
    p, q = q4(c, "p"), q4(c, "q")
    P, Qq = Q(c, p), Q(c, q)
    c.eq("components are kept", comp(c, P), A(p))
    c.part("add", lambda: c.eq("sum", comp(c, op(c, "Add", P, Qq)), A([tm.add(a, b) for a, b in zip(p, q)])))
    c.part("sub", lambda: c.eq("difference", comp(c, op(c, "Sub", P, Qq)), A([tm.sub(a, b) for a, b in zip(p, q)])))
    c.part("mul", lambda: c.eq("Hamilton product", comp(c, op(c, "Mult", P, Qq)), A(ham(p, q))))
    c.part("neg", lambda: c.eq("negation", comp(c, c.I.unop("USub", P)), A([tm.neg(t) for t in p])))
    c.part("conj", lambda: c.eq("conjugate", comp(c, c.call(c.attr(P, "conj"))), A(conj(p))))
    c.part("abs", lambda: c.eq("norm", c.call(c.I.getattr(P, "__abs__")), tm.sqrt(n2(p))))
    c.part("rec", lambda: c.eq("reciprocal", comp(c, c.call(c.attr(P, "reciprocal"))), A(inv(p))))
    c.part("div", lambda: c.eq("right division", comp(c, op(c, "Div", P, Qq)), A(ham(p, inv(q)))))
    c.part("rdiv", lambda: c.eq("quaternion_right_div", comp(c, c.call("quaternions.quaternion_right_div", P, Qq)), A(ham(p, inv(q)))))
    c.part("ldiv", lambda: c.eq("quaternion_left_div", comp(c, c.call("quaternions.quaternion_left_div", P, Qq)), A(ham(inv(q), p))))
    c.part("zero", lambda: c.eq("zero quaternion", comp(c, c.call(c.get("quaternions.Quaternion.zero_quaternion"))), A([0, 0, 0, 0])))


@ob("C12", "laws", "quaternions.Quaternion")
def _(c):
    p, q, r = (Q(c, q4(c, n)) for n in "pqr")
    mul = lambda a, b: op(c, "Mult", a, b)
    add = lambda a, b: op(c, "Add", a, b)
    rec = lambda a: c.call(c.attr(a, "reciprocal"))
    ab = lambda a: item(c.call(c.I.getattr(a, "__abs__")))
    E = lambda l, a, b: c.part(l, lambda: c.eq(l, comp(c, a()), comp(c, b())))
    one = A([1, 0, 0, 0])
    E("product is associative", lambda: mul(mul(p, q), r), lambda: mul(p, mul(q, r)))
    E("product distributes from the left", lambda: mul(p, add(q, r)), lambda: add(mul(p, q), mul(p, r)))
    E("product distributes from the right", lambda: mul(add(q, r), p), lambda: add(mul(q, p), mul(r, p)))
    E("conjugation reverses products", lambda: c.call(c.attr(mul(p, q), "conj")), lambda: mul(c.call(c.attr(q, "conj")), c.call(c.attr(p, "conj"))))
    c.part("norm", lambda: c.eq("norm is multiplicative", tm.pw(ab(mul(p, q)), const(2)), tm.mul(tm.pw(ab(p), const(2)), tm.pw(ab(q), const(2)))))
    c.part("inv", lambda: c.eq("reciprocal is a right inverse", comp(c, mul(p, rec(p))), one))
    c.part("inv", lambda: c.eq("reciprocal is a left inverse", comp(c, mul(rec(p), p)), one))
    E("subtraction is addition of the negative", lambda: op(c, "Sub", p, q), lambda: add(p, c.I.unop("USub", q)))
    E("right division undoes right multiplication", lambda: op(c, "Div", mul(p, q), q), lambda: p)
    E("left division undoes left multiplication", lambda: c.call("quaternions.quaternion_left_div", mul(q, p), q), lambda: p)


@ob("C12", "scalars", "quaternions.Quaternion")
def _(c):
    p = q4(c, "p")
    P = Q(c, p)
    s = c.sym("s")
    S = A(s)
    cc = lambda x: comp(c, x)
    c.part("qs", lambda: c.eq("quaternion times scalar", cc(op(c, "Mult", P, S)), A([tm.mul(s, t) for t in p])))
    c.part("sq", lambda: c.eq("scalar times quaternion", cc(op(c, "Mult", S, P)), A([tm.mul(s, t) for t in p])))
    c.part("q/s", lambda: c.eq("quaternion over scalar", cc(op(c, "Div", P, S)), A([tm.div(t, s) for t in p])))
    c.part("2q", lambda: c.eq("python number times quaternion", cc(op(c, "Mult", const_py(2), P)), A([tm.mul(const(2), t) for t in p])))
    c.part("q/4", lambda: c.eq("quaternion over python number", cc(op(c, "Div", P, const_py(4))), A([tm.mul(const(F(1, 4)), t) for t in p])))
    c.part("s+q", lambda: c.eq("scalar plus quaternion is quaternion plus scalar", cc(op(c, "Add", S, P)), cc(op(c, "Add", P, S))))
    c.part("s-q", lambda: c.eq("scalar minus quaternion is the negative of quaternion minus scalar", cc(op(c, "Sub", S, P)), cc(c.I.unop("USub", op(c, "Sub", P, S)))))
    c.part("q-s", lambda: c.eq("subtracting a scalar is adding its negative", cc(op(c, "Sub", P, S)), cc(op(c, "Add", P, A(tm.neg(s))))))
    c.part("2-q", lambda: c.eq("python number minus quaternion", cc(op(c, "Sub", const_py(2), P)), cc(c.I.unop("USub", op(c, "Sub", P, const_py(2))))))


def const_py(n):
    return n


@ob("C12", "whole-numbers", "quaternions.Quaternion")
def _(c):
    """quaternions of integers and floats follow the same algebra"""
    mk = lambda f: Q(c, [const(3), const(1), const(-2), const(5)]) if f else c.call("quaternions.Quaternion", 3, (1, -2, 5))
    p = q4(c, "p")
    P = Q(c, p)
    I_, F_ = mk(0), mk(1)
    for nm, f in (
        ("sum", lambda q: op(c, "Add", P, q)), ("difference", lambda q: op(c, "Sub", q, P)), ("product", lambda q: op(c, "Mult", P, q)), ("product from the left", lambda q: op(c, "Mult", q, P)),
        ("quotient", lambda q: op(c, "Div", P, q)), ("quotient from the left", lambda q: op(c, "Div", q, P)), ("square", lambda q: op(c, "Mult", q, q)), ("reciprocal", lambda q: c.call(c.attr(q, "reciprocal"))),
        ("half", lambda q: op(c, "Div", q, 2)), ("negative", lambda q: c.I.unop("USub", q)), ("conjugate", lambda q: c.call(c.attr(q, "conj"))), ("left quotient", lambda q: c.call("quaternions.quaternion_left_div", P, q)),
        ("scaled", lambda q: op(c, "Mult", q, c.s("s"))), ("plus one", lambda q: op(c, "Add", 1, q)), ("one minus", lambda q: op(c, "Sub", 1, q)),
    ):
        c.part(nm, lambda: c.eq(f"{nm} of a quaternion of integers", comp(c, f(I_)), comp(c, f(F_))))
    c.part("abs", lambda: c.eq("norm of a quaternion of integers", c.call(c.I.getattr(I_, "__abs__")), c.call(c.I.getattr(F_, "__abs__"))))


@ob("C12", "equality", "quaternions.Quaternion")
def _(c):
    p, q = q4(c, "p"), q4(c, "q")
    P, Qq = Q(c, p), Q(c, q)

    def go():
        r = c.I.compare("Eq", P, Qq)
        c.eq("equality compares all four components", as_arr(r).item() if not isinstance(r, T) else r, tm.and_(*[tm.eq(a, b) for a, b in zip(p, q)]))
    c.part("eq", go)


@ob("C12", "pytree", "quaternions.Quaternion")
def _(c):
    p = q4(c, "p")
    P = Q(c, p)
    leaves, spec = lj.flatten(c.I, P)
    back = lj.unflatten(c.I, spec, leaves)
    c.eq("flatten and rebuild", comp(c, back), A(p))
    c.fact("leaves are the two components", len(leaves) == 2 and sorted(as_arr(l).shape for l in leaves) == [(), (3,)], f"{len(leaves)} leaves")
    dbl = lj.tree_map(c.I, Builtin("d", lambda I, x: ew(lambda t: tm.mul(const(2), t), x)), P)
    c.eq("mapping over leaves acts on every component", comp(c, dbl), A([tm.mul(const(2), t) for t in p]))
    c.raises("a quaternion cannot be modified", lambda: c.I.setattr(P, "_a", A(p[0])))
    c.raises("the vector part must have three components", lambda: c.call("quaternions.Quaternion", A(p[0]), A(p[:2])))


# ---------------------------------------------------------------------- C13
def unit_axis(c, name=""):
    a, b = c.sym("al" + name), c.sym("be" + name)
    ca, sa, cb, sb = (tm.fn(f, x) for f, x in (("cos", a), ("sin", a), ("cos", b), ("sin", b)))
    return [tm.mul(ca, cb), tm.mul(sa, cb), sb]


def cr(a, b):
    return [tm.sub(tm.mul(a[1], b[2]), tm.mul(a[2], b[1])), tm.sub(tm.mul(a[2], b[0]), tm.mul(a[0], b[2])), tm.sub(tm.mul(a[0], b[1]), tm.mul(a[1], b[0]))]


@ob("C13", "rotation", "quaternions.quaternion_rotation")
def _(c):
    q = q4(c, "q")
    Qq = Q(c, q)
    x, y = c.vec("x", 3), c.vec("y", 3)
    rot = lambda v: fl(c.call("quaternions.quaternion_rotation", v, Qq))
    rx, ry = rot(x), rot(y)
    nz = tm.gt0(n2(q))
    c.eq("is q^-1 x q", A(rx), A(ham(ham(inv(q), [ZERO] + fl(x)), q)[1:]), nz)
    c.eq("preserves inner products", dotp(rx, ry), dotp(fl(x), fl(y)), nz)
    s = c.sym("s")
    c.eq("is linear", A(rot(A([tm.add(a, tm.mul(s, b)) for a, b in zip(fl(x), fl(y))]))), A([tm.add(a, tm.mul(s, b)) for a, b in zip(rx, ry)]), nz)
    c.eq("leaves its axis fixed", A(rot(A(q[1:]))), A(q[1:]), nz)
    c.eq("preserves orientation", A(cr(rx, ry)), A(rot(A(cr(fl(x), fl(y))))), nz)
    c.eq("scaling the quaternion does not matter", A(fl(c.call("quaternions.quaternion_rotation", x, Q(c, [tm.mul(const(3), t) for t in q])))), A(rx), nz)
    c.part("tuple", lambda: c.eq("vectors may be tuples", c.call("quaternions.quaternion_rotation", tuple(A(t) for t in fl(x)), Qq), A(rx)))


@ob("C13", "axis-angle", "quaternions.from_axis_angle", "quaternions.quaternion_rotation")
def _(c):
    th = c.sym("th")
    k = unit_axis(c)
    x = c.vec("x", 3)
    L = c.sym("len", 0, None, True)
    ct, st = tm.fn("cos", th), tm.fn("sin", th)
    h = tm.mul(const(H), th)
    for lab, ax in (("unit axis", k), ("axis of any length", [tm.mul(L, t) for t in k]), ("z axis", [ZERO, ZERO, ONE]), ("axis (3,0,-4)", [const(3), ZERO, const(-4)])):
        def go():
            kk = k if lab != "z axis" and "3" not in lab else [ZERO, ZERO, ONE] if lab == "z axis" else [const(F(3, 5)), ZERO, const(F(-4, 5))]
            q = c.call("quaternions.from_axis_angle", A(th), A(ax))
            c.eq(f"{lab}: unit quaternion of the rotation", comp(c, q), A([tm.fn("cos", h)] + [tm.mul(tm.fn("sin", h), t) for t in kk]))
            r = fl(c.call("quaternions.quaternion_rotation", x, q))
            kx, kd = cr(kk, fl(x)), dotp(kk, fl(x))
            want = [tm.add(tm.mul(ct, a), tm.neg(tm.mul(st, b)), tm.mul(tm.sub(ONE, ct), kd, t)) for a, b, t in zip(fl(x), kx, kk)]
            c.eq(f"{lab}: rotates by the angle about the axis", A(r), A(want))
        c.part(lab, go)

    def ints():
        q = c.call("quaternions.from_axis_angle", A(th), (0, 0, 2))
        c.eq("integer axis of any length", comp(c, q), A([tm.fn("cos", h), ZERO, ZERO, tm.fn("sin", h)]))
    c.part("ints", ints)


@ob("C13", "euler", "quaternions.from_euler_angles")
def _(c):
    a = c.vec("a", 3)
    q = comp(c, c.call("quaternions.from_euler_angles", a))
    ax = []
    for i in range(3):
        h = tm.mul(const(H), a.a[i])
        e = [tm.fn("cos", h)] + [ZERO] * 3
        e[1 + i] = tm.fn("sin", h)
        ax.append(e)
    c.eq("composition of the rotations about z, y and x", q, A(ham(ham(ax[2], ax[1]), ax[0])))
    c.eq("unit quaternion", n2(fl(q)), ONE)
    for i in range(3):
        z = [A(a.a[j]) if j == i else A(0) for j in range(3)]
        axis = [1 if j == i else 0 for j in range(3)]
        c.part(f"axis{i}", lambda: c.eq(f"single angle about axis {i}", comp(c, c.call("quaternions.from_euler_angles", A([item(t) for t in z]))), comp(c, c.call("quaternions.from_axis_angle", A(a.a[i]), A(axis)))))


@ob("C13", "reflection", "quaternions.quaternion_reflection")
def _(c):
    x, n = c.vec("x", 3), c.vec("n", 3)
    nn = dotp(fl(n), fl(n))
    As = tm.gt0(nn)
    ref = lambda v: c.call("quaternions.quaternion_reflection", v, n)
    k = tm.div(tm.mul(const(2), dotp(fl(x), fl(n))), nn)
    c.eq("mirror image over the plane with this normal", ref(x), A([tm.sub(a, tm.mul(k, b)) for a, b in zip(fl(x), fl(n))]), As)
    c.eq("maps the normal to its negative", ref(n), A([tm.neg(t) for t in fl(n)]), As)
    c.eq("is its own inverse", ref(as_arr(ref(x))), x, As)


@ob("C13", "whole-numbers", "quaternions.quaternion_reflection", "quaternions.quaternion_rotation", "quaternions.from_euler_angles", "quaternions.from_axis_angle")
def _(c):
    x = c.vec("x", 3)
    for k, n in enumerate(((0, 0, 2), (1, -2, 2), (3, 0, 0))):
        ints(c, f"reflection {n}", lambda n: c.call("quaternions.quaternion_reflection", x, n), n)
        ints(c, f"reflection array {n}", lambda n: c.call("quaternions.quaternion_reflection", x, n), iarr(list(n)))
        ints(c, f"rotation {n}", lambda v, w: c.call("quaternions.quaternion_rotation", v, c.call("quaternions.from_axis_angle", c.s("t"), w)), (1, 2, 3), n)
    ints(c, "angle", lambda t, w: comp(c, c.call("quaternions.from_axis_angle", t, w)), 1, (0, 3, 4))
    ints(c, "Euler angles", lambda a: comp(c, c.call("quaternions.from_euler_angles", a)), (1, 3, 0))
    q = c.call("quaternions.Quaternion", 1, (1, 0, 2))
    qf = Q(c, [ONE, ONE, ZERO, const(2)])
    c.part("q", lambda: c.eq("rotation by a quaternion of integers", c.call("quaternions.quaternion_rotation", x, q), c.call("quaternions.quaternion_rotation", x, qf)))


@ob("C13", "exp-log", "quaternions.quanternion_exp", "quaternions.quanternion_log", "quaternions.arg", "quaternions.sgn")
def _(c):
    for u in ([const(F(2, 3)), const(F(1, 3)), const(F(-2, 3))], [const(F(0)), const(F(-3, 5)), const(F(4, 5))], [const(F(6, 7)), const(F(3, 7)), const(F(2, 7))]):
        exp_log(c, u)


def exp_log(c, u):
    a = c.sym("a", -3, 3)
    # exp of a + r u, 0 < r < pi
    r = c.sym("r", F(1, 1000), 3, True)
    E, Lg = c.get("quaternions.quanternion_exp"), c.get("quaternions.quanternion_log")
    p = [a] + [tm.mul(r, t) for t in u]
    ea = tm.fn("exp", a)
    want = [tm.mul(ea, tm.fn("cos", r))] + [tm.mul(ea, tm.fn("sin", r), t) for t in u]
    c.part("exp", lambda: c.eq("exponential", comp(c, c.call(E, Q(c, p))), A(want)))
    c.part("logexp", lambda: c.eq("log(exp(p)) = p", comp(c, c.call(Lg, c.call(E, Q(c, p)))), A(p)))
    # log of rho (cos th + u sin th)
    rho, th = c.sym("rho", F(1, 100), None, True), c.sym("th", F(1, 1000), 3, True)
    q = [tm.mul(rho, tm.fn("cos", th))] + [tm.mul(rho, tm.fn("sin", th), t) for t in u]
    As = TRUE
    lq = [tm.fn("log", rho)] + [tm.mul(th, t) for t in u]
    c.part("log", lambda: c.eq("logarithm", comp(c, c.call(Lg, Q(c, q))), A(lq), As))
    c.part("explog", lambda: c.eq("exp(log(q)) = q", comp(c, c.call(E, c.call(Lg, Q(c, q)))), A(q), As))
    # real quaternions
    c.part("expreal", lambda: c.eq("exponential of a real quaternion", comp(c, c.call(E, Q(c, [a, ZERO, ZERO, ZERO]))), A([ea, ZERO, ZERO, ZERO])))
    c.part("logreal", lambda: c.eq("logarithm of a positive real quaternion", comp(c, c.call(Lg, Q(c, [rho, ZERO, ZERO, ZERO]))), A([tm.fn("log", rho), ZERO, ZERO, ZERO])))
    c.part("arg", lambda: c.eq("argument", c.call("quaternions.arg", Q(c, q)), th, As))
    v = c.vec("v", 3)
    c.part("sgn", lambda: c.eq("direction of a vector", c.call("quaternions.sgn", A([tm.mul(r, t) for t in u])), A(u)))
    c.part("sgn0", lambda: c.eq("direction of the zero vector", c.call("quaternions.sgn", A([0, 0, 0])), A([0, 0, 0])))


@ob("C13", "powers", "quaternions.Quaternion.__pow__", "quaternions.Quaternion.__rpow__")
def _(c):
    u = [const(F(2, 3)), const(F(1, 3)), const(F(-2, 3))]
    rho, th, k = c.sym("rho", F(1, 100), None, True), c.sym("th", F(1, 100), 3, True), c.sym("k", F(1, 100), 1)
    q = [tm.mul(rho, tm.fn("cos", th))] + [tm.mul(rho, tm.fn("sin", th), t) for t in u]
    As = TRUE
    Qq = Q(c, q)
    E, Lg = c.get("quaternions.quanternion_exp"), c.get("quaternions.quanternion_log")
    c.part("pow", lambda: c.eq("q**k = exp(k log q)", comp(c, op(c, "Pow", Qq, A(k))), comp(c, c.call(E, op(c, "Mult", c.call(Lg, Qq), A(k)))), As))
    c.part("pow2", lambda: c.eq("q**2 = q q", comp(c, op(c, "Pow", Qq, 2)), comp(c, op(c, "Mult", Qq, Qq)), As))
    c.part("pow-1", lambda: c.eq("q**-1 is the reciprocal", comp(c, op(c, "Pow", Qq, -1)), comp(c, c.call(c.attr(Qq, "reciprocal"))), As))
    b = c.sym("b", 0, None, True)
    a, r = c.sym("a", -3, 3), c.sym("r", F(1, 1000), 3, True)
    p = Q(c, [a] + [tm.mul(r, t) for t in u])
    c.part("rpow", lambda: c.eq("b**q = exp(log(b) q)", comp(c, op(c, "Pow", A(b), p)), comp(c, c.call(E, op(c, "Mult", p, A(tm.fn("log", b)))))))
