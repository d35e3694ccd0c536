"""C34: arguments outside the documented contract are refused with an exception, they are never answered with a value.

The shapes are enumerated, the entries are symbolic: the evaluation of the call must reach an exception on every path.
The kind of the exception is left open (an assertion, a ValueError or the error of the array operation)."""
from .common import *

R = lambda c: A(c.sym("r", 0, None, True))


def no(c, label, fn, *a, **k):
    c.raises(label, lambda: c.call(fn, *a, **k))


def ok(c, label, fn, *a, **k):
    """the same call with valid arguments is answered (the refusal is not an artefact)"""
    def run():
        c.call(fn, *a, **k)
        c.add("holds", label, "answered")
    c.part(label, run)


def shapes_x(c, fn, good, bad, *rest):
    for s in good:
        ok(c, f"{fn} of samples {s} is answered", "domain." + fn, c.arr("u", s), *rest)
    for s in bad:
        no(c, f"{fn} of samples {s} is refused", "domain." + fn, c.arr("u", s), *rest)


@ob("C34", "box boundary", "domain.transform_hypercube_bnd", "domain.Hypercube")
def _(c):
    for d, bad in ((2, [(2,), (4, 2), (3, 3)]), (3, [(), (1,), (3,), (4, 1), (4, 3)])):
        lb, ub = c.vec("lb", d), c.vec("ub", d)
        shapes_x(c, "transform_hypercube_bnd", [(d - 1,), (2, d - 1)], [s for s in bad if not (d == 2 and len(s) == 1)], lb, ub)
    x = c.arr("u", (4, 2))
    for l, u in (((3,), (4,)), ((3,), (2,)), ((1, 3), (1, 3)), ((), ()), ((3,), (1,)), ((3,), ())):
        no(c, f"bounds of shapes {l} and {u} are refused", "domain.transform_hypercube_bnd", x, c.arr("lb", l), c.arr("ub", u))
    for n, m in ((2, 3), (3, 2), (1, 2), (2, 1)):
        no(c, f"a box with {n} lower and {m} upper bounds is refused", "domain.Hypercube", tuple(map(A, fl(c.vec("a", n)))), tuple(map(A, fl(c.vec("b", m)))))


@ob("C34", "round domains", "domain.transform_annulus", "domain.transform_circle", "domain.transform_circle_bnd", "domain.transform_sphere", "domain.transform_sphere_bnd")
def _(c):
    r, o2, o3 = R(c), c.vec("o", 2), c.vec("o", 3)
    rv = {s: c.arr("rv", s) for s in ((1,), (2,), (4, 1))}
    shapes_x(c, "transform_circle", [(2,), (4, 2)], [(1,), (3,), (4, 1), (4, 3), ()], r, o2)
    shapes_x(c, "transform_annulus", [(2,), (4, 2)], [(1,), (3,), (4, 1), (4, 3), ()], r, r, o2)
    shapes_x(c, "transform_sphere", [(3,), (4, 3)], [(2,), (4,), (4, 2), (4, 4), ()], r, o3)
    shapes_x(c, "transform_sphere_bnd", [(2,), (4, 2)], [(1,), (3,), (4, 3), (4, 1), ()], r, o3)
    u2, u3, s = c.arr("u", (4, 2)), c.arr("u", (4, 3)), c.arr("u", (4,))
    for sh, v in rv.items():
        no(c, f"transform_circle: radius of shape {sh}", "domain.transform_circle", u2, v, o2)
        no(c, f"transform_annulus: outer radius of shape {sh}", "domain.transform_annulus", u2, r, v, o2)
        no(c, f"transform_annulus: inner radius of shape {sh}", "domain.transform_annulus", u2, v, r, o2)
        no(c, f"transform_sphere: radius of shape {sh}", "domain.transform_sphere", u3, v, o3)
        no(c, f"transform_sphere_bnd: radius of shape {sh}", "domain.transform_sphere_bnd", u2, v, o3)
        no(c, f"transform_circle_bnd: radius of shape {sh}", "domain.transform_circle_bnd", s, v, o2)
    for n in (1, 3, 4):
        no(c, f"transform_circle: centre with {n} coordinates", "domain.transform_circle", u2, r, c.vec("q", n))
        no(c, f"transform_annulus: centre with {n} coordinates", "domain.transform_annulus", u2, r, r, c.vec("q", n))
        no(c, f"transform_circle_bnd: centre with {n} coordinates", "domain.transform_circle_bnd", s, r, c.vec("q", n))
    no(c, "transform_circle_bnd: a matrix as centre", "domain.transform_circle_bnd", s, r, c.arr("q", (4, 2)))
    for n in (1, 2, 4):
        no(c, f"transform_sphere: centre with {n} coordinates", "domain.transform_sphere", u3, r, c.vec("q", n))
        no(c, f"transform_sphere_bnd: centre with {n} coordinates", "domain.transform_sphere_bnd", u2, r, c.vec("q", n))


@ob("C34", "flat domains", "domain.transform_triangle", "domain.transform_polyline", "domain.Parallelogram")
def _(c):
    for n in (2, 3):
        a, b, d = c.vec("a", n), c.vec("b", n), c.vec("d", n)
        shapes_x(c, "transform_triangle", [(2,), (4, 2)], [(1,), (3,), (4, 1), (4, 3), ()], a, b, d)
    u = c.arr("u", (4, 2))
    p2, q2, p3, p1 = c.vec("a", 2), c.vec("b", 2), c.vec("p", 3), c.vec("w", 1)
    for nm, t in (("first", lambda v: (v, p2, q2)), ("second", lambda v: (p2, v, q2)), ("third", lambda v: (p2, q2, v))):
        for v in (p3, p1, c.sym("s")):
            v = A(v) if not hasattr(v, "shape") else v
            no(c, f"triangle whose {nm} vertex has shape {tuple(v.shape)}", "domain.transform_triangle", u, *t(v))
    pts = (p2, q2, c.vec("d", 2))
    for s in ((), (4,)):
        ok(c, f"polyline at {s} is answered", "domain.transform_polyline", c.arr("u", s), pts)
    for s in ((4, 1), (1, 4), (2, 2), (2, 1, 1)):
        no(c, f"polyline at positions of shape {s} is refused", "domain.transform_polyline", c.arr("u", s), pts)
    no(c, "polyline through points of different dimension", "domain.transform_polyline", c.arr("u", (4,)), (p2, p3))
    for n in (2, 3):
        a, b, d = (tuple(map(A, fl(c.vec(k, n)))) for k in "abd")
        P = c.call("domain.Parallelogram", a, b, d)
        for s in ((1,), (3,), (4, 1), (4, 3), ()):
            c.raises(f"parallelogram in R^{n} at samples {s} is refused", lambda: c.I.call(c.I.getattr(P, "transform"), (c.arr("u", s),), {}))
    l2, l3 = tuple(map(A, fl(p2))), tuple(map(A, fl(p3)))
    for nm, t in (("first", (l3, l2, l2)), ("second", (l2, l3, l2)), ("third", (l2, l2, l3))):
        no(c, f"parallelogram whose {nm} vertex has another dimension", "domain.Parallelogram", *t)


@ob("C34", "domain values", "domain.Sphere", "domain.Disk", "domain.Annulus")
def _(c):
    r, o2, o3 = R(c), tuple(map(A, fl(c.vec("o", 2)))), tuple(map(A, fl(c.vec("o", 3))))
    for s in ((1,), (2,), (3,)):
        v = c.arr("v", s)
        no(c, f"sphere with radius of shape {s}", "domain.Sphere", v, o3)
        no(c, f"disk with radius of shape {s}", "domain.Disk", v, o2)
        no(c, f"annulus with inner radius of shape {s}", "domain.Annulus", v, r, o2)
        no(c, f"annulus with outer radius of shape {s}", "domain.Annulus", r, v, o2)
    for s in ((), (1, 2), (1, 3)):
        v = c.arr("v", s)
        no(c, f"sphere with centre of shape {s}", "domain.Sphere", r, v)
        no(c, f"disk with centre of shape {s}", "domain.Disk", r, v)
        no(c, f"annulus with centre of shape {s}", "domain.Annulus", r, r, v)
    for nm, d, o, meths in (("Sphere", 3, o3, ("transform",)), ("Disk", 2, o2, ("transform",)), ("Annulus", 2, o2, ("transform",)), ("Sphere", 2, o3, ("transform_bnd",))):
        D = c.call("domain." + nm, *((r, r, o) if nm == "Annulus" else (r, o)))
        for m in meths:
            c.part(f"{nm}.{m}", lambda: (c.I.call(c.I.getattr(D, m), (c.arr("u", (4, d)),), {}), c.add("holds", f"{nm}.{m} of {d} columns is answered", "answered")))
            for k in (1, d + 1):
                c.raises(f"{nm}.{m} of {k} columns is refused", lambda: c.I.call(c.I.getattr(D, m), (c.arr("u", (4, k)),), {}))


@ob("C34", "integrals", "integrate.integrate", "integrate.integrate_disk", "integrate.integrate_sphere")
def _(c):
    f1 = UFun("f", (), ("x",))
    for s in ((), (2, 3, 2), (1, 1, 3), (1, 2, 2, 3)):
        no(c, f"nodes of shape {s} are refused", "integrate.integrate", f1, c.arr("x", s))
    f = UFun("f", (), ("x",))
    r = R(c)
    for n in ((3,), (3, 3, 3), ()):
        no(c, f"disk with {len(n)} node counts", "integrate.integrate_disk", f, r, c.vec("o", 2), n)
    for n in ((3,), (3, 3), (3, 3, 3, 3), ()):
        no(c, f"ball with {len(n)} node counts", "integrate.integrate_sphere", f, r, c.vec("o", 3), n)


@ob("C34", "surfaces", "surface_integral.integrate_surface", "surface_integral.integrate_surface_elements", "surface_integral._source_tensor", "surface_integral.charge_tensor")
def _(c):
    from .s_int import any_rule
    par = UFun("r", (3,), ("uv",))
    f = UFun("f", (), ("x", "c"))
    g = UFun("g", (), ("x",))
    u, v = c.vec("u", 3), c.vec("v", 3)
    ok(c, "surface elements of a 3 x 3 grid", "surface_integral.integrate_surface_elements", f, par, u, v, method=any_rule(c))
    for s in ((1,), (0,), (), (3, 1), (1, 3), (2, 2)):
        w = c.arr("w", s)
        no(c, f"first grid of shape {s} is refused", "surface_integral.integrate_surface_elements", f, par, w, v, method=any_rule(c))
        no(c, f"second grid of shape {s} is refused", "surface_integral.integrate_surface_elements", f, par, u, w, method=any_rule(c))
    for n in (1, 2, 4):
        p = UFun("r", (n,), ("uv",))
        no(c, f"a surface with {n} coordinates is refused", "surface_integral.integrate_surface", g, p, u, v, method=any_rule(c))
        no(c, f"a source surface with {n} coordinates is refused", "surface_integral._source_tensor", c.vec("x", 3), p, u, v, method=any_rule(c), order=1)
    for n in (2, 4):
        no(c, f"a source tensor at a point with {n} coordinates is refused", "surface_integral._source_tensor", c.vec("x", n), par, u, v, method=any_rule(c), order=1)
    no(c, "a source tensor at a matrix of points is refused", "surface_integral._source_tensor", c.arr("x", (2, 3)), par, u, v, method=any_rule(c), order=1)
    for o in (-1, -2):
        no(c, f"source tensor of order {o} is refused", "surface_integral._source_tensor", c.vec("x", 3), par, u, v, method=any_rule(c), order=o)
        no(c, f"charge tensor of order {o} is refused", "surface_integral.charge_tensor", g, par, u, v, order=o)


@ob("C34", "derivatives", "calc.derivative", "calc.value_and_derivative")
def _(c):
    f2 = UFun("f", (), ("x", "y"))
    for a in ([0], (0,), [0, 1]):
        no(c, f"a function together with argument numbers {a}", "calc.derivative", f2, a)
    for w, a in (([0, 1], [0]), ([0], [0, 1]), ([0, 0], [0, 1, 1]), ([0], [])):
        no(c, f"directions {w} with argument numbers {a}", "calc.derivative", list(w), argnums=list(a))
    for w in ("q", "args", "z"):
        no(c, f"unknown argument name {w}", "calc.value_and_derivative", f2, w)
    for w in ("x", "y"):
        no(c, f"argument name {w} together with an argument number", "calc.value_and_derivative", f2, w, 0)
    no(c, "an argument number which is no integer", "calc.value_and_derivative", f2, 0, "x")


@ob("C34", "quaternions", "quaternions.Quaternion")
def _(c):
    a, q = A(c.sym("a")), c.vec("q", 3)
    ok(c, "a scalar and three components", "quaternions.Quaternion", a, q)
    for s in ((1,), (3,), (1, 1)):
        no(c, f"scalar part of shape {s} is refused", "quaternions.Quaternion", c.arr("s", s), q)
    for s in ((), (1,), (2,), (4,), (1, 3), (3, 1)):
        no(c, f"vector part of shape {s} is refused", "quaternions.Quaternion", a, c.arr("s", s))
    no(c, "parts of different types are refused", "quaternions.Quaternion", 1, (F(0), F(0), F(1, 2)))


@ob("C34", "transformations", "r_fun.scale", "r_fun.rotate2d", "r_fun.rotate3d", "r_fun.revolution")
def _(c):
    f2, f3 = UFun("f", (), ("x",)), UFun("f", (), ("x",))
    th = A(c.sym("th"))
    for s in ((2,), (3,), (2, 2)):
        no(c, f"scale factors of shape {s}", "r_fun.scale", f2, c.arr("s", s))
    for s in ((3,), (4,), (1, 2), (2, 2)):  # a single number is broadcast by the translation, see DESIGN.md
        c.raises(f"plane rotation at a point of shape {s}", lambda: c.call(c.call("r_fun.rotate2d", f2, th), c.arr("x", s)))
    for s in ((2,), (4,), (1, 3), (3, 3)):
        c.raises(f"space rotation at a point of shape {s}", lambda: c.call(c.call("r_fun.rotate3d", f3, th, (0.0, 0.0, 1.0)), c.arr("x", s)))
    for s in ((), (1,), (2,), (4,), (1, 3)):
        for ax in (0, 1):
            c.raises(f"revolution about axis {ax} at a point of shape {s}", lambda: c.call(c.call("r_fun.revolution", f2, ax), c.arr("x", s)))
    for ax in (2, 3, -1, -2):
        c.raises(f"revolution about axis {ax}", lambda: c.call(c.call("r_fun.revolution", f2, ax), c.vec("x", 3)))
    for v in (F(3, 2), F(-3, 2), F(-1), F(2)):
        for k, a in (("RAlpha", (v,)), ("RAlphaM", (2, v))):
            no(c, f"{k} with alpha = {v}", "r_fun." + k, *a)
    for p in (1, 3, 5, -1):
        no(c, f"RP with p = {p}", "r_fun.RP", p)
