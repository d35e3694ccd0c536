"""C14-C16: R-functions, solids, transformations."""
from .common import *


def sysm(c, name, *a):
    return c.call("r_fun." + name, *a)


SYSTEMS = [
    ("RAlpha(1)", "RAlpha", (A(1),)),
    ("RAlpha(0)", "RAlpha", (A(0),)),
    ("RAlpha(1/2)", "RAlpha", (A(const(H)),)),
    ("RAlpha(-1/2)", "RAlpha", (A(const(-H)),)),
    ("RAlphaM(2,0)", "RAlphaM", (2, A(0))),
    ("RAlphaM(1,1/2)", "RAlphaM", (1, A(const(H)))),
    ("RAlphaM(4,-1/3)", "RAlphaM", (4, A(const(F(-1, 3))))),
    ("RP(2)", "RP", (2,)),
    ("RP(4)", "RP", (4,)),
    ("RP(6)", "RP", (6,)),
]


def conj_disj(c, s):
    cj, dj = c.attr(s, "conjunction"), c.attr(s, "disjunction")
    f = lambda g: lambda a, b: item(c.call(g, A(a), A(b)))
    return f(cj), f(dj)


def signs_of(c, lab, cj, dj, a, b, assume=TRUE):
    P, N = tm.gt0, lambda t: tm.gt0(tm.neg(t))
    x, y = cj(a, b), dj(a, b)
    for cs, cond in (("a > 0, b > 0", tm.and_(P(a), P(b))), ("a > 0, b < 0", tm.and_(P(a), N(b))), ("a < 0, b > 0", tm.and_(N(a), P(b))), ("a < 0, b < 0", tm.and_(N(a), N(b)))):
        As = tm.and_(assume, cond)
        c.sign(f"{lab}: sign of the conjunction for {cs}", x, ">0" if cs == "a > 0, b > 0" else "<0", As)
        c.sign(f"{lab}: sign of the disjunction for {cs}", y, "<0" if cs == "a < 0, b < 0" else ">0", As)


def sym2(c):
    return c.sym("a"), c.sym("b")


def formula(kind, args, a, b, sgn):
    k = const(sgn)
    if kind == "RP":
        p = args[0]
        return tm.add(a, b, tm.mul(k, tm.pw(tm.add(tm.pw(a, const(p)), tm.pw(b, const(p))), const(F(1, p)))))
    al = item(args[-1])
    r = tm.add(tm.mul(a, a), tm.mul(b, b))
    root = tm.sqrt(tm.sub(r, tm.mul(const(2), al, a, b)))
    v = tm.div(tm.add(a, b, tm.mul(k, root)), tm.add(ONE, al))
    if kind == "RAlphaM":
        v = tm.mul(v, tm.pw(r, const(F(args[0], 2))))
    return v


@ob("C14", "systems", "r_fun.RAlpha", "r_fun.RAlphaM", "r_fun.RP", timeout=200)
def _(c):
    a, b = sym2(c)
    for lab, kind, args in SYSTEMS:
        def go():
            s = sysm(c, kind, *args)
            cj, dj = conj_disj(c, s)
            c.eq(f"{lab}: conjunction of the documented system", cj(a, b), formula(kind, args, a, b, -1))
            c.eq(f"{lab}: disjunction of the documented system", dj(a, b), formula(kind, args, a, b, 1))
            c.eq(f"{lab}: conjunction is symmetric", cj(a, b), cj(b, a))
            c.eq(f"{lab}: disjunction is symmetric", dj(a, b), dj(b, a))
            c.eq(f"{lab}: De Morgan", cj(tm.neg(a), tm.neg(b)), tm.neg(dj(a, b)))
            p = c.sym("p", 0, None, True)
            c.eq(f"{lab}: conjunction is zero on the boundary", cj(ZERO, p), ZERO)
            c.eq(f"{lab}: conjunction is zero at a corner", cj(ZERO, ZERO), ZERO)
            c.eq(f"{lab}: disjunction is zero on the boundary", dj(ZERO, tm.neg(p)), ZERO)
            pos = [c.sym(n, 0, None, True) for n in ("pa", "pb")]
            x, y = cj(*pos), dj(*pos)
            sg = lambda s1, s2: (tm.mul(const(s1), pos[0]), tm.mul(const(s2), pos[1]))
            for s1, s2 in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                u, v = sg(s1, s2)
                both, some = s1 > 0 and s2 > 0, s1 > 0 or s2 > 0
                c.sign(f"{lab}: sign of the conjunction of {'+' if s1 > 0 else '-'} and {'+' if s2 > 0 else '-'}", cj(u, v), ">0" if both else "<0")
                c.sign(f"{lab}: sign of the disjunction of {'+' if s1 > 0 else '-'} and {'+' if s2 > 0 else '-'}", dj(u, v), ">0" if some else "<0")
        c.part(lab, go)


@ob("C14", "default-systems", "r_fun.r1", "r_fun.r0", "r_fun.rp2", "r_fun.rp4")
def _(c):
    a, b = sym2(c)
    for nm, kind, args in (("r1", "RAlpha", (A(1),)), ("r0", "RAlpha", (A(0),)), ("rp2", "RP", (2,)), ("rp4", "RP", (4,))):
        cj, dj = conj_disj(c, c.get("r_fun." + nm))
        c.eq(f"{nm}: conjunction", cj(a, b), formula(kind, args, a, b, -1))
        c.eq(f"{nm}: disjunction", dj(a, b), formula(kind, args, a, b, 1))
    cj, dj = conj_disj(c, c.get("r_fun.r1"))
    c.eq("r1 conjunction is the minimum", cj(a, b), tm.tmin(a, b))
    c.eq("r1 disjunction is the maximum", dj(a, b), tm.tmax(a, b))


@ob("C14", "rounded-roots", "r_fun.RAlpha", "r_fun.RAlphaM", "r_fun.r1")
def _(c):
    """for alpha = 1 the root vanishes whenever both operands agree: its argument must be a form that rounding cannot make
    negative (a square, a modulus, a maximum with zero, sums and products of those), otherwise the combination of two nearly
    equal operands is not a number"""
    a, b = sym2(c)
    for lab, sysf in (("r1", lambda: c.get("r_fun.r1")), ("RAlpha(1)", lambda: sysm(c, "RAlpha", A(1))), ("RAlpha(1.0)", lambda: sysm(c, "RAlpha", F(1))),
                      ("RAlphaM(2,1)", lambda: sysm(c, "RAlphaM", 2, A(1))), ("RAlphaM(1,1)", lambda: sysm(c, "RAlphaM", 1, A(1)))):
        def go():
            cj, dj = conj_disj(c, sysf())
            for nm, f in (("conjunction", cj), ("disjunction", dj)):
                n0 = len(c.I.events)
                f(a, b)
                roots = [e.data[0] for e in c.I.events[n0:] if e.kind == "sqrt"]
                bad = None
                for t in roots:
                    if tm.is_nonneg(t):
                        continue
                    at = nf.decide_eq(tm.subst(t, {b: a}), ZERO)
                    if at.status == "holds":
                        bad = t
                c.fact(f"{lab}: {nm} takes no root of a difference that vanishes for equal operands", bad is None, "" if bad is None else f"root of {tm.show(bad, 6)}, which cancels to zero at a = b and is rounded to a negative number for a close to b")

        c.part(lab, go)


@ob("C14", "rejections", "r_fun.RAlpha", "r_fun.RAlphaM", "r_fun.RP")
def _(c):
    for v in (F(-1), F(-2), F(3, 2)):
        c.raises(f"alpha = {v} is refused by RAlpha", lambda: sysm(c, "RAlpha", float(v)))
        c.raises(f"alpha = {v} is refused by RAlphaM", lambda: sysm(c, "RAlphaM", 2, float(v)))
    for p in (1, 3):
        c.raises(f"odd p = {p} is refused by RP", lambda: sysm(c, "RP", p))


def any_sys(c):
    """a system whose conjunction and disjunction are exact: minimum and maximum"""
    return c.get("r_fun.r1")


def sub_sys(c, log=None):
    """subclass of RFun with uninterpreted conjunction and disjunction"""
    import types
    base = c.get("r_fun.RFun")
    return uninterpreted(c, c.call(base))


def uninterpreted(c, o):
    u = lambda name: Builtin(name, lambda I, a, b: A(tm.ufun(name, (), [item(a), item(b)])))
    c.I.setattr(o, "conjunction", u("AND"))
    c.I.setattr(o, "disjunction", u("OR"))
    return o


def min_sys(c):
    """subclass of RFun whose operations are the exact minimum and maximum"""
    o = c.call(c.get("r_fun.RFun"))
    c.I.setattr(o, "conjunction", Builtin("min", lambda I, a, b: A(tm.tmin(item(a), item(b)))))
    c.I.setattr(o, "disjunction", Builtin("max", lambda I, a, b: A(tm.tmax(item(a), item(b)))))
    return o


def smooth_at(c, label, f, x):
    """no root of a quantity vanishing at x is differentiated on the way (its derivative is not finite)"""
    n0 = len(c.I.events)
    c.call(lj.jacfwd(c.I, f), x)
    bad = [e for e in c.I.events[n0:] if e.kind == "sqrt-ad" and e.data[0] is ZERO and not e.path]
    c.add("violated" if bad else "holds", label, "root of a quantity that vanishes there is differentiated: the derivative is not a number" if bad else "no root vanishes there", loc=bad[0].loc if bad else None)


AND = lambda a, b: tm.ufun("AND", (), [a, b])
OR = lambda a, b: tm.ufun("OR", (), [a, b])


def set_ops():
    n = tm.neg
    T = lambda a: tm.gt0(a)
    return {
        "negate": (1, lambda a: tm.not_(a)),
        "union": (2, lambda a, b: tm.or_(a, b)),
        "intersection": (2, lambda a, b: tm.and_(a, b)),
        "difference": (2, lambda a, b: tm.and_(a, tm.not_(b))),
        "implication": (2, lambda a, b: tm.or_(tm.not_(a), b)),
        "equivalence": (2, lambda a, b: tm.or_(tm.and_(a, b), tm.and_(tm.not_(a), tm.not_(b)))),
        "xor": (2, lambda a, b: tm.or_(tm.and_(a, tm.not_(b)), tm.and_(tm.not_(a), b))),
    }


@ob("C14", "set-operations", "r_fun.RFun")
def _(c):
    x = c.vec("x", 2)
    f, g = UFun("f", (), ("x",)), UFun("g", (), ("x",))
    a, b = item(c.call(f, x)), item(c.call(g, x))
    nz = tm.and_(tm.not_(tm.eq(a, ZERO)), tm.not_(tm.eq(b, ZERO)))
    for sn in ("r1", "r0"):
        s = c.get("r_fun." + sn)
        for nm, (ar, want) in set_ops().items():
            def go():
                if sn == "r1":
                    r = item(c.call(c.call(c.attr(s, nm), *([f, g][:ar])), x))
                    # positive exactly where the Boolean combination holds (arguments off their boundaries)
                    c.eq(f"{sn}.{nm}: positive exactly on the set", tm.gt0(r), want(*[tm.gt0(t) for t in (a, b)[:ar]]), nz)
                    c.eq(f"{sn}.{nm}: negative exactly off the set", tm.gt0(tm.neg(r)), tm.not_(want(*[tm.gt0(t) for t in (a, b)[:ar]])), nz)
                    return
                if nm in ("equivalence", "xor"):
                    return
                p, q = c.sym("p", 0, None, True), c.sym("q", 0, None, True)
                for s1, s2 in itertools.product((1, -1), repeat=2) if ar == 2 else ((1, 1), (-1, 1)):
                    fs = [Builtin("f", lambda I, z: A(tm.mul(const(s1), p))), Builtin("g", lambda I, z: A(tm.mul(const(s2), q)))][:ar]
                    v = item(c.call(c.call(c.attr(s, nm), *fs), x))
                    w = want(*[const(z > 0) for z in (s1, s2)[:ar]])
                    c.sign(f"{sn}.{nm}: sign for operands {s1},{s2}", v, ">0" if w is tm.TRUE else "<0")
            c.part(nm, go)


@ob("C14", "set-operations-any-system", "r_fun.RFun")
def _(c):
    """set operations are built from the system's own conjunction and disjunction"""
    x = c.vec("x", 2)
    f, g = UFun("f", (), ("x",)), UFun("g", (), ("x",))
    a, b = item(c.call(f, x)), item(c.call(g, x))
    def truth_table(lab, s, nm, ar, want):
        """truth-table of the composition, with AND/OR interpreted by their signs"""
        def go():
            r = item(c.call(c.call(c.attr(s, nm), *([f, g][:ar])), x))

            def truth(t, env):
                if t in env:
                    return env[t]
                if t.op == "*" and len(t.args) == 2 and t.args[0].op == "c" and t.args[0].data < 0:
                    return not truth(t.args[1], env)
                if t.op == "*" and len(t.args) == 2 and t.args[0].op == "c" and t.args[0].data > 0:
                    return truth(t.args[1], env)
                if t.op == "U" and t.data[0] == "AND":
                    return truth(t.args[0], env) and truth(t.args[1], env)
                if t.op == "U" and t.data[0] == "OR":
                    return truth(t.args[0], env) or truth(t.args[1], env)
                raise Unsupported("composition " + tm.show(t, 5))
            for va, vb in itertools.product((True, False), repeat=2):
                got = truth(r, {a: va, b: vb})
                w = want(*[const(v) for v in (va, vb)[:ar]]) is tm.TRUE
                c.fact(f"{lab}{nm}: membership for operands {va}, {vb}", got == w, f"{got} instead of {w}")
        c.part(lab + nm, go)

    systems = [("", sub_sys(c))]
    # the systems on offer, with their own conjunction and disjunction replaced
    for lab, mk_ in (("RAlpha(1/2)", lambda: sysm(c, "RAlpha", A(const(H)))), ("RAlphaM(2, 0)", lambda: sysm(c, "RAlphaM", 2, A(const(0)))), ("RP(2)", lambda: sysm(c, "RP", 2)),
                     ("RP(4)", lambda: sysm(c, "RP", 4)), ("r0", lambda: c.get("r_fun.r0")), ("r1", lambda: c.get("r_fun.r1")), ("rp2", lambda: c.get("r_fun.rp2")), ("rp4", lambda: c.get("r_fun.rp4"))):
        try:
            systems.append((lab + " ", uninterpreted(c, mk_())))
        except (InterpRaise, Unsupported):
            pass  # a system that does not accept a replacement is covered by its own formulas
    for lab, s in systems:
        for nm, (ar, want) in set_ops().items():
            truth_table(lab, s, nm, ar, want)


@ob("C14", "blending", "r_fun.RhoBlending", timeout=120)
def _(c):
    rho = c.sym("rho", 0, None, True)
    s = sysm(c, "RhoBlending", A(rho))
    cj, dj = conj_disj(c, s)
    a, b = sym2(c)
    c.eq("conjunction is symmetric", cj(a, b), cj(b, a))
    c.eq("disjunction is symmetric", dj(a, b), dj(b, a))
    c.eq("De Morgan", cj(tm.neg(a), tm.neg(b)), tm.neg(dj(a, b)))
    out = tm.le(tm.mul(rho, rho), tm.add(tm.mul(a, a), tm.mul(b, b)))
    c.eq("conjunction outside the blending radius", cj(a, b), formula("RAlpha", (A(0),), a, b, -1), out)
    c.eq("disjunction outside the blending radius", dj(a, b), formula("RAlpha", (A(0),), a, b, 1), out)
    r = tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b)))
    ins = tm.lt(tm.add(tm.mul(a, a), tm.mul(b, b)), tm.mul(rho, rho))
    root2 = lambda v: tm.pw(tm.sub(v, tm.add(a, b)), const(2))
    # the radicand can only grow inside the blending radius
    c.sign("conjunction: blending never enlarges an intersection", tm.sub(root2(cj(a, b)), tm.add(tm.mul(a, a), tm.mul(b, b))), ">=0", ins)
    c.sign("disjunction: blending never shrinks a union", tm.sub(root2(dj(a, b)), tm.add(tm.mul(a, a), tm.mul(b, b))), ">=0", ins)
    c.sign("conjunction subtracts the root", tm.sub(tm.add(a, b), cj(a, b)), ">=0")
    c.sign("disjunction adds the root", tm.sub(dj(a, b), tm.add(a, b)), ">=0")
    # similarity: blending two solids scaled by k with radius k*rho is the scaled blend
    k = c.sym("k", 0, None, True)
    sk = sysm(c, "RhoBlending", A(tm.mul(k, rho)))
    cjk, djk = conj_disj(c, sk)
    ka, kb = tm.mul(k, a), tm.mul(k, b)
    c.eq("conjunction scales with the geometry", root2_k(cjk(ka, kb), ka, kb), tm.mul(k, k, root2(cj(a, b))))
    c.eq("disjunction scales with the geometry", root2_k(djk(ka, kb), ka, kb), tm.mul(k, k, root2(dj(a, b))))
    s2 = tm.sub(tm.add(tm.mul(a, a), tm.mul(b, b)), tm.mul(rho, rho))
    want = tm.add(tm.mul(a, a), tm.mul(b, b), tm.div(tm.mul(s2, s2), tm.mul(const(4), rho, rho)))
    c.eq("blend of the documented system", root2(cj(a, b)), want, ins)


def root2_k(v, a, b):
    return tm.pw(tm.sub(v, tm.add(a, b)), const(2))


# ---------------------------------------------------------------------- C15
def grad_at(c, f, x):
    return fl(c.call(lj.jacfwd(c.I, f), x))


@ob("C15", "cuboid", "r_fun.cuboid", "r_fun.compose")
def _(c):
    mn = min_sys(c)
    for d in (1, 2, 3):
        for cen in (False, True):
            L = [c.sym(f"L{i}", 0, None, True) for i in range(d)]
            x = c.vec("x", d)

            def go():
                lab = f"{d}-d cuboid{' centred' if cen else ''}"
                f = c.call("r_fun.cuboid", A(L), cen, mn)
                v = item(c.call(f, x))
                lo = [tm.mul(const(-H), l) if cen else ZERO for l in L]
                hi = [tm.mul(const(H), l) if cen else l for l in L]
                faces = [t for a, b, z in zip(lo, hi, fl(x)) for t in (tm.sub(z, a), tm.sub(b, z))]
                c.eq(f"{lab}: positive exactly inside", tm.gt0(v), tm.and_(*[tm.gt0(t) for t in faces]))
                c.eq(f"{lab}: negative exactly outside", tm.gt0(tm.neg(v)), tm.or_(*[tm.gt0(tm.neg(t)) for t in faces]))
                # with any other system: one conjunction of all half-spaces
                u = item(c.call(c.call("r_fun.cuboid", A(L), cen, sub_sys(c)), x))
                got = []

                def leaves(t):
                    if t.op == "U" and t.data[0] == "AND":
                        leaves(t.args[0]); leaves(t.args[1])
                    elif t.op == "U":
                        got.append(None)
                    else:
                        got.append(t)
                leaves(u)
                ok = len(got) >= len(faces) and None not in got and all(any(nf.decide_eq(g, t).ok for g in got) for t in faces) and all(any(nf.decide_eq(g, t).ok for t in faces) for g in got)
                c.fact(f"{lab}: conjunction of exactly its half-spaces", ok, "half-spaces: " + ", ".join(tm.show(t, 4) if t is not None else "?" for t in got))
            c.part(f"{d}{cen}", go)
    # defaults
    L, x = c.sym("L0", 0, None, True), c.vec("x", 1)
    c.part("default", lambda: c.eq("default: not centred, r0", c.call(c.call("r_fun.cuboid", A([L])), x), c.call(c.call("r_fun.cuboid", A([L]), False, c.get("r_fun.r0")), x)))


def prod_sys(c):
    """subclass of RFun whose operations are associative and symmetric with few terms: products"""
    o = c.call(c.get("r_fun.RFun"))
    c.I.setattr(o, "conjunction", Builtin("product", lambda I, a, b: A(tm.mul(item(a), item(b)))))
    c.I.setattr(o, "disjunction", Builtin("sum", lambda I, a, b: A(tm.add(item(a), item(b)))))
    return o


@ob("C15", "many-dimensions", "r_fun.cuboid", "r_fun.cube", "r_fun.sphere", "r_fun.cylinder", "r_fun.ellipsoid")
def _(c):
    """nothing is special about three dimensions"""
    pr = prod_sys(c)
    for d in [4, 5, 8] + sizes(c, ["r_fun"], 8, 40):
        def go():
            x, L = c.vec("x", d), [c.sym(f"L{i}", 0, None, True) for i in range(d)]
            for cen in (False, True):
                lo = [tm.mul(const(-H), l) if cen else ZERO for l in L]
                hi = [tm.mul(const(H), l) if cen else l for l in L]
                want = tm.mul(*[t for a, b, z in zip(lo, hi, fl(x)) for t in (tm.sub(z, a), tm.sub(b, z))])
                c.eq(f"{d}-d cuboid, centred {cen}: every half-space takes part once", c.call(c.call("r_fun.cuboid", A(L), cen, pr), x), want)
                lo, hi = (tm.mul(const(-H), L[0]), tm.mul(const(H), L[0])) if cen else (ZERO, L[0])
                want = tm.mul(*[t for z in fl(x) for t in (tm.sub(z, lo), tm.sub(hi, z))])
                c.eq(f"{d}-d cube, centred {cen}: every half-space takes part once", c.call(c.call("r_fun.cube", A(L[0]), cen, pr), x), want)
            r = c.sym("r", 0, None, True)
            q = lambda v: tm.div(tm.sub(tm.mul(r, r), tm.add(*[tm.mul(t, t) for t in v])), tm.mul(const(2), r))
            c.eq(f"{d}-d sphere", c.call(c.call("r_fun.sphere", A(r)), x), q(fl(x)))
            c.eq(f"{d}-d cylinder", c.call(c.call("r_fun.cylinder", A(r)), x), q(fl(x)[:2]))
            pt = A([tm.mul(l, const(F(1, d + i))) for i, l in enumerate(L)])
            f = c.call("r_fun.ellipsoid", A(L))
            c.sign(f"{d}-d ellipsoid: positive inside", item(c.call(f, pt)), ">0")
            for k in (0, d // 2, d - 1):
                e = A([L[i] if i == k else ZERO for i in range(d)])
                c.eq(f"{d}-d ellipsoid: zero at the end of axis {k}", c.call(f, e), ZERO)
                c.eq(f"{d}-d ellipsoid: gradient at the end of axis {k}", A(grad_at(c, f, e)), A([const(-1) if i == k else ZERO for i in range(d)]))
                out = A([tm.mul(const(F(5, 4)), L[i]) if i == k else ZERO for i in range(d)])
                c.sign(f"{d}-d ellipsoid: negative beyond the end of axis {k}", item(c.call(f, out)), "<0")
        c.part(f"{d}", go)


@ob("C15", "cuboid-normalized", "r_fun.cuboid")
def _(c):
    for nm in ("r0", "rp2", "rp4"):
        for d in (1, 2) if nm != "rp4" else (1,):
            for side in (0, 1):
                def go():
                    L = [c.sym(f"L{i}", 0, None, True) for i in range(d)]
                    f = c.call("r_fun.cuboid", A(L), False, c.get("r_fun." + nm))
                    xs = [tm.mul(L[i], c.sym(f"s{i}", 0, 1, True, True)) for i in range(d)]
                    xs[0] = ZERO if side == 0 else L[0]
                    g = grad_at(c, f, A(xs))
                    want = [ZERO] * d
                    want[0] = ONE if side == 0 else const(-1)
                    c.eq(f"{d}-d cuboid, {nm}: unit inward normal derivative on the {'lower' if side == 0 else 'upper'} face", A(g), A(want), nan_violates=True)
                    c.eq(f"{d}-d cuboid, {nm}: zero on the face", c.call(f, A(xs)), ZERO)
                c.part(f"{nm}{d}{side}", go)


@ob("C15", "cube", "r_fun.cube")
def _(c):
    for cen in (False, True):
        L, x = c.sym("L", 0, None, True), c.vec("x", 1)
        for d in (1, 2):
            x = c.vec("x", d)
            def go():
                f = c.call("r_fun.cube", A(L), cen, min_sys(c))
                v = item(c.call(f, x))
                lo, hi = (tm.mul(const(-H), L), tm.mul(const(H), L)) if cen else (ZERO, L)
                c.eq(f"{d}-d cube{' centred' if cen else ''}: positive exactly inside", tm.gt0(v), tm.and_(*[t for z in fl(x) for t in (tm.lt(lo, z), tm.lt(z, hi))]))
            c.part(f"{cen}{d}", go)


@ob("C15", "sphere", "r_fun.sphere", "r_fun.cylinder")
def _(c):
    r = c.sym("r", 0, None, True)
    for nm, n, dims in (("sphere", None, (1, 2, 3)), ("cylinder", 2, (2, 3))):
        for d in dims:
            def go():
                f = c.call("r_fun." + nm, A(r))
                x = c.vec("x", d)
                v = item(c.call(f, x))
                q = tm.add(*[tm.mul(t, t) for t in fl(x)[:n]])
                lab = f"{d}-d {nm}"
                c.eq(f"{lab}: positive exactly inside", tm.gt0(v), tm.lt(q, tm.mul(r, r)))
                c.eq(f"{lab}: negative exactly outside", tm.gt0(tm.neg(v)), tm.lt(tm.mul(r, r), q))
                m = d if n is None else n
                u = [tm.fn("cos", c.sym("t")), tm.fn("sin", c.sym("t"))] if m == 2 else [ONE] if m == 1 else [tm.mul(tm.fn("cos", c.sym("t")), tm.fn("cos", c.sym("p"))), tm.mul(tm.fn("sin", c.sym("t")), tm.fn("cos", c.sym("p"))), tm.fn("sin", c.sym("p"))]
                pt = A([tm.mul(r, t) for t in u] + [c.sym("z")] * (d - m))
                c.eq(f"{lab}: unit inward normal derivative on the boundary", A(grad_at(c, f, pt)), A([tm.neg(t) for t in u] + [ZERO] * (d - m)))
                zero = A([0] * d)
                c.eq(f"{lab}: finite at the centre", c.call(f, zero), tm.mul(const(H), r), nan_violates=True)
                c.eq(f"{lab}: gradient at the centre", A(grad_at(c, f, zero)), A([0] * d), nan_violates=True)
                smooth_at(c, f"{lab}: derivative is finite at the centre", f, zero)
            c.part(f"{nm}{d}", go)


@ob("C15", "ellipsoid", "r_fun.ellipsoid", "r_fun.normalize_1st_order", "r_fun.scale_without_normalization")
def _(c):
    for d in (1, 2, 3):
        def go():
            ax = [c.sym(f"a{i}", 0, None, True) for i in range(d)]
            f = c.call("r_fun.ellipsoid", A(ax))
            x = c.vec("x", d)
            v = item(c.call(f, x))
            q = tm.add(*[tm.pw(tm.div(t, a), const(2)) for t, a in zip(fl(x), ax)])
            lab = f"{d}-d ellipsoid"
            dirs = {1: [[ONE], [const(-1)]], 2: [[const(F(3, 5)), const(F(4, 5))], [const(F(-5, 13)), const(F(12, 13))], [ONE, ZERO], [ZERO, const(-1)]], 3: [[const(F(2, 3)), const(F(-1, 3)), const(F(2, 3))], [ZERO, ZERO, ONE], [const(F(-3, 5)), ZERO, const(F(4, 5))], [const(F(-2, 7)), const(F(3, 7)), const(F(-6, 7))]]}[d]
            for u in dirs:
                for side, k, rel in (("inside", c.sym("k", 0, 1, False, True), ">0"), ("outside", tm.add(ONE, c.sym("k", 0, None, True)), "<0")):
                    c.sign(f"{lab}: {'positive' if rel == '>0' else 'negative'} {side}", item(c.call(f, A([tm.mul(k, t, a) for t, a in zip(u, ax)]))), rel)
            u = [tm.fn("cos", c.sym("t")), tm.fn("sin", c.sym("t"))] if d == 2 else [ONE] if d == 1 else [const(F(2, 3)), const(F(-1, 3)), const(F(2, 3))]
            pt = A([tm.mul(a, t) for a, t in zip(ax, u)])
            c.eq(f"{lab}: zero on the boundary", c.call(f, pt), ZERO)
            g = grad_at(c, f, pt)
            c.eq(f"{lab}: unit gradient on the boundary", dotp(g, g), ONE)
            c.eq(f"{lab}: gradient points inwards", A([tm.neg(tm.div(t, tm.mul(a, tm.sqrt(tm.add(*[tm.pw(tm.div(t2, a2), const(2)) for t2, a2 in zip(u, ax)]))))) for t, a in zip(u, ax)]), A(g))
            zero = A([0] * d)
            c.eq(f"{lab}: finite at the centre", c.call(f, zero), ONE, nan_violates=True)
            c.eq(f"{lab}: gradient at the centre", A(grad_at(c, f, zero)), A([0] * d), nan_violates=True)
            smooth_at(c, f"{lab}: value (which contains a gradient) and derivative are finite at the centre", f, zero)
        c.part(f"{d}", go)


@ob("C15", "whole-numbers", "r_fun.cuboid", "r_fun.cube", "r_fun.sphere", "r_fun.cylinder", "r_fun.ellipsoid")
def _(c):
    x1, x2, x3 = c.vec("x", 1), c.vec("x", 2), c.vec("x", 3)
    for cen in (False, True):
        for L, x in (((3,), x1), ((3, 5), x2)):
            ints(c, f"cuboid {L} {cen}", lambda L: c.call(c.call("r_fun.cuboid", L, cen, min_sys(c)), x), L)
        ints(c, f"cube {cen}", lambda L: c.call(c.call("r_fun.cube", L, cen, min_sys(c)), x2), 3)
        ints(c, f"cuboid {cen}, point", lambda L, x: c.call(c.call("r_fun.cuboid", L, cen), x), (3, 5), iarr([1, 2]))
    for d, x in ((1, x1), (2, x2), (3, x3)):
        ints(c, f"{d}-d sphere", lambda r: c.call(c.call("r_fun.sphere", r), x), 3)
        ints(c, f"{d}-d sphere, point", lambda r, x: c.call(c.call("r_fun.sphere", r), x), 3, iarr([1, 2, 1][:d]))
        ints(c, f"{d}-d ellipsoid", lambda a: c.call(c.call("r_fun.ellipsoid", a), x), (2, 3, 5)[:d])
    ints(c, "cylinder", lambda r: c.call(c.call("r_fun.cylinder", r), x3), 3)
    ints(c, "cylinder, point", lambda r, x: c.call(c.call("r_fun.cylinder", r), x), 3, iarr([1, 2, 7]))
    ints(c, "ellipsoid, one length", lambda a: c.call(c.call("r_fun.ellipsoid", a), x2), 3)


@ob("C15", "normalization", "r_fun.normalize_1st_order")
def _(c):
    """normalizing keeps the sign and gives unit slope wherever the gradient does not vanish"""
    for d in (1, 2, 3):
        f = UFun("f", (), ("x",))
        x = c.vec("x", d)
        w = item(c.call(f, x))
        g = [D(w, s) for s in fl(x)]
        n2 = tm.add(*[tm.mul(t, t) for t in g])

        def go():
            nf_ = c.call("r_fun.normalize_1st_order", f)
            v = item(c.call(nf_, x))
            c.eq(f"{d}-d: normalized function", v, tm.div(w, tm.sqrt(tm.add(tm.mul(w, w), n2))), tm.gt0(n2))
        c.part(f"{d}", go)


# ---------------------------------------------------------------------- C16
def adf_(d):
    return UFun("adf", (), ("x",))


def rot2(th, v):
    cs, sn = tm.fn("cos", th), tm.fn("sin", th)
    return [tm.sub(tm.mul(cs, v[0]), tm.mul(sn, v[1])), tm.add(tm.mul(sn, v[0]), tm.mul(cs, v[1]))]


def at(c, f, ts):
    return item(c.call(f, A(ts)))


def madd(a, b, k=1):
    return [tm.add(x, tm.mul(const(k), y)) for x, y in zip(a, b)]


def arg_eq(c, label, got, f, pts, assume=TRUE):
    """got is the solid's function evaluated at the point pts (arguments compared by value)"""
    args = got.args if got.op == "U" and got.data[0] == "adf" else None
    if args is None:
        return c.eq(label, got, at(c, f, pts), assume)
    c.eq(label, A(list(args)), A(pts), assume)


@ob("C16", "translate-scale", "r_fun.translate", "r_fun.scale", "r_fun.scale_without_normalization")
def _(c):
    for d in [1, 2, 3, 5, 8] + sizes(c, ["r_fun"], 8, 40):
        f = adf_(d)
        x, y = c.vec("x", d), c.vec("y", d)
        # image of a point has the value of the point
        c.part("t", lambda: arg_eq(c, f"translated {d}-d solid", at(c, c.call("r_fun.translate", f, y), madd(fl(x), fl(y))), f, fl(x)))
        c.part("tt", lambda: arg_eq(c, f"translated {d}-d solid, tuple", at(c, c.call("r_fun.translate", f, tuple(A(t) for t in fl(y))), madd(fl(x), fl(y))), f, fl(x)))
        k = c.sym("k", 0, None, True)
        kx = [tm.mul(k, t) for t in fl(x)]
        for kl, kv in (("scalar", A(k)), ("one-element", A([k]))):
            c.part("s", lambda: c.eq(f"scaled {d}-d solid, {kl} factor", at(c, c.call("r_fun.scale", f, kv), kx), tm.mul(k, at(c, f, fl(x)))))
        c.part("sn", lambda: arg_eq(c, f"scaled {d}-d solid without normalization", at(c, c.call("r_fun.scale_without_normalization", f, A(k)), kx), f, fl(x)))
        ks = [c.sym(f"k{i}", 0, None, True) for i in range(d)]
        c.part("snv", lambda: arg_eq(c, f"stretched {d}-d solid", at(c, c.call("r_fun.scale_without_normalization", f, A(ks)), [tm.mul(p, q) for p, q in zip(ks, fl(x))]), f, fl(x)))
    c.raises("a vector of scale factors is refused", lambda: c.call("r_fun.scale", adf_(2), A([1, 2])))


@ob("C16", "rotate2d", "r_fun.rotate2d")
def _(c):
    f, x, o, th = adf_(2), c.vec("x", 2), c.vec("o", 2), c.sym("th")
    img = lambda o_: madd(rot2(th, madd(fl(x), o_, -1)), o_)
    c.part("o", lambda: arg_eq(c, "rotated about a point", at(c, c.call("r_fun.rotate2d", f, A(th), o), img(fl(o))), f, fl(x)))
    c.part("0", lambda: arg_eq(c, "rotated about the origin", at(c, c.call("r_fun.rotate2d", f, A(th)), rot2(th, fl(x))), f, fl(x)))
    def whole():
        t1 = at(c, c.call("r_fun.rotate2d", f, 1), fl(x))
        cs, sn = tm.fn("cos", ONE), tm.fn("sin", ONE)
        arg_eq(c, "rotation by one radian given as a whole number", t1, f, [tm.add(tm.mul(cs, x.a[0]), tm.mul(sn, x.a[1])), tm.sub(tm.mul(cs, x.a[1]), tm.mul(sn, x.a[0]))])
    c.part("int", whole)
    c.raises("a 3-d point is refused", lambda: c.call(c.call("r_fun.rotate2d", f, A(th)), c.vec("x", 3)))


def rodrigues(k, th, v):
    cs, sn = tm.fn("cos", th), tm.fn("sin", th)
    kv = dotp(k, v)
    cr = [tm.sub(tm.mul(k[1], v[2]), tm.mul(k[2], v[1])), tm.sub(tm.mul(k[2], v[0]), tm.mul(k[0], v[2])), tm.sub(tm.mul(k[0], v[1]), tm.mul(k[1], v[0]))]
    return [tm.add(tm.mul(cs, a), tm.mul(sn, b), tm.mul(tm.sub(ONE, cs), kv, t)) for a, b, t in zip(v, cr, k)]


@ob("C16", "rotate3d", "r_fun.rotate3d")
def _(c):
    f, x, o, th = adf_(3), c.vec("x", 3), c.vec("o", 3), c.sym("th")
    E = [[ONE if i == j else ZERO for j in range(3)] for i in range(3)]
    axes = [("x", E[0], [1, 0, 0]), ("y", E[1], [0, 1, 0]), ("z", E[2], [0, 0, 1]), ("(2,-1,2)", [const(F(2, 3)), const(F(-1, 3)), const(F(2, 3))], [2, -1, 2])]
    for nm, k, ax in axes:
        c.part(nm, lambda: arg_eq(c, f"rotated about axis {nm} through a point", at(c, c.call("r_fun.rotate3d", f, A(th), A(ax), o), madd(rodrigues(k, th, madd(fl(x), fl(o), -1)), fl(o))), f, fl(x)))
    c.part("z0", lambda: arg_eq(c, "rotated about axis z through the origin", at(c, c.call("r_fun.rotate3d", f, A(th), (0.0, 0.0, 1.0)), rodrigues(E[2], th, fl(x))), f, fl(x)))

    def plane():
        g = UFun("adf", (), ("x",))
        lift = Builtin("lift", lambda I, p: I.call(g, [A(fl(p)[:2])], {}))
        v3 = at(c, c.call("r_fun.rotate3d", lift, A(th), (0.0, 0.0, 1.0)), fl(x))
        v2 = at(c, c.call("r_fun.rotate2d", g, A(th)), fl(x)[:2])
        c.eq("rotating about the third axis is rotating in the plane", A(list(v3.args)), A(list(v2.args))) if v3.op == "U" and v2.op == "U" else c.eq("rotating about the third axis is rotating in the plane", v3, v2)
    c.part("plane", plane)
    a = c.vec("a", 3)

    def euler():
        img = fl(x)
        for i in range(3):
            img = rodrigues(E[i], a.a[i], img)
        arg_eq(c, "Euler angles: rotations about x, then y, then z", at(c, c.call("r_fun.rotate3d", f, a), img), f, fl(x))
        img = madd(fl(x), fl(o), -1)
        for i in range(3):
            img = rodrigues(E[i], a.a[i], img)
        arg_eq(c, "Euler angles about a point", at(c, c.call("r_fun.rotate3d", f, a, o=o), madd(img, fl(o))), f, fl(x))
    c.part("euler", euler)
    c.raises("an angle without an axis is refused", lambda: c.call("r_fun.rotate3d", f, A(th)), ["ValueError"])
    c.raises("Euler angles with an axis are refused", lambda: c.call("r_fun.rotate3d", f, a, x), ["ValueError"])
    c.raises("two angles are refused", lambda: c.call("r_fun.rotate3d", f, c.vec("a", 2)), ["ValueError"])
    c.raises("a 2-d point is refused", lambda: c.call(c.call("r_fun.rotate3d", f, A(th), (0.0, 0.0, 1.0)), c.vec("x", 2)))


@ob("C16", "reflect-project", "r_fun.reflect", "r_fun.project")
def _(c):
    for d in [1, 2, 3, 4] + sizes(c, ["r_fun"], 6, 8):
        f, x, o, n = adf_(d), c.vec("x", d), c.vec("o", d), c.vec("n", d)
        nn = dotp(fl(n), fl(n))
        As = tm.gt0(nn)
        for ol, ov, oo in (("a point", o, fl(o)), ("the origin", None, [ZERO] * d)):
            y = madd(fl(x), oo, -1)
            k = tm.div(dotp(y, fl(n)), nn)
            mir = madd([tm.sub(p, tm.mul(const(2), k, q)) for p, q in zip(y, fl(n))], oo)
            foot = madd([tm.sub(p, tm.mul(k, q)) for p, q in zip(y, fl(n))], oo)
            args = [ov] if ov is not None else []
            c.part("r", lambda: arg_eq(c, f"{d}-d solid reflected at a plane through {ol}", at(c, c.call("r_fun.reflect", f, n, *args), fl(x)), f, mir, As))
            c.part("p", lambda: arg_eq(c, f"{d}-d solid projected onto a plane through {ol}", at(c, c.call("r_fun.project", f, n, *args), fl(x)), f, foot, As))
        c.part("rt", lambda: arg_eq(c, f"{d}-d reflection, tuple normal", at(c, c.call("r_fun.reflect", f, tuple(A(t) for t in fl(n)), o), fl(x)), f, madd([tm.sub(p, tm.mul(const(2), tm.div(dotp(madd(fl(x), fl(o), -1), fl(n)), nn), q)) for p, q in zip(madd(fl(x), fl(o), -1), fl(n))], fl(o)), As))
        c.part("pt", lambda: c.eq(f"{d}-d projection, tuple origin", c.call(c.call("r_fun.project", f, n, tuple(A(t) for t in fl(o))), x), c.call(c.call("r_fun.project", f, n, o), x)))


@ob("C16", "whole-numbers", "r_fun.translate", "r_fun.scale", "r_fun.scale_without_normalization", "r_fun.rotate2d", "r_fun.rotate3d", "r_fun.reflect", "r_fun.project")
def _(c):
    f, x, z = adf_(2), c.vec("x", 2), c.vec("x", 3)
    i2, i3 = iarr([3, -2]), iarr([3, -2, 1])

    def img(g, p):
        v = item(c.call(g, p))
        return A(list(v.args)) if v.op == "U" else A(v)

    def both(nm, mk, *args, p=x, ip=i2):
        ints(c, nm, lambda *a: img(mk(*a), p), *args)
        ints(c, f"{nm}, point of integers", lambda q, *a: img(mk(*a), q), ip, *args)
    both("translation", lambda y: c.call("r_fun.translate", f, y), (1, -2))
    both("translation by an array", lambda y: c.call("r_fun.translate", f, y), iarr([1, -2]))
    for k in (2, 3):
        ints(c, f"scaled by {k}", lambda k: c.call(c.call("r_fun.scale", f, k), x), k)
        both(f"stretched by {k}", lambda k: c.call("r_fun.scale_without_normalization", f, k), k)
    both("stretched", lambda k: c.call("r_fun.scale_without_normalization", f, k), (2, 3))
    for a in (1, 2, -3):
        both(f"plane rotation {a}", lambda a, o: c.call("r_fun.rotate2d", f, a, o), a, (1, -2))
        both(f"rotation {a}", lambda a, n, o: c.call("r_fun.rotate3d", f, a, n, o), a, (0, 3, 4), (1, -2, 5), p=z, ip=i3)
    both("Euler rotation", lambda a, o: c.call("r_fun.rotate3d", f, a, o=o), (1, 2, -3), (1, -2, 5), p=z, ip=i3)
    for n in ((1, 0), (1, -2), (3, 4)):
        both(f"reflection {n}", lambda n, o: c.call("r_fun.reflect", f, n, o), n, (1, -2))
        both(f"projection {n}", lambda n, o: c.call("r_fun.project", f, n, o), n, (1, -2))
    g = adf_(2)
    ints(c, "revolution", lambda q: img(c.call("r_fun.revolution", g, 0), q), iarr([3, 4, 0]))
    ints(c, "revolution about y", lambda q: img(c.call("r_fun.revolution", g, 1), q), iarr([3, 4, 0]))


@ob("C16", "revolution", "r_fun.revolution")
def _(c):
    f, x = adf_(2), c.vec("x", 3)
    h = lambda i, j: tm.sqrt(tm.add(tm.mul(x.a[i], x.a[i]), tm.mul(x.a[j], x.a[j])))
    c.part("0", lambda: arg_eq(c, "revolution about x", at(c, c.call("r_fun.revolution", f, 0), fl(x)), f, [x.a[0], h(1, 2)]))
    c.part("d", lambda: arg_eq(c, "revolution about x by default", at(c, c.call("r_fun.revolution", f), fl(x)), f, [x.a[0], h(1, 2)]))
    c.part("1", lambda: arg_eq(c, "revolution about y", at(c, c.call("r_fun.revolution", f, 1), fl(x)), f, [h(0, 2), x.a[1]]))
    c.raises("axis 2 is refused", lambda: c.call(c.call("r_fun.revolution", f, 2), x), ["ValueError"])
    c.raises("a 2-d point is refused", lambda: c.call(c.call("r_fun.revolution", f, 0), c.vec("x", 2)))


@ob("C16", "compose", "r_fun.compose")
def _(c):
    """any number of solids is reduced with the operation, every solid exactly once"""
    for n in (1, 2, 3, 4):
        fs = [UFun(f"f{i}", (), ("x",)) for i in range(n)]
        x = c.vec("x", 2)
        op = Builtin("op", lambda I, a, b: A(tm.ufun("OP", (), [item(a), item(b)])))
        v = item(c.call(c.call(c.call("r_fun.compose", op), *fs), x))
        vals = [item(c.call(f, x)) for f in fs]
        w = vals[0]
        for t in vals[1:]:
            w = tm.ufun("OP", (), [w, t])
        c.eq(f"{n} solids", v, w)
