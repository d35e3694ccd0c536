"""C20 Steihaug subproblem, C21 trust-region update, C22 objective conventions."""
from .common import *


def B(f):
    return Builtin("spec", f)


def leafs(c, tree):
    return [t for x in lj.flatten(c.I, tree)[0] for t in fl(x)]


def like(c, tree, terms):
    xs, spec = lj.flatten(c.I, tree)
    out, k = [], 0
    for x in xs:
        x = as_arr(x)
        a = np.empty(x.a.shape, dtype=object)
        for i in np.ndindex(*x.a.shape):
            a[i] = tm.lift(terms[k])
            k += 1
        out.append(Arr(la.box(a), "f"))
    return lj.unflatten(c.I, spec, out)


def norm(v):
    return tm.sqrt(tm.add(*[tm.mul(x, x) for x in v]))


def axpy(z, a, d):
    return [tm.add(x, tm.mul(a, y)) for x, y in zip(z, d)]


def boundary_tau(z, d, rad):
    """positive root of |z + tau d| = rad"""
    a, b, cc = dotp(d, d), dotp(z, d), tm.sub(dotp(z, z), tm.mul(rad, rad))
    ba = tm.div(b, a)
    disc = tm.sub(tm.mul(ba, ba), tm.div(cc, a))
    disc = tm.sel(tm.lt(disc, ZERO), ZERO, disc)
    tau = tm.add(tm.neg(ba), tm.sqrt(disc))
    return tm.sel(tm.lt(tau, ZERO), ZERO, tau)


def cg(g, H, rad, eps, n):
    """states of the Steihaug iteration: list of dicts; each step with its (continue-)condition"""
    S = [dict(z=[ZERO] * len(g), d=[tm.neg(x) for x in g], r=list(g), nz=ZERO, nr=norm(g), curv=tm.INF, go=tm.TRUE)]
    for k in range(n):
        s = S[-1]
        go = tm.and_(s["go"], tm.not_(tm.or_(tm.le(s["curv"], ZERO) if s["curv"] is not tm.INF else tm.FALSE, tm.le(rad, s["nz"]), tm.lt(s["nr"], eps))))
        rr = dotp(s["r"], s["r"])
        Hd = H(s["d"])
        curv = dotp(s["d"], Hd)
        al = tm.div(rr, curv)
        z = s.get("zn", s["z"])  # the continuation condition excludes a step stopped at the boundary
        zn, rn = axpy(z, al, s["d"]), axpy(s["r"], al, Hd)
        be = tm.div(dotp(rn, rn), rr)
        dn = axpy([tm.neg(x) for x in rn], be, s["d"])
        nz = norm(zn)
        zb = axpy(z, boundary_tau(z, s["d"], rad), s["d"])
        leave = tm.or_(tm.le(curv, ZERO), tm.le(rad, nz))
        S.append(dict(z=[tm.sel(leave, p, q) for p, q in zip(zb, zn)], zn=zn, zb=zb, leave=leave, d=dn, r=rn, nz=nz, nr=norm(rn), curv=curv, go=go))
    return S


def fold(S, key, k=None):
    """value of a component after the loop: the last state whose guard was reached"""
    v = S[0][key]
    for s in S[1:]:
        new = s[key]
        v = [tm.sel(s["go"], p, q) for p, q in zip(new, v)] if isinstance(v, list) else tm.sel(s["go"], new, v)
    return v


def layouts(c):
    yield "vector[1]", c.vec("g", 1)
    yield "vector[2]", c.vec("g", 2)
    yield "scalar", c.s("g")
    yield "pytree", {"a": c.s("g"), "b": c.vec("k", 1)}


def hess(c, tree, sym_matrix=False):
    """an arbitrary symmetric Hessian operator with symbolic entries"""
    n = len(leafs(c, tree))
    h = {}
    for i in range(n):
        for j in range(i + 1):
            h[i, j] = h[j, i] = c.sym(f"h{i}{j}")
    H = lambda v: [tm.add(*[tm.mul(h[i, j], v[j]) for j in range(n)]) for i in range(n)]
    return H, B(lambda I, t: like(c, tree, H(leafs(c, t))))


def uhess(c, tree):
    """a completely arbitrary operator (uninterpreted)"""
    n = len(leafs(c, tree))
    H = lambda v: [tm.ufun(f"H{i}", (), list(v)) for i in range(n)]
    return H, B(lambda I, t: like(c, tree, H(leafs(c, t))))


def run_st(c, tree, op, rad, eps, n):
    return c.call("tr.steihaug", tree, op, tr_radius=rad, eps=eps, maxiter=n, unroll=True, jit=False)


FIELDS = ("iter_num", "converged", "limit_step", "step_length", "curvature", "p", "eps", "norm_r")


@ob("C20", "no-step-when-initial-residual-small", "tr.steihaug")
def _(c):
    rad, eps = c.s("D", 0, None, True), c.s("e", 0, None, True)
    for nm, g in layouts(c):
        def go():
            H, op = uhess(c, g)
            ng = norm(leafs(c, g))
            small = tm.lt(ng, eps.item())
            for n in (1, 2):
                r = run_st(c, g, op, rad, eps, n)
                for f, want in (("p", like(c, g, [ZERO] * len(leafs(c, g)))), ("iter_num", ZERO), ("step_length", ZERO), ("norm_r", ng), ("converged", tm.TRUE), ("eps", eps.item())):
                    c.part(f"{nm} {f} {n}", lambda: c.eq(f"{nm} maxiter={n}: {f} when the gradient is below the tolerance", c.attr(r, f), want, assume=small))
            r = run_st(c, g, op, rad, eps, 0)
            c.eq(f"{nm}: no iteration allowed", c.attr(r, "p"), like(c, g, [ZERO] * len(leafs(c, g))))
            c.eq(f"{nm}: not converged without iterations", c.attr(r, "converged"), small)
        c.part(nm, go)


@ob("C20", "default-iteration-limit", "tr.steihaug", "tr.tree_size")
def _(c):
    """without an explicit limit, ten iterations are allowed for every unknown, whatever the layout of the parameters"""
    rad, eps = c.s("D", 0, None, True), c.s("e", 0, None, True)
    trees = list(layouts(c)) + [("matrix", c.arr("G", (2, 3))), ("wide matrix", c.arr("G", (1, 5))), ("tensor and scalar", {"a": c.arr("G", (2, 1, 2)), "b": (c.s("g"), c.arr("k", (3, 1)))}), ("list", [c.vec("k", 3), c.vec("l", 2)])]
    for nm, g in trees:
        def go():
            n = len(leafs(c, g))
            c.I.while_bound = 0
            k0 = len(c.I.events)
            c.call("tr.steihaug", g, B(lambda I, t: t), rad, eps)
            loops = [e for e in c.I.events[k0:] if e.kind == "loop"]
            if len(loops) != 1:
                c.undecided(f"{nm}: limit", f"{len(loops)} loops found")
                return
            lim = loops[0].data[3]
            c.fact(f"{nm}: limit of {10 * n} iterations", lim is not None and c.I.int_(lim) == 10 * n, f"limit {lim}")

        c.part(nm, go)


@ob("C20", "stopping-test", "tr.steihaug")
def _(c):
    """the loop's own test on an arbitrary state: the entries which hold the curvature, the residual norm and the norm of the iterate are recognised by their value after one step"""
    rad, eps = c.s("D", 0, None, True), c.s("e", 0, None, True)
    g = c.vec("g", 2)
    H, op = uhess(c, g)
    c.I.while_bound = 0
    k0 = len(c.I.events)
    c.call("tr.steihaug", g, op, rad, eps)
    loops = [e for e in c.I.events[k0:] if e.kind == "loop"]
    if len(loops) != 1:
        c.undecided("loop", f"{len(loops)} loops found")
        return
    cond, body, state = loops[0].data[:3]
    ls, spec = lj.flatten(c.I, c.I.call(body, [state], {}))
    s1 = cg(leafs(c, g), H, rad.item(), eps.item(), 1)[1]
    found = {}
    for i, x in enumerate(map(as_arr, ls)):
        if x.shape == () and x.kind == "f":
            for role in ("curv", "nr", "nz"):
                if role not in found and nf.decide_eq(x.item(), s1[role]).status == "holds":
                    found[role] = i
    if len(found) < 3:
        c.undecided("loop state", f"only {sorted(found)} recognised in the loop state")
        return
    arb = []
    for i, x in enumerate(map(as_arr, ls)):
        a = np.empty(x.a.shape, dtype=object)
        for ix in np.ndindex(*x.a.shape):
            a[ix] = tm.boolsym(f"z{i}_{ix}") if x.kind == "b" else tm.sym(f"z{i}_{ix}")
        arb.append(Arr(a, x.kind))
    go = c.I.truth(c.I.call(cond, [lj.unflatten(c.I, spec, arb)], {}))
    go = go if isinstance(go, T) else tm.TRUE if go else tm.FALSE
    v = {r: arb[i].item() for r, i in found.items()}
    stop = tm.not_(go)
    c.true("stops on non-positive curvature", stop, assume=tm.le(v["curv"], ZERO))
    c.true("stops when the iterate reaches the radius", stop, assume=tm.le(rad.item(), v["nz"]))
    c.true("stops when the residual is below the tolerance", stop, assume=tm.lt(v["nr"], eps.item()))
    c.true("continues otherwise", go, assume=tm.and_(tm.lt(ZERO, v["curv"]), tm.and_(tm.lt(v["nz"], rad.item()), tm.le(eps.item(), v["nr"]))))


def _first(c, which):
    rad, eps = c.s("D", 0, None, True), c.s("e", 0, None, True)
    for nm, g in layouts(c):
        def go():
            H, op = uhess(c, g)
            gl = leafs(c, g)
            S = cg(gl, H, rad.item(), eps.item(), 1)
            s = S[1]
            r = run_st(c, g, op, rad, eps, 1)
            begin = tm.not_(tm.lt(norm(gl), eps.item()))
            neg = tm.le(s["curv"], ZERO)
            out = tm.and_(tm.not_(neg), tm.le(rad.item(), s["nz"]))
            inside = tm.and_(tm.not_(neg), tm.lt(s["nz"], rad.item()))
            edge = [tm.neg(tm.mul(rad.item(), tm.div(x, norm(gl)))) for x in gl]
            for lab, cond, p in (("non-positive curvature", neg, edge), ("leaves the region", out, edge), ("interior step", inside, s["zn"])):
                a = tm.and_(begin, cond)
                P = c.attr(r, "p")
                c.eq(f"{nm} {lab}: step", P, like(c, g, p), assume=a)
                c.eq(f"{nm} {lab}: iteration count", c.attr(r, "iter_num"), ONE, assume=a)
                c.eq(f"{nm} {lab}: curvature", c.attr(r, "curvature"), s["curv"], assume=a)
                if p is edge:
                    c.eq(f"{nm} {lab}: length is the radius", dotp(leafs(c, P), leafs(c, P)), tm.mul(rad.item(), rad.item()), assume=a)
                    c.eq(f"{nm} {lab}: reported length", c.attr(r, "step_length"), rad.item(), assume=a)
                    c.eq(f"{nm} {lab}: converged", c.attr(r, "converged"), tm.TRUE, assume=a)
                    c.eq(f"{nm} {lab}: limit step", c.attr(r, "limit_step"), tm.TRUE, assume=a)
                else:
                    c.eq(f"{nm} {lab}: reported length", c.attr(r, "step_length"), s["nz"], assume=a)
                    c.eq(f"{nm} {lab}: residual", c.attr(r, "norm_r"), s["nr"], assume=a)
                    c.eq(f"{nm} {lab}: converged iff residual small", c.attr(r, "converged"), tm.lt(s["nr"], eps.item()), assume=a)
        c.part(nm, go)


ob("C20", "first-iteration", "tr.steihaug", timeout=200, args=(1,))(_first)


def _second(c, layout, sym):
    rad, eps = c.s("D", 0, None, True), c.s("e", 0, None, True)
    g = dict(layouts(c))[layout]
    H, op = (hess if sym else uhess)(c, g)
    gl = leafs(c, g)
    S = cg(gl, H, rad.item(), eps.item(), 2)
    r = run_st(c, g, op, rad, eps, 2)
    c.eq("step after at most two iterations", c.attr(r, "p"), like(c, g, fold(S, "z")))
    c.eq("iteration count", c.attr(r, "iter_num"), tm.add(tm.sel(S[1]["go"], ONE, ZERO), tm.sel(tm.and_(S[1]["go"], S[2]["go"]), ONE, ZERO)))
    c.eq("curvature", c.attr(r, "curvature"), fold(S, "curv"), assume=S[1]["go"])
    c.eq("step length", c.attr(r, "step_length"), norm(fold(S, "z")))
    c.eq("residual", c.attr(r, "norm_r"), fold(S, "nr"))
    last = dict(curv=fold(S, "curv"), nz=fold(S, "nz"), nr=fold(S, "nr"))
    c.eq("converged", c.attr(r, "converged"), tm.or_(tm.le(last["curv"], ZERO), tm.le(rad.item(), last["nz"]), tm.lt(last["nr"], eps.item())), assume=S[1]["go"])
    c.eq("tolerance", c.attr(r, "eps"), eps)


def _third(c, layout):
    rad, eps = c.s("D", 0, None, True), c.s("e", 0, None, True)
    g = dict(layouts(c))[layout]
    H, op = uhess(c, g)
    gl = leafs(c, g)
    S = cg(gl, H, rad.item(), eps.item(), 3)
    r = run_st(c, g, op, rad, eps, 3)
    c.eq("step after at most three iterations", c.attr(r, "p"), like(c, g, fold(S, "z")))
    n = ZERO
    for k in (1, 2, 3):
        n = tm.add(n, tm.sel(S[k]["go"], ONE, ZERO))
    c.eq("iteration count", c.attr(r, "iter_num"), n)
    c.eq("curvature", c.attr(r, "curvature"), fold(S, "curv"), assume=S[1]["go"])
    c.eq("step length", c.attr(r, "step_length"), norm(fold(S, "z")))
    c.eq("residual", c.attr(r, "norm_r"), fold(S, "nr"))


ob("C20", "third-iteration-vector1", "tr.steihaug", tier="quick", timeout=200, args=("vector[1]",))(_third)
ob("C20", "third-iteration-vector2", "tr.steihaug", tier="quick", timeout=200, args=("vector[2]",))(_third)
ob("C20", "third-iteration-pytree", "tr.steihaug", tier="thorough", timeout=200, args=("pytree",))(_third)
ob("C20", "second-iteration-vector1", "tr.steihaug", timeout=200, args=("vector[1]", False))(_second)
ob("C20", "second-iteration-vector2", "tr.steihaug", timeout=200, args=("vector[2]", False))(_second)
ob("C20", "second-iteration-pytree", "tr.steihaug", timeout=200, args=("pytree", False))(_second)


@ob("C20", "second-iteration-boundary", "tr.steihaug", timeout=200)
def _(c):
    """a second step that must stop at the boundary has exactly the length of the radius"""
    rad, eps = c.s("D", 0, None, True), c.s("e", 0, None, True)
    g = c.vec("g", 2)
    H, op = uhess(c, g)
    gl = leafs(c, g)
    S = cg(gl, H, rad.item(), eps.item(), 2)
    r = run_st(c, g, op, rad, eps, 2)
    a = tm.and_(S[1]["go"], S[2]["go"], S[2]["leave"], tm.not_(S[1]["leave"]))
    c.eq("iteration count", c.attr(r, "iter_num"), const(2), assume=a)
    c.eq("step", c.attr(r, "p"), like(c, g, S[2]["zb"]), assume=a)


@ob("C20", "zero-curvature", "tr.steihaug", timeout=200)
def _(c):
    """a direction of exactly zero curvature is followed to the boundary, and the iteration ends there"""
    rad, eps = c.s("D", 0, None, True), c.s("e", 0, None, True)
    for nm, g in layouts(c):
        gl = leafs(c, g)
        op = B(lambda I, t: like(c, g, [ZERO] * len(gl)))
        begin = tm.not_(tm.lt(norm(gl), eps.item()))
        edge = [tm.neg(tm.mul(rad.item(), tm.div(x, norm(gl)))) for x in gl]
        for n in (1, 2, 5):
            def go():
                r = run_st(c, g, op, rad, eps, n)
                for f, want in (("p", like(c, g, edge)), ("iter_num", ONE), ("step_length", rad.item()), ("curvature", ZERO), ("converged", tm.TRUE), ("limit_step", tm.TRUE), ("eps", eps.item())):
                    c.part(f"{nm} {f} {n}", lambda: c.eq(f"{nm} maxiter={n}: {f} when the operator vanishes", c.attr(r, f), want, assume=begin))
            c.part(f"{nm} {n}", go)


@ob("C20", "second-direction-without-curvature", "tr.steihaug", timeout=200)
def _(c):
    """operators for which the second conjugate direction has zero or negative curvature"""
    for mu in (F(0), F(-1), F(-1, 2)):
        for R in (F(2), F(5), F(1, 2)):
            for n in (2, 3, 6):
                def go():
                    # g = (1, 1), H = diag(2, mu): first step along -g with curvature 2 + mu > 0
                    g = A([ONE, ONE])
                    H = lambda v: [tm.mul(const(2), v[0]), tm.mul(const(mu), v[1])]
                    op = B(lambda I, t: A(H(fl(t))))
                    e = F(1, 1000)
                    S = cg(fl(g), H, const(R), const(e), n)
                    r = run_st(c, g, op, A(const(R)), A(const(e)), n)
                    c.eq(f"diag(2, {mu}) radius {R} maxiter={n}: step", c.attr(r, "p"), A(fold(S, "z")))
                    k = tm.add(*[tm.sel(s["go"], ONE, ZERO) for s in S[1:]])
                    c.eq(f"diag(2, {mu}) radius {R} maxiter={n}: iteration count", c.attr(r, "iter_num"), k)
                    c.eq(f"diag(2, {mu}) radius {R} maxiter={n}: curvature", c.attr(r, "curvature"), fold(S, "curv"))
                    c.eq(f"diag(2, {mu}) radius {R} maxiter={n}: converged", c.attr(r, "converged"), tm.TRUE)
                c.part(f"{mu} {R} {n}", go)


@ob("C20", "default-iteration-limit", "tr.steihaug")
def _(c):
    rad, eps = c.s("D", 0, None, True), c.s("e", 0, None, True)
    for nm, g in layouts(c):
        def go():
            H, op = uhess(c, g)
            n0 = len(c.I.events)
            c.I.while_bound = 1
            c.call("tr.steihaug", g, op, rad, eps)
            lim = [e.data[3] for e in c.I.events[n0:] if e.kind == "loop"]
            n = len(leafs(c, g))
            c.fact(f"{nm}: a bound on the number of iterations of at least the dimension", len(lim) == 1 and lim[0] is not None and c.I.int_(lim[0]) >= n, f"{lim}")
        c.part(nm, go)


# ------------------------------------------------------------------------------------------------ C21
def state_of(c, params, grad_like, rad, prev_eps=None, it=None, aux=True):
    CR, TS = c.get("tr.CgSteihaugResult"), c.get("tr.TrState")
    sub = c.call(CR, iter_num=c.A(3, "i"), converged=A(tm.TRUE), limit_step=A(tm.FALSE), step_length=c.s("sl"), curvature=c.s("cv"), p=like(c, params, [c.sym(f"op{i}") for i in range(len(leafs(c, params)))]), eps=prev_eps if prev_eps is not None else c.s("pe", 0, None, True), norm_r=c.s("pr"))
    return c.call(TS, iter_num=it if it is not None else Arr(c.sym("it", integer=True), "i"), accepted=A(tm.boolsym("acc0")), value=c.s("v0"), grad=like(c, params, [c.sym(f"og{i}") for i in range(len(leafs(c, params)))]), error=c.s("er0"), rho=c.s("rho0"), tr_radius=rad, aux=c.s("aux0") if aux else None, subproblem_result=sub)


def objective(c, kind, n):
    """(fun, value(p), aux(p)) for the four calling conventions; args (x, a, k=b)"""
    f = lambda xs, a, b: tm.ufun("f", (), list(xs) + [a, b])
    aux = lambda xs, a, b: tm.ufun("q", (), list(xs) + [a, b])
    vg, ha = kind

    def fun(I, x, a, k=None):
        xs = leafs(c, x)
        a_, b_ = item(a), item(k)
        v = f(xs, a_, b_)
        val = A(v)
        if ha:
            val = (val, A(aux(xs, a_, b_)))
        if vg:
            s = [c.sym(f"_x{i}") for i in range(len(xs))]
            t = f(s, a_, b_)
            m = dict(zip(s, xs))
            g = like(c, x, [tm.subst(tm.diff(t, si), m) for si in s])
            return val, g
        return val

    return B(fun), f, aux


KINDS = [(False, False), (False, True), (True, False), (True, True)]


def grad_of(f, xs, a, b):
    s = [tm.sym(f"_y{i}") for i in range(len(xs))]
    t = f(s, a, b)
    m = dict(zip(s, xs))
    return [tm.subst(tm.diff(t, si), m) for si in s]


def hess_of(f, xs, v, a, b):
    s = [tm.sym(f"_y{i}") for i in range(len(xs))]
    t = f(s, a, b)
    m = dict(zip(s, xs))
    return [tm.add(*[tm.mul(tm.subst(tm.diff(tm.diff(t, si), sj), m), w) for sj, w in zip(s, v)]) for si in s]


def param_layouts(c):
    yield "vector", c.vec("x", 2)
    yield "pytree", {"a": c.s("x"), "b": c.vec("y", 1)}


def _update(c, layout, kind, mode, maxit=1):
    x = dict(param_layouts(c))[layout]
    xs = leafs(c, x)
    a, b = c.s("a"), c.s("b")
    fun, f, aux = objective(c, kind, len(xs))
    kw = dict(value_and_grad=kind[0], has_aux=kind[1], maxiter_steihaug=maxit, init_tr_radius=1, max_tr_radius=c.s("Rmax", 0, None, True), min_tr_radius=c.s("Rmin", 0, None, True),
              rho_increase=F(3, 4), increase_factor=F(3), rho_decrease=F(1, 3), decrease_factor=F(1, 5), rho_accept=F(1, 8), tol=F(1, 100), jit=False, unroll=True)
    h = F(1, 16)
    if mode == "fd":
        kw.update(approx_hvp=True, fd_h=h)
    if mode == "damped":
        kw.update(damping_factor=c.s("mu", 0, None, True))
    opt = c.call("tr.TR", fun, **kw)
    rad = c.s("R", 0, None, True)
    st = state_of(c, x, x, rad, aux=kind[1])
    step = c.call(c.attr(opt, "update"), x, st, a, k=b)
    P, S = c.attr(step, "params"), c.attr(step, "state")
    Rmin, Rmax, R = kw["min_tr_radius"].item(), kw["max_tr_radius"].item(), rad.item()
    stop = tm.le(R, Rmin)
    lab = f"{layout} vg={kind[0]} aux={kind[1]} {mode}"
    # at the minimum radius nothing changes
    c.eq(f"{lab}: parameters unchanged at the minimum radius", P, x, assume=stop)
    for fld in ("iter_num", "accepted", "value", "grad", "error", "rho", "tr_radius", "subproblem_result"):
        c.part(fld, lambda: c.eq(f"{lab}: state.{fld} unchanged at the minimum radius", c.attr(S, fld), c.attr(st, fld), assume=stop))
    go = tm.not_(stop)
    sub = c.attr(S, "subproblem_result")
    p = [subst_guard(t, go) for t in leafs(c, c.attr(sub, "p"))]
    A_, B_ = a.item(), b.item()
    g = grad_of(f, xs, A_, B_)
    if mode == "fd":
        Hp = [tm.div(tm.sub(u, w), const(h)) for u, w in zip(grad_of(f, axpy(xs, const(h), p), A_, B_), g)]
    else:
        Hp = hess_of(f, xs, p, A_, B_)
    new = axpy(xs, ONE, p)
    f0, f1 = f(xs, A_, B_), f(new, A_, B_)
    pred = tm.neg(tm.add(dotp(g, p), tm.mul(const(H_()), dotp(p, Hp))))
    rho = tm.div(tm.sub(f0, f1), pred)
    acc = tm.le(const(F(1, 8)), rho)
    c.eq(f"{lab}: ratio of actual to predicted reduction", c.attr(S, "rho"), rho, assume=go)
    c.eq(f"{lab}: accepted exactly when the ratio reaches the threshold", c.attr(S, "accepted"), acc, assume=go)
    rhoS = subst_guard(item(c.attr(S, "rho")), go)
    accS = tm.le(const(F(1, 8)), rhoS)
    for nm, cond, at in (("accepted", accS, new), ("rejected", tm.not_(accS), xs)):
        asm = tm.and_(go, cond)
        gg = grad_of(f, at, A_, B_)
        c.eq(f"{lab}: {nm}: parameters", P, like(c, x, at), assume=asm)
        c.eq(f"{lab}: {nm}: value", c.attr(S, "value"), f(at, A_, B_), assume=asm)
        c.eq(f"{lab}: {nm}: gradient", c.attr(S, "grad"), like(c, x, gg), assume=asm)
        c.eq(f"{lab}: {nm}: error is the gradient norm", c.attr(S, "error"), norm(gg), assume=asm)
        if kind[1]:
            c.eq(f"{lab}: {nm}: auxiliary output", c.attr(S, "aux"), aux(at, A_, B_), assume=asm)
    c.eq(f"{lab}: iteration counter", c.attr(S, "iter_num"), tm.add(item(c.attr(st, "iter_num")), ONE), assume=go)
    # radius
    r1 = c.attr(S, "tr_radius")
    sl = norm(p)
    bad = tm.lt(rhoS, const(F(1, 3)))
    shr = tm.tmax(tm.mul(R, const(F(1, 5))), Rmin)
    c.eq(f"{lab}: radius shrinks on poor agreement", r1, shr, assume=tm.and_(go, bad))
    mid = tm.and_(go, tm.not_(bad), tm.not_(tm.lt(const(F(3, 4)), rhoS)))
    c.eq(f"{lab}: radius kept on fair agreement", r1, tm.tmax(R, Rmin), assume=mid)
    good = tm.and_(go, tm.not_(bad), tm.lt(const(F(3, 4)), rhoS))
    # on good agreement the radius is what the radius rule (decided on its own) gives for this ratio and step length
    if mode == "exact":
        w = dict(Rmax=kw["max_tr_radius"], Rmin=kw["min_tr_radius"], inc=c.A(F(3, 4)), dec=c.A(F(1, 3)), fi=c.A(F(3)), fd=c.A(F(1, 5)))
        slS = Arr(nf.under(item(c.attr(sub, "step_length")), good), "f")
        c.eq(f"{lab}: radius on good agreement follows the radius rule", nf.under(item(r1), good), nf.under(item(radius(c, w, rad, Arr(rhoS, "f"), slS)), good), assume=good)
    return dict(r1=r1, R=R, Rmin=Rmin, Rmax=Rmax, go=go, rho=rhoS, sl=sl, lab=lab, sub=sub, p=p, g=g, f=f, xs=xs, ab=(A_, B_), kw=kw, x=x, st=st, S=S)


def H_():
    return F(1, 2)


def subst_guard(t, go):
    """value of t when the guard holds (top-level joins on the guard are resolved)"""
    return nf.under(t, go)


for _l in ("vector", "pytree"):
    for _k in KINDS:
        for _m in ("exact", "fd", "damped"):
            if (_l == "pytree" and (_m != "exact" or _k not in ((False, False), (True, True)))):
                continue
            ob("C21", f"update {_l} vg={_k[0]} aux={_k[1]} {_m}", "tr.TR.update", tier="quick" if _m == "exact" or _k == (False, False) else "thorough", timeout=240, args=(_l, _k, _m))(lambda c, l, k, m: _update(c, l, k, m))


def radius(c, kw, rad, rho, step):
    """the radius rule through its own function"""
    return c.call("tr.update_tr_radius", rad, kw["Rmax"], kw["Rmin"], rho, step, kw["inc"], kw["dec"], kw["fi"], kw["fd"])


@ob("C21", "radius-rule", "tr.update_tr_radius")
def _(c):
    lo = c.sym("lo", 0, None, True)
    Rt = tm.add(lo, c.sym("up", 0, None))
    hi = tm.add(Rt, c.sym("room", 0, None))
    R = Arr(Rt, "f")
    r_, w = c.sym("rd", 0, None, True), c.sym("w", 0, None)
    kw = dict(Rmax=Arr(hi, "f"), Rmin=Arr(lo, "f"), dec=Arr(r_, "f"), inc=Arr(tm.add(r_, w), "f"), fi=Arr(tm.add(ONE, c.sym("a", 0, None, True)), "f"), fd=c.s("b", 0, 1, True, True))
    rho, st = c.s("rho"), c.s("st", 0, None)
    within = tm.and_(tm.le(lo, R.item()), tm.le(R.item(), hi))
    r1 = item(radius(c, kw, R, rho, st))
    c.sign("never below the minimum", tm.sub(r1, lo), ">=0", assume=within)
    c.sign("never above the maximum", tm.sub(hi, r1), ">=0", assume=within)
    bad = tm.lt(rho.item(), r_)
    c.eq("poor agreement: shrinks", r1, tm.tmax(tm.mul(R.item(), kw["fd"].item()), lo), assume=tm.and_(within, bad))
    good = tm.lt(kw["inc"].item(), rho.item())
    c.eq("fair agreement: kept", r1, R, assume=tm.and_(within, tm.not_(bad), tm.not_(good)))
    rb = item(radius(c, kw, R, rho, R))
    c.eq("good agreement on the boundary: grows up to the maximum", rb, tm.tmin(tm.mul(R.item(), kw["fi"].item()), hi), assume=tm.and_(within, good, tm.not_(bad)))
    for q in (F(9, 10), F(99, 100), F(199, 200), F(999, 1000), F(101, 100), F(1001, 1000)):
        rq = item(radius(c, kw, R, rho, Arr(tm.mul(R.item(), const(q)), "f")))
        c.eq(f"good agreement, step of {q} times the radius: kept", rq, R, assume=tm.and_(within, good, tm.not_(bad), tm.lt(const(F(1, 100)), R.item())))
    ri = item(radius(c, kw, R, rho, Arr(tm.div(R.item(), const(2)), "f")))
    c.eq("good agreement, step at half the radius: kept", ri, R, assume=tm.and_(within, good, tm.not_(bad), tm.lt(const(F(1, 1000)), R.item())))


def _sub(c, layout, mode):
    """the step of an update is the Steihaug step for this gradient, Hessian, radius and tolerance"""
    R = _update(c, layout, (False, True), mode, maxit=1)
    x, xs, g, f, ab, lab = R["x"], R["xs"], R["g"], R["f"], R["ab"], R["lab"]
    del c.res[:]
    sub, go = R["sub"], R["go"]
    if mode == "fd":
        h = const(F(1, 16))
        H = lambda v: [tm.div(tm.sub(u, w), h) for u, w in zip(grad_of(f, axpy(xs, h, v), *ab), g)]
    else:
        H = lambda v: hess_of(f, xs, v, *ab)
    if mode == "damped":
        H0, mu = H, R["kw"]["damping_factor"].item()
        H = lambda v: axpy(H0(v), mu, v)
    op = B(lambda I, t: like(c, x, H(leafs(c, t))))
    eps = Arr(nf.under(item(c.attr(sub, "eps")), go), "f")
    want = run_st(c, like(c, x, g), op, Arr(R["R"], "f"), eps, 1)
    for fld in ("p", "iter_num", "converged", "step_length", "curvature", "norm_r"):
        c.part(fld, lambda: c.eq(f"{lab}: subproblem {fld}", c.attr(sub, fld), c.attr(want, fld), assume=go))
    # tolerance of the subproblem: forcing sequence, monotone, not below the gradient tolerance
    ng, pe = norm(g), item(c.attr(c.attr(R["st"], "subproblem_result"), "eps"))
    tol = const(F(1, 100))
    fs = tm.mul(tm.tmin(const(H_()), tm.sqrt(ng)), ng)
    c.eq(f"{lab}: subproblem tolerance", eps, tm.tmax(tol, tm.tmin(pe, fs)), assume=go)


for _l in ("vector", "pytree"):
    for _m in ("exact", "fd", "damped"):
        ob("C21", f"subproblem {_l} {_m}", "tr.TR.update", "tr.steihaug", timeout=200, args=(_l, _m))(_sub)


@ob("C21", "initial-state", "tr.TR.init_state")
def _(c):
    for layout, x in param_layouts(c):
        for kind in KINDS:
            def go():
                xs = leafs(c, x)
                a, b = c.s("a"), c.s("b")
                fun, f, aux = objective(c, kind, len(xs))
                R0, Rmin = c.s("R0", 0, None, True), c.s("Rmin", 0, None, True)
                opt = c.call("tr.TR", fun, value_and_grad=kind[0], has_aux=kind[1], init_tr_radius=R0, min_tr_radius=Rmin, max_tr_radius=2)
                lab = f"{layout} vg={kind[0]} aux={kind[1]}"
                g = grad_of(f, xs, a.item(), b.item())

                def check(S, rad, it, lab):
                    c.eq(f"{lab}: value", c.attr(S, "value"), f(xs, a.item(), b.item()))
                    c.eq(f"{lab}: gradient", c.attr(S, "grad"), like(c, x, g))
                    c.eq(f"{lab}: error", c.attr(S, "error"), norm(g))
                    c.eq(f"{lab}: radius", c.attr(S, "tr_radius"), rad)
                    c.eq(f"{lab}: iteration counter", c.attr(S, "iter_num"), it)
                    if kind[1]:
                        c.eq(f"{lab}: auxiliary output", c.attr(S, "aux"), aux(xs, a.item(), b.item()))
                    else:
                        c.fact(f"{lab}: no auxiliary output", c.attr(S, "aux") is None, "aux is not None")

                check(c.call(c.attr(opt, "init_state"), x, a, k=b), R0.item(), ZERO, lab)
                R, it = c.s("R", 0, None, True), Arr(c.sym("it", integer=True), "i")
                prev = c.I.call(c.I.get("jaxopt.OptStep") if False else OPT(c), [x, state_of(c, x, x, R, it=it, aux=kind[1])], {})
                check(c.call(c.attr(opt, "init_state"), prev, a, k=b), tm.sel(tm.le(R.item(), Rmin.item()), R0.item(), R.item()), it, lab + " warm start")

            c.part(f"{layout} {kind}", go)


def OPT(c):
    from magstat import lib
    return lib.OPTSTEP


@ob("C21", "update-accepts-optstep-and-callback", "tr.TR.update")
def _(c):
    x = c.vec("x", 2)
    a, b = c.s("a"), c.s("b")
    fun, f, aux = objective(c, (False, False), 2)
    R = c.s("R", 0, None, True)
    mk = lambda **k: c.call("tr.TR", fun, maxiter_steihaug=1, jit=False, unroll=True, **k)
    st = state_of(c, x, x, R, aux=False)
    one = c.call(c.attr(mk(), "update"), x, st, a, k=b)
    two = c.call(c.attr(mk(), "update"), c.I.call(OPT(c), [x, st], {}), st, a, k=b)
    for fld in ("params",):
        c.eq("an OptStep is accepted in place of the parameters", c.attr(two, fld), c.attr(one, fld))
    for fld in ("value", "grad", "tr_radius", "rho", "accepted"):
        c.eq(f"an OptStep is accepted in place of the parameters: {fld}", c.attr(c.attr(two, "state"), fld), c.attr(c.attr(one, "state"), fld))
    log = []
    cb = B(lambda I, s: log.append(s))
    r = c.call(c.attr(mk(callback=cb), "update"), x, st, a, k=b)
    c.eq("the callback does not change the step", c.attr(r, "params"), c.attr(one, "params"))
    n = [e for e in c.I.events if e.kind == "io_callback"]
    c.fact("the callback is invoked once per performed update", len(n) + len(log) == 1 or (len(n) == 1 and len(log) <= 1), f"{len(n)} callback sites, {len(log)} invocations")


@ob("C21", "inconsistent-thresholds-refused", "tr.TR")
def _(c):
    fun, f, aux = objective(c, (False, False), 2)
    c.raises("rho_accept > rho_decrease", lambda: c.call("tr.TR", fun, rho_accept=F(1, 2), rho_decrease=F(1, 4)), ["ValueError"])
    c.part("equal thresholds", lambda: c.fact("equal thresholds are allowed", c.call("tr.TR", fun, rho_accept=F(1, 4), rho_decrease=F(1, 4)) is not None))


# ------------------------------------------------------------------------------------------------ C22
@ob("C22", "objective-conventions", "utils.make_funs_with_aux")
def _(c):
    for layout, x in param_layouts(c):
        for kind in KINDS:
            def go():
                xs = leafs(c, x)
                a, b = c.s("a"), c.s("b")
                fun, f, aux = objective(c, kind, len(xs))
                lab = f"{layout} value_and_grad={kind[0]} has_aux={kind[1]}"
                fs = c.I.iterate(c.call("utils.make_funs_with_aux", fun, kind[0], kind[1]))
                c.fact(f"{lab}: three functions", len(fs) == 3, f"{len(fs)}")
                val = f(xs, a.item(), b.item())
                av = A(aux(xs, a.item(), b.item())) if kind[1] else None
                g = like(c, x, grad_of(f, xs, a.item(), b.item()))
                c.eq(f"{lab}: value function", c.call(fs[0], x, a, k=b), (A(val), av))
                c.eq(f"{lab}: gradient function", c.call(fs[1], x, a, k=b), (g, av))
                c.eq(f"{lab}: value and gradient function", c.call(fs[2], x, a, k=b), ((A(val), av), g))
                fk = c.call("utils.make_funs_with_aux", fun=fun, value_and_grad=kind[0], has_aux=kind[1])
                c.eq(f"{lab}: keywords", c.call(c.I.iterate(fk)[2], x, a, b), ((A(val), av), g))

            c.part(f"{layout} {kind}", go)


@ob("C22", "argument-passing", "utils.make_funs_with_aux")
def _(c):
    """positional and keyword arguments reach the objective under their own names, in any order, with its defaults"""
    x = c.vec("x", 2)
    a, b, d = c.s("a"), c.s("b"), c.s("d")
    DEF = {"a": c.s("da"), "b": c.s("db"), "d": c.s("dd")}
    for kind in KINDS:
        vg, ha = kind
        val = lambda xs, q: tm.ufun("f", (), list(xs) + [q["a"], q["b"], q["d"]])
        aux = lambda xs, q: tm.ufun("q", (), list(xs) + [q["a"], q["b"], q["d"]])

        def grad(xs, q):
            s_ = [tm.sym(f"_z{i}") for i in range(len(xs))]
            m = dict(zip(s_, xs))
            return [tm.subst(tm.diff(val(s_, q), t), m) for t in s_]

        def fun(I, p, *pos, **kw):
            q = {k: item(v) for k, v in DEF.items()}
            q.update({k: item(v) for k, v in zip("abd", pos)})
            q.update({k: item(v) for k, v in kw.items()})
            xs = leafs(c, p)
            v = A(val(xs, q))
            if ha:
                v = (v, A(aux(xs, q)))
            return (v, like(c, p, grad(xs, q))) if vg else v

        def go():
            fs = c.I.iterate(c.call("utils.make_funs_with_aux", B(fun), vg, ha))
            for lab, pos, kw in (("none", (), {}), ("keywords in reverse order", (), dict(d=d, b=b, a=a)), ("one keyword", (), dict(b=b)), ("last keyword only", (), dict(d=d)), ("two keywords swapped", (a,), dict(d=d, b=b)), ("positional", (a, b, d), {}), ("mixed", (a, b), dict(d=d)), ("two keywords", (), dict(d=a, a=d))):
                q = {k: item(v) for k, v in DEF.items()}
                q.update({k: item(v) for k, v in zip("abd", pos)})
                q.update({k: item(v) for k, v in kw.items()})
                xs = leafs(c, x)
                av = A(aux(xs, q)) if ha else None
                v, g = A(val(xs, q)), like(c, x, grad(xs, q))
                L = f"value_and_grad={vg} has_aux={ha} {lab}"
                c.eq(f"{L}: value", c.call(fs[0], x, *pos, **kw), (v, av))
                c.eq(f"{L}: gradient", c.call(fs[1], x, *pos, **kw), (g, av))
                c.eq(f"{L}: value and gradient", c.call(fs[2], x, *pos, **kw), ((v, av), g))
        c.part(f"{kind}", go)


@ob("C22", "pytree-dim", "utils.tree_dim")
def _(c):
    for tree, ax, want in (
        (lambda: c.arr("x", (3, 2)), 0, 3), (lambda: c.arr("x", (3, 2)), 1, 2), (lambda: {"a": c.arr("x", (4,)), "b": [c.arr("y", (4, 1)), c.arr("z", (4, 2, 2))]}, 0, 4),
        (lambda: (c.arr("x", (2, 3)), c.arr("y", (5, 3))), 1, 3), (lambda: (c.arr("x", (2, 3)), c.arr("y", (5, 3))), -1, 3),
    ):
        c.part(f"axis {ax} -> {want}", lambda: c.eq(f"common size {want} along axis {ax}", c.A(c.I.int_(c.call("utils.tree_dim", tree(), axis=ax)), "i"), c.A(want, "i")))
    c.part("default axis", lambda: c.eq("axis 0 by default", c.A(c.I.int_(c.call("utils.tree_dim", c.arr("x", (3, 2)))), "i"), c.A(3, "i")))
    c.part("positional axis", lambda: c.eq("axis by position", c.A(c.I.int_(c.call("utils.tree_dim", c.arr("x", (3, 2)), 1)), "i"), c.A(2, "i")))
    for tree, ax in ((lambda: {"a": c.arr("x", (3,)), "b": c.arr("y", (4,))}, 0), (lambda: (c.arr("x", (3, 2)), c.arr("y", (3, 1))), 1), (lambda: [c.arr("x", (1,)), c.arr("y", (2,)), c.arr("z", (1,))], 0)):
        c.raises(f"different sizes along axis {ax} are refused", lambda: c.call("utils.tree_dim", tree(), axis=ax), ["AssertionError", "ValueError"])


@ob("C22", "pytree-dtype", "utils.tree_single_dtype")
def _(c):
    f = c.get("utils.tree_single_dtype")
    x, y = c.vec("x", 2), c.s("y")
    k = Arr(np.array([const(1), const(2)], dtype=object), "i")
    dt = lambda v: c.attr(v, "dtype")
    for nm, tree, want in (("float leaves", {"a": x, "b": [y]}, x), ("integer leaves", (k, k), k), ("single array", x, x)):
        c.part(nm, lambda: c.fact(f"{nm}: the common dtype", c.I.truth(c.I.compare("Eq", c.call(f, tree), dt(want))) is True, f"{c.call(f, tree)}"))
    def wide(v, kind, name):
        r = Arr(v.a, kind)
        r.dt = DType(kind, name)
        return r

    half, double, uns = wide(x, "f", "float16"), wide(x, "f", "float64"), wide(k, "i", "uint32")
    for nm, tree, want in (("half precision leaves", {"a": half, "b": (half,)}, half), ("double precision leaves", [double, double, double], double), ("unsigned leaves", (uns, uns), uns)):
        c.part(nm, lambda: c.fact(f"{nm}: the common dtype", c.I.truth(c.I.compare("Eq", c.call(f, tree), dt(want))) is True, f"{c.call(f, tree)}"))
    for nm, tree in (("two float widths", (x, half)), ("double and half", {"a": double, "b": [half]}), ("signed and unsigned", (k, uns)), ("three dtypes", [x, k, half]), ("last leaf only", [x, x, x, half])):
        c.raises(f"mixed dtypes are refused: {nm}", lambda: c.call(f, tree), ["ValueError"])
    c.part("no arrays", lambda: c.fact("nothing for a tree without arrays", c.call(f, {}) is None, "not None"))
    c.raises("mixed dtypes are refused", lambda: c.call(f, (x, k)), ["ValueError"])
    c.raises("mixed dtypes are refused (deep)", lambda: c.call(f, {"a": [x, {"b": k}]}), ["ValueError"])
