"""C01-C03: differential operators."""
from .common import *


def two(c):
    return c.s("a"), c.s("b")


@ob("C01", "by-position", "calc.derivative")
def _(c):
    f = UFun("f", (), ("x", "y", "z"))
    a, b, z = c.s("a"), c.s("b"), c.s("z")
    v = item(c.call(f, a, b, z))
    d = c.get("calc.derivative")
    for i, s in enumerate((a, b, z)):
        c.part(f"derivative(f,{i})", lambda: c.eq(f"derivative(f,{i})", c.call(c.call(d, f, i), a, b, z), D(v, s)))
        c.part(f"derivative({i})(f)", lambda: c.eq(f"derivative({i})(f)", c.call(c.call(c.call(d, i), f), a, b, z), D(v, s)))
        c.part(f"derivative([{i}])(f)", lambda: c.eq(f"derivative([{i}])(f)", c.call(c.call(c.call(d, [i]), f), a, b, z), D(v, s)))
    c.part("default", lambda: c.eq("derivative(f)", c.call(c.call(d, f), a, b, z), D(v, a)))
    for w in itertools.product(range(3), repeat=2):
        c.part(f"mixed{w}", lambda: c.eq(f"derivative({list(w)})(f)", c.call(c.call(c.call(d, list(w)), f), a, b, z), D(v, *[(a, b, z)[i] for i in w])))
    for n in (3, 4, 5):
        for w in ((0,) * n, (0, 1) * (n // 2) + (2,) * (n % 2), tuple(k % 3 for k in range(n)), (1,) + (2,) * (n - 1)):
            c.part(f"order{n}-{w}", lambda: c.eq(f"derivative({list(w)})(f)", c.call(c.call(c.call(d, list(w)), f), a, b, z), D(v, *[(a, b, z)[i] for i in w])))
    c.part("third", lambda: c.eq("derivative((0,1,1))(f)", c.call(c.call(c.call(d, (0, 1, 1)), f), a, b, z), D(v, a, b, b)))
    c.part("nested", lambda: c.eq("derivative(derivative(f,0),2)", c.call(c.call(d, c.call(d, f, 0), 2), a, b, z), D(v, a, z)))


@ob("C01", "by-name", "calc.derivative", "calc.value_and_derivative")
def _(c):
    d = c.get("calc.derivative")
    # parameter orders that are neither alphabetical nor reversed, names of one and several letters
    for order in (("pos", "t"), ("t", "pos"), ("x", "a", "long_name"), ("b", "c", "a"), ("y", "x")):
        f = UFun("f", (), order)
        syms = [c.s(f"s{i}") for i in range(len(order))]
        v = item(c.call(f, *syms))
        names = dict(zip(order, syms))
        for n in names:
            c.part(f"'{n}'", lambda: c.eq(f"{order}: derivative('{n}')(f)", c.call(c.call(c.call(d, n), f), *syms), D(v, names[n])))
            c.part(f"['{n}']", lambda: c.eq(f"{order}: derivative(['{n}'])(f)", c.call(c.call(c.call(d, [n]), f), *syms), D(v, names[n])))
            c.part(f"vd-{n}", lambda: c.eq(f"{order}: value_and_derivative(f,'{n}')", c.call(c.call("calc.value_and_derivative", f, n), *syms), (v, D(v, names[n]))))
        for w in itertools.product(list(order[:2]) + [0, 1], repeat=2):
            want = D(v, *[syms[x] if isinstance(x, int) else names[x] for x in w])
            c.part(f"{w}", lambda: c.eq(f"{order}: derivative({list(w)})(f)", c.call(c.call(c.call(d, list(w)), f), *syms), want))
    f = UFun("f", (), ("pos", "t"))
    a, b = two(c)
    c.raises("unknown name", lambda: c.call(c.call(c.call(d, ["q"]), f), a, b))


@ob("C01", "by-component", "calc.derivative", "calc.value_and_derivative")
def _(c):
    f = UFun("f", (2,), ("x", "y"))
    x, y = c.vec("x", 2), c.vec("y", 3)
    v = fl(c.call(f, x, y))
    d = c.get("calc.derivative")
    for k, arg in enumerate((x, y)):
        for j in range(arg.shape[0]):
            want = A([D(t, arg.a[j]) for t in v])
            c.part(f"{k}.{j}", lambda: c.eq(f"derivative([{j}],argnums=[{k}])", c.call(c.call(c.call(d, [j], [k]), f), x, y), want))
            c.part(f"i{k}.{j}", lambda: c.eq(f"derivative({j},argnums={k})", c.call(c.call(c.call(d, j, argnums=k), f), x, y), want))
            c.part(f"v{k}.{j}", lambda: c.eq(f"value_and_derivative({j},argnum={k})", c.call(c.call("calc.value_and_derivative", f, j, argnum=k), x, y), (A(v), want)))
    want = A([D(t, x.a[1], y.a[2]) for t in v])
    c.part("cross", lambda: c.eq("derivative([1,2],argnums=[0,1])", c.call(c.call(c.call(d, [1, 2], argnums=[0, 1]), f), x, y), want))
    want = A([D(t, y.a[0], y.a[2]) for t in v])
    c.part("same-arg", lambda: c.eq("derivative([0,2],argnums=1)", c.call(c.call(c.call(d, [0, 2], argnums=1), f), x, y), want))


@ob("C01", "tangent-direction", "calc.value_and_derivative")
def _(c):
    f = UFun("f", (2,), ("x", "y"))
    x, y = c.vec("x", 2), c.s("y")
    tx, ty = c.vec("u", 2), c.s("w")
    v = fl(c.call(f, x, y))
    want = A([tm.add(*[tm.mul(D(t, p), q) for p, q in zip(fl(x) + fl(y), fl(tx) + fl(ty))]) for t in v])
    vd = c.get("calc.value_and_derivative")
    c.part("tangent", lambda: c.eq("value_and_derivative(f,[u,w])", c.call(c.call(vd, f, [tx, ty]), x, y), (A(v), want)))
    c.part("derivative-tangent", lambda: c.eq("derivative([[u,w]])(f)", c.call(c.call(c.call("calc.derivative", [[tx, ty]]), f), x, y), want))


@ob("C01", "value-and-arguments", "calc.value_and_derivative", "calc.derivative")
def _(c):
    f = UFun("f", (), ("x", "y", "c", "d"))
    a, b, e, g = c.s("a"), c.s("b"), c.s("e"), c.s("g")
    v = item(c.call(f, a, b, c=e, d=g))
    for i, s in enumerate((a, b)):
        c.part(f"kw{i}", lambda: c.eq(f"value_and_derivative(f,{i})(a,b,c=,d=)", c.call(c.call("calc.value_and_derivative", f, i), a, b, c=e, d=g), (v, D(v, s))))
        c.part(f"dkw{i}", lambda: c.eq(f"derivative(f,{i})(a,b,c=,d=)", c.call(c.call("calc.derivative", f, i), a, b, c=e, d=g), D(v, s)))
        c.part(f"ddkw{i}", lambda: c.eq(f"derivative([{i},0])(f)(a,b,c=,d=)", c.call(c.call(c.call("calc.derivative", [i, 0]), f), a, b, c=e, d=g), D(v, s, a)))


@ob("C01", "keyword-and-default-variables", "calc.derivative", "calc.value_and_derivative")
def _(c):
    """how the variable reaches the function (by position, by keyword, by its default) does not change the derivative"""
    d, vd = c.get("calc.derivative"), c.get("calc.value_and_derivative")
    a, b, z = c.s("a"), c.s("b"), c.s("z")
    f = UFun("f", (), ("y", "b1", "a0"))
    v = item(c.call(f, a, b, z))
    names, syms = f.params, (a, b, z)
    for n in range(3):
        kw = dict(zip(names[n:], syms[n:]))
        for i in range(3):
            for how in ((i,), (names[i],)):
                c.part(f"{n}-{how}", lambda: c.eq(f"derivative({how[0]!r})(f) with {sorted(kw)} by keyword", c.call(c.call(c.call(d, how[0]), f), *syms[:n], **kw), D(v, syms[i])))
                c.part(f"v{n}-{how}", lambda: c.eq(f"value_and_derivative(f,{how[0]!r}) with {sorted(kw)} by keyword", c.call(c.call(vd, f, how[0]), *syms[:n], **kw), (v, D(v, syms[i]))))
            c.part(f"f{n}-{i}", lambda: c.eq(f"derivative(f,{i}) with {sorted(kw)} by keyword", c.call(c.call(d, f, i), *syms[:n], **kw), D(v, syms[i])))
        for w in itertools.product(range(3), repeat=2):
            c.part(f"m{n}-{w}", lambda: c.eq(f"derivative({[names[i] for i in w]})(f) with {sorted(kw)} by keyword",
                                             c.call(c.call(c.call(d, [names[i] for i in w]), f), *syms[:n], **kw), D(v, *[syms[i] for i in w])))
    c.part("shuffled", lambda: c.eq("derivative('b1')(f)(a0=,y=,b1=)", c.call(c.call(c.call(d, "b1"), f), a0=z, y=a, b1=b), D(v, b)))
    c.part("nested", lambda: c.eq("derivative(derivative(f,0),2)(a,b1=,a0=)", c.call(c.call(d, c.call(d, f, 0), 2), a, b1=b, a0=z), D(v, a, z)))
    g = UFun("g", (), ("x", "k"), defvals={"k": z})
    w = item(c.call(g, a, z))
    c.part("default", lambda: c.eq("derivative('k')(g)(a)", c.call(c.call(c.call(d, "k"), g), a), D(w, z)))
    c.part("default-other", lambda: c.eq("derivative('x')(g)(a)", c.call(c.call(c.call(d, "x"), g), a), D(w, a)))
    c.part("default-vd", lambda: c.eq("value_and_derivative(g,1)(a)", c.call(c.call(vd, g, 1), a), (w, D(w, z))))
    c.part("default-twice", lambda: c.eq("derivative(['k','k'])(g)(a)", c.call(c.call(c.call(d, ["k", "k"]), g), a), D(w, z, z)))
    c.part("default-mixed", lambda: c.eq("derivative(['k','x'])(g)(a)", c.call(c.call(c.call(d, ["k", "x"]), g), a), D(w, z, a)))
    h = UFun("h", (), ("x", "k"), kwonly=("k",))
    u = item(c.call(h, a, k=b))
    c.part("kwonly", lambda: c.eq("derivative('k')(h)(a,k=b)", c.call(c.call(c.call(d, "k"), h), a, k=b), D(u, b)))
    c.part("kwonly-mixed", lambda: c.eq("derivative(['x','k'])(h)(a,k=b)", c.call(c.call(c.call(d, ["x", "k"]), h), a, k=b), D(u, a, b)))
    q = UFun("q", (2,), ("t", "p"))
    p = c.vec("p", 2)
    qv = fl(c.call(q, a, p))
    c.part("vector", lambda: c.eq("derivative('t')(q)(p=,t=)", c.call(c.call(c.call(d, "t"), q), p=p, t=a), A([D(t, a) for t in qv])))


@ob("C01", "array-and-pytree-arguments", "calc.value_and_derivative")
def _(c):
    f = UFun("f", (), ("t", "p"))
    t, p = c.s("t"), {"w": c.vec("w", 2), "b": c.s("b")}
    v = item(c.call(f, t, p))
    c.part("pytree", lambda: c.eq("derivative(f,0)(t, params)", c.call(c.call("calc.derivative", f, 0), t, p), D(v, t)))
    g = UFun("g", (3,), ("t",))
    w = fl(c.call(g, t))
    c.part("vector-valued", lambda: c.eq("derivative(g)(t)", c.call(c.call("calc.derivative", g), t), A([D(x, t) for x in w])))
    h = UFun("h", {"u": (2,), "v": ()}, ("t",))
    hv = c.call(h, t)
    c.part("pytree-valued", lambda: c.eq("derivative(h)(t)", c.call(c.call("calc.derivative", h), t), lj.tree_map(c.I, B(lambda I, x: nparr(x.shape, lambda *i: D(x.a[i], t))), hv)))


def B(f):
    return Builtin("spec", f)


@ob("C01", "flax-modules", "calc.apply_to_module", "calc.derivative")
def _(c):
    k = c.key()
    model, params = c.call("model.mlp", k, [2, 2, 1])
    x = c.vec("x", 2)
    y = item(c.call(c.attr(model, "apply"), params, x))
    for j in range(2):
        c.part(f"m{j}", lambda: c.eq(f"derivative([{j}],argnums=[0])(module)", c.call(c.call(c.call("calc.derivative", [j], [0]), model), x, params), D(y, x.a[j])))
    c.part("m01", lambda: c.eq("derivative([0,1],argnums=[0,0])(module)", c.call(c.call(c.call("calc.derivative", [0, 1], [0, 0]), model), x, params), D(y, x.a[0], x.a[1])))
    lap = c.call(c.call("calc.laplace", model), x, params)
    c.eq("laplace(module)(x, params)", lap, tm.add(*[D(y, s, s) for s in fl(x)]))
    m1, p1 = c.call("model.mlp", k, [1, 2, 1])
    t = c.vec("t", 1)
    y1 = item(c.call(c.attr(m1, "apply"), p1, t))
    c.part("vd", lambda: c.eq("value_and_derivative(module, 0, argnum=0)(x, params)", c.call(c.call("calc.value_and_derivative", m1, 0, argnum=0), t, p1), (y1, D(y1, t.a[0]))))
    c.part("d", lambda: c.eq("derivative(module)(x, params)", c.call(c.call("calc.derivative", m1), t, p1), D(y1, t.a[0])))


# ---------------------------------------------------------------------- C02
def hv(v, xs, us):
    return [tm.add(*[tm.mul(D(v, x, y), u) for y, u in zip(xs, us)]) for x in xs]


def trees(c):
    yield "vector", c.vec("x", 3), c.vec("u", 3)
    yield "scalar", c.s("x"), c.s("u")
    yield "dict", {"a": c.vec("x", 2), "b": [c.s("y"), c.arr("z", (1, 2))]}, {"a": c.vec("u", 2), "b": [c.s("v"), c.arr("w", (1, 2))]}


def unfl(c, tree, ls):
    xs, spec = lj.flatten(c.I, tree)
    out, k = [], 0
    for x in xs:
        x = as_arr(x)
        out.append(nparr(x.shape, lambda *i: None))
        flat = np.array(ls[k : k + x.size] + [None], dtype=object)[:-1].reshape(x.shape)
        out[-1] = Arr(la.box(flat.copy()) if x.shape else la.box(ls[k]), "f")
        k += x.size
    return lj.unflatten(c.I, spec, out)


def leafs(c, tree):
    return [t for x in lj.flatten(c.I, tree)[0] for t in fl(x)]


@ob("C02", "hvp-scalar", "calc.hvp", "calc.hvp_forward_over_reverse", "calc.hvp_reverse_over_reverse")
def _(c):
    f = UFun("f", (), ("x",))
    for nm, x, u in trees(c):
        v = item(c.call(f, x))
        want = unfl(c, x, hv(v, leafs(c, x), leafs(c, u)))
        for r in ("hvp", "hvp_forward_over_reverse", "hvp_reverse_over_reverse"):
            c.part(f"{r}/{nm}", lambda: c.eq(f"{r}(f,[{nm}],[u])", c.call("calc." + r, f, [x], [u]), want))


@ob("C02", "hvp-vector-valued", "calc.hvp")
def _(c):
    f = UFun("f", (2,), ("x",))
    x, u = c.vec("x", 3), c.vec("u", 3)
    v = fl(c.call(f, x))
    c.eq("hvp(F,[x],[u])", c.call("calc.hvp", f, [x], [u]), A([hv(t, fl(x), fl(u)) for t in v]))


def gradfun(c, f, aux):
    """user supplied value_and_grad built from the uninterpreted function"""

    def vg(I, p, *args, **kw):
        out = c.I.call(f, [p] + list(args), dict(kw))
        v = out[0] if aux else out
        # differentiate abstractly through the interpreter's AD so that nested differentiation works
        g = lj.value_and_grad(c.I, f, has_aux=aux)
        return c.I.call(g, [p] + list(args), dict(kw))

    return Builtin("user_value_and_grad", vg)


@ob("C02", "hvp-flags", "calc.hvp_forward_over_reverse", "calc.hvp_reverse_over_reverse")
def _(c):
    for aux in (False, True):
        f = UFun("f", lj.PairOut((), (2,)) if aux else (), ("x", "p", "q"))
        x, u, p, q, al = c.vec("x", 2), c.vec("u", 2), c.s("p"), c.s("q"), c.s("alpha")
        r = c.call(f, x, p, q=q)
        v = item(r[0] if aux else r)
        base = hv(v, fl(x), fl(u))
        for vg in (False, True):
            g = gradfun(c, f, aux) if vg else f
            lab = f"aux={aux},value_and_grad={vg}"
            c.part("for" + lab, lambda: c.eq("forward_over_reverse " + lab, c.call("calc.hvp_forward_over_reverse", g, [x], [u], p, value_and_grad=vg, has_aux=aux, q=q), A(base)))
            c.part("ror" + lab, lambda: c.eq("reverse_over_reverse " + lab, c.call("calc.hvp_reverse_over_reverse", g, [x], [u], p, value_and_grad=vg, has_aux=aux, q=q), A(base)))
            want = [tm.add(h, tm.mul(al.item(), s)) for h, s in zip(base, fl(u))]
            c.part("dmp" + lab, lambda: c.eq("damped " + lab, c.call("calc.hvp_forward_over_reverse", g, [x], [u], p, alpha=al, value_and_grad=vg, has_aux=aux, q=q), A(want)))


@ob("C02", "value-grad-hvp", "calc.value_grad_hvp")
def _(c):
    for aux in (False, True):
        f = UFun("f", lj.PairOut((), (2,)) if aux else (), ("x", "p", "q"))
        p, q = c.s("pp"), c.s("qq")
        for nm, x, u in trees(c):
            r = c.call(f, x, p, q=q)
            v = item(r[0] if aux else r)
            xs = leafs(c, x)
            g = unfl(c, x, [D(v, s) for s in xs])
            Hu = unfl(c, x, hv(v, xs, leafs(c, u)))
            for vg in (False, True):
                fun = gradfun(c, f, aux) if vg else f
                lab = f"{nm} aux={aux} value_and_grad={vg}"

                def go():
                    out = c.call("calc.value_grad_hvp", fun, x, p, value_and_grad=vg, has_aux=aux, q=q)
                    c.fact("arity " + lab, isinstance(out, tuple) and len(out) == (4 if aux else 3))
                    c.eq("value " + lab, out[0], v)
                    c.eq("gradient " + lab, out[1], g)
                    c.eq("hvp " + lab, c.call(out[2], u), Hu)
                    if aux:
                        c.eq("aux " + lab, out[3], r[1])

                c.part(lab, go)


@ob("C02", "value-and-jacobian", "calc.value_and_jacfwd", "calc.value_and_jacrev")
def _(c):
    for which in ("value_and_jacfwd", "value_and_jacrev"):
        for aux in (False, True):
            for shape in ((), (2,)):
                f = UFun("f", lj.PairOut(shape, (1,)) if aux else shape, ("x", "y", "k"))
                x, y, k = c.vec("x", 3), c.vec("y", 2), c.s("k")
                r = c.call(f, x, y, k=k)
                v = as_arr(r[0] if aux else r)
                J = lambda z: nparr(shape + z.shape, lambda *i: D(v.a[i[: len(shape)]], z.a[i[len(shape) :]]))
                for an, want in ((0, J(x)), (1, J(y)), ((0, 1), (J(x), J(y))), ((0,), (J(x),)), ((1,), (J(y),)), ((1, 0), (J(y), J(x))), ([0, 1], (J(x), J(y)))):
                    lab = f"{which} out={shape} aux={aux} argnums={an}"

                    def go():
                        out = c.call(c.call("calc." + which, f, an, aux), x, y, k=k)
                        c.eq("value " + lab, out[0], (v, r[1]) if aux else v)
                        c.eq("jacobian " + lab, out[1], want)

                    c.part(lab, go)


@ob("C02", "jacobian-arguments", "calc.value_and_jacfwd", "calc.value_and_jacrev")
def _(c):
    """everything passed by keyword or left out, structured inputs and outputs"""
    for which in ("value_and_jacfwd", "value_and_jacrev"):
        f = UFun("f", (2,), ("x", "k"))
        x, k = c.vec("x", 2), c.vec("k", 2)
        v = as_arr(c.call(f, x, k))
        Jx, Jk = (nparr((2, 2), lambda i, j: D(v.a[i], z.a[j])) for z in (x, k))
        for lab, kw in (("argnums=0", {"argnums": 0}), ("no arguments", {}), ("has_aux=False", {"has_aux": False}), ("holomorphic=False", {"holomorphic": False})):
            c.part(f"{which} {lab}", lambda: c.eq(f"{which}(f,{lab})", c.call(c.call("calc." + which, f, **kw), x, k=k), (v, Jx)))
        c.part(f"{which} argnums=1", lambda: c.eq(f"{which}(f,argnums=1)", c.call(c.call("calc." + which, f, argnums=1), x, k), (v, Jk)))
        m, s = c.arr("m", (2, 2)), c.s("s")
        g = UFun("g", (2, 1), ("m", "s"))
        w = as_arr(c.call(g, m, s))
        J = lambda z: nparr(w.shape + z.shape, lambda *i: D(w.a[i[:2]], z.a[i[2:]] if z.shape else z.item()))
        c.part(f"{which} matrix", lambda: c.eq(f"{which} of a matrix function of a matrix", c.call(c.call("calc." + which, g), m, s), (w, J(m))))
        c.part(f"{which} both", lambda: c.eq(f"{which} of a matrix and a scalar", c.call(c.call("calc." + which, g, (0, 1)), m, s), (w, (J(m), J(as_arr(s))))))
        h = UFun("h", (), ("p", "s"))
        p = {"a": c.vec("a", 2), "b": [c.s("b")]}
        hv_ = item(c.call(h, p, s))
        want = {"a": A([D(hv_, t) for t in fl(p["a"])]), "b": [D(hv_, p["b"][0])]}
        c.part(f"{which} parameters", lambda: c.eq(f"{which} with respect to a dictionary", c.call(c.call("calc." + which, h), p, s), (hv_, want)))


@ob("C02", "hvp-structured-outputs", "calc.hvp")
def _(c):
    f = UFun("f", {"u": (), "v": (2,)}, ("x",))
    for n in (1, 2):
        x, u = c.vec("x", n), c.vec("u", n)
        y = c.call(f, x)
        c.part(f"dict{n}", lambda: c.eq(f"hvp of a function with a dictionary value, {n} variables", c.call("calc.hvp", f, [x], [u]),
                                        {"u": A(hv(item(y["u"]), fl(x), fl(u))), "v": A([hv(t, fl(x), fl(u)) for t in fl(y["v"])])}))
    x, u = c.s("x"), c.s("u")
    g = UFun("g", (2,), ("x",))
    c.part("scalar", lambda: c.eq("hvp of a vector function of a number", c.call("calc.hvp", g, [x], [u]), A([hv(t, [item(x)], [item(u)])[0] for t in fl(c.call(g, x))])))
    h = UFun("h", (2, 2), ("x",))
    x, u = c.vec("x", 2), c.vec("u", 2)
    hm = as_arr(c.call(h, x))
    c.part("matrix", lambda: c.eq("hvp of a matrix function", c.call("calc.hvp", h, [x], [u]), nparr((2, 2, 2), lambda i, j, k: hv(hm.a[i, j], fl(x), fl(u))[k])))


# ---------------------------------------------------------------------- C03
@ob("C03", "laplace", "calc.laplace", "calc.hessian_diag")
def _(c):
    for n in (1, 2, 3, 4):
        for out in ((), (1,), (2,), (2, 2), {"u": (), "v": (3,)}):
            f = UFun("f", out, ("x",))
            x = c.vec("x", n)
            y = c.call(f, x)
            want = lj.tree_map(c.I, B(lambda I, v: nparr(v.shape, lambda *i: tm.add(*[D(v.a[i], s, s) for s in fl(x)]))), y)
            c.part(f"{n}{out}", lambda: c.eq(f"laplace f:R^{n}->{out}", c.call(c.call("calc.laplace", f), x), want))
    x = c.s("x")
    for out in ((), (2,)):
        f = UFun("f", out, ("x",))
        y = as_arr(c.call(f, x))
        c.part(f"s{out}", lambda: c.eq(f"laplace f:R->{out}", c.call(c.call("calc.laplace", f), x), nparr(y.shape, lambda *i: D(y.a[i], x, x))))


@ob("C03", "laplace-arguments", "calc.laplace")
def _(c):
    f = UFun("f", (2,), ("x", "p", "q"))
    x, p, q = c.vec("x", 2), c.vec("p", 2), c.s("q")
    y = fl(c.call(f, x, p, q))
    want = A([tm.add(*[D(t, s, s) for s in fl(x)]) for t in y])
    c.part("pos", lambda: c.eq("laplace(f)(x,p,q)", c.call(c.call("calc.laplace", f), x, p, q), want))
    c.part("kw", lambda: c.eq("laplace(f)(x,p,q=q)", c.call(c.call("calc.laplace", f), x, p, q=q), want))


@ob("C03", "hessian-diagonal", "calc.hessian_diag")
def _(c):
    f = UFun("f", (), ("x",))
    for n in (1, 2, 3):
        x = c.vec("x", n)
        v = item(c.call(f, x))
        c.part(f"{n}", lambda: c.eq(f"hessian_diag R^{n}", c.call("calc.hessian_diag", f, x), A([D(v, s, s) for s in fl(x)])))


@ob("C03", "divergence", "calc.divergence", "calc.value_and_divergence")
def _(c):
    for n in (1, 2, 3, 4):
        f = UFun("f", (n,), ("x", "p", "q"))
        x, p, q = c.vec("x", n), c.vec("p", 2), c.s("q")
        y = c.call(f, x, p, q)
        want = tm.add(*[D(y.a[i], x.a[i]) for i in range(n)])
        c.part(f"div{n}", lambda: c.eq(f"divergence R^{n}", c.call(c.call("calc.divergence", f), x, p, q), want))
        c.part(f"divk{n}", lambda: c.eq(f"divergence R^{n} keyword", c.call(c.call("calc.divergence", f), x, p, q=q), want))
        c.part(f"vdiv{n}", lambda: c.eq(f"value_and_divergence R^{n}", c.call(c.call("calc.value_and_divergence", f), x, p, q=q), (y, want)))
        g = UFun("g", (n,), ("p", "x"))
        z = c.call(g, p, x)
        c.part(f"divarg{n}", lambda: c.eq(f"divergence argnums=1 R^{n}", c.call(c.call("calc.divergence", g, 1), p, x), tm.add(*[D(z.a[i], x.a[i]) for i in range(n)])))
        for b in (1, 2, 3):
            h = UFun("h", (b, n), ("x",))
            w = c.call(h, x)
            c.part(f"bat{n}{b}", lambda: c.eq(f"divergence batched ({b},{n})", c.call(c.call("calc.divergence", h), x), A([tm.add(*[D(w.a[k, i], x.a[i]) for i in range(n)]) for k in range(b)])))
    f = UFun("f", {"E": (2,), "B": (3, 2)}, ("x",))
    x = c.vec("x", 2)
    y = c.call(f, x)
    dv = lambda a: tm.add(*[D(a[i], x.a[i]) for i in range(2)])
    c.part("tree", lambda: c.eq("divergence of a pytree", c.call(c.call("calc.divergence", f), x), {"E": A(dv(y["E"].a)), "B": A([dv(r) for r in y["B"].a])}))


@ob("C03", "curl-3d", "calc.curl", "calc.curl3d")
def _(c):
    x = c.vec("x", 3)
    s = fl(x)

    def curl(v):
        return [tm.sub(D(v[2], s[1]), D(v[1], s[2])), tm.sub(D(v[0], s[2]), D(v[2], s[0])), tm.sub(D(v[1], s[0]), D(v[0], s[1]))]

    f = UFun("f", (3,), ("x", "p"))
    p = c.s("p")
    want = A(curl(fl(c.call(f, x, p))))
    c.part("pos", lambda: c.eq("curl(f)(x,p)", c.call(c.call("calc.curl", f), x, p), want))
    c.part("kw", lambda: c.eq("curl(f)(x,p=p)", c.call(c.call("calc.curl", f), x, p=p), want))
    for sh in ((2, 3), (1, 2, 3)):
        g = UFun("g", sh, ("x",))
        y = c.call(g, x)
        w = nparr(sh, lambda *i: curl(list(y.a[i[:-1]]))[i[-1]])
        c.part(f"b{sh}", lambda: c.eq(f"curl batched {sh}", c.call(c.call("calc.curl", g), x), w))
    h = UFun("h", {"E": (3,), "B": (3,)}, ("x",))
    y = c.call(h, x)
    c.part("tree", lambda: c.eq("curl of a pytree", c.call(c.call("calc.curl", h), x), {k: A(curl(fl(y[k]))) for k in y}))


@ob("C03", "curl-2d", "calc.curl", "calc.curl2d")
def _(c):
    x = c.vec("x", 2)
    s = fl(x)
    curl = lambda v: tm.sub(D(v[1], s[0]), D(v[0], s[1]))
    f = UFun("f", (2,), ("x", "p"))
    p = c.s("p")
    want = A(curl(fl(c.call(f, x, p))))
    c.part("pos", lambda: c.eq("curl(f)(x,p)", c.call(c.call("calc.curl", f), x, p), want))
    c.part("kw", lambda: c.eq("curl(f)(x,p=p)", c.call(c.call("calc.curl", f), x, p=p), want))
    for sh in ((2, 2), (1, 3, 2)):
        g = UFun("g", sh, ("x",))
        y = c.call(g, x)
        w = nparr(sh[:-1], lambda *i: curl(list(y.a[i])))
        c.part(f"b{sh}", lambda: c.eq(f"curl batched {sh}", c.call(c.call("calc.curl", g), x), w))


@ob("C03", "curl-refusals", "calc.curl")
def _(c):
    for n in (1, 4):
        f = UFun("f", (n,), ("x",))
        c.raises(f"curl in R^{n} refused", lambda: c.call(c.call("calc.curl", f), c.vec("x", n)))
    c.raises("3-d curl of a 2-d field refused", lambda: c.call(c.call("calc.curl", UFun("f", (2,), ("x",))), c.vec("x", 3)))
    c.raises("2-d curl of a 3-d field refused", lambda: c.call(c.call("calc.curl", UFun("f", (3,), ("x",))), c.vec("x", 2)))


@ob("C03", "curl-refusals-pytree", "calc.curl")
def _(c):
    """one leaf of a wrong size is enough"""
    for n, dims in ((3, [(3, 2), (2, 3), (3, 3, 1), (3, 4)]), (2, [(2, 3), (3, 2), (2, 2, 1)])):
        for ds in dims:
            f = UFun("f", {f"k{i}": (m,) for i, m in enumerate(ds)}, ("x",))
            c.raises(f"{n}-d curl of fields with {ds} components refused", lambda: c.call(c.call("calc.curl", f), c.vec("x", n)))


def module_with_arguments(c, out):
    """a network whose application takes further arguments; returns it with the function it realises"""
    model, _p = c.call("model.mlp", c.key(), [2, 2, 1])
    f = UFun("f", out, ("x", "p", "a", "q"))
    c.I.setattr(model, "apply", Builtin("apply", lambda I, p, x, a, q: c.call(f, x, p, a, q)))
    return model, f


@ob("C03", "modules", "calc.apply_to_module", "calc.laplace", "calc.divergence", "calc.value_and_divergence", "calc.curl")
def _(c):
    p, a, q = c.s("p"), c.s("a"), c.s("q")
    for op, d, out in (("laplace", 2, ()), ("laplace", 3, (2,)), ("divergence", 2, (2,)), ("value_and_divergence", 3, (3,)), ("curl", 3, (3,)), ("curl", 2, (2,))):
        def go():
            m, f = module_with_arguments(c, out)
            x = c.vec("x", d)
            want = c.call(c.call("calc." + op, f), x, p, a, q)
            c.eq(f"{op} of a module in {d}-d: extra arguments by position", c.call(c.call("calc." + op, m), x, p, a, q), want)
            c.eq(f"{op} of a module in {d}-d: extra arguments by keyword", c.call(c.call("calc." + op, m), x, p, a, q=q), want)
            c.eq(f"{op} of a module in {d}-d: all extra arguments by keyword", c.call(c.call("calc." + op, m), x, p, q=q, a=a), want)
        c.part(f"{op}{d}", go)


@ob("C01", "modules-with-arguments", "calc.apply_to_module", "calc.derivative", "calc.value_and_derivative")
def _(c):
    p, a, q = c.s("p"), c.s("a"), c.s("q")
    m, f = module_with_arguments(c, ())
    x = c.vec("x", 2)
    y = item(c.call(f, x, p, a, q))
    for lab, pos, kw in (("by position", (a, q), {}), ("by keyword", (a,), dict(q=q)), ("all by keyword", (), dict(q=q, a=a))):
        c.part(lab, lambda: c.eq(f"value and derivative of a module, extra arguments {lab}", c.call(c.call("calc.value_and_derivative", m, 1, argnum=0), x, p, *pos, **kw), (y, D(y, x.a[1]))))
        c.part("d" + lab, lambda: c.eq(f"derivative of a module, extra arguments {lab}", c.call(c.call(c.call("calc.derivative", [0], [0]), m), x, p, *pos, **kw), D(y, x.a[0])))
        c.part("p" + lab, lambda: c.eq(f"derivative of a module by its parameters, extra arguments {lab}", c.call(c.call(c.call("calc.derivative", 1), m), x, p, *pos, **kw), D(y, item(p))))


@ob("C03", "extra-arguments", "calc.laplace", "calc.divergence", "calc.value_and_divergence", "calc.curl")
def _(c):
    """whatever follows the point reaches the function as given: None, flags, containers, by position or by keyword"""
    q = c.s("q")
    vals = (("None", None), ("False", False), ("zero", 0), ("a list", [q, q]), ("a dictionary", {"k": q}), ("an empty tuple", ()))
    trace = lambda y, s: tm.add(*[D(y[i], s[i]) for i in range(len(s))])
    for n in (2, 3):
        x = c.vec("x", n)
        s = fl(x)
        f = UFun("f", (n,), ("x", "p", "r"), defvals={"p": c.s("p0"), "r": c.s("r0")})
        curl = lambda v: A([tm.sub(D(v[2], s[1]), D(v[1], s[2])), tm.sub(D(v[0], s[2]), D(v[2], s[0])), tm.sub(D(v[1], s[0]), D(v[0], s[1]))]) if n == 3 else tm.sub(D(v[1], s[0]), D(v[0], s[1]))
        ops = (("laplace", lambda v: A([tm.add(*[D(t, z, z) for z in s]) for t in v])), ("divergence", lambda v: trace(v, s)), ("curl", curl),
               ("value_and_divergence", lambda v: (A(v), trace(v, s))))
        for lab, val in vals:
            for how, a, k in (("by position", (val,), {}), ("by keyword", (), {"p": val}), ("second keyword", (), {"r": val}), ("both", (val,), {"r": val})):
                v = fl(c.call(f, x, *a, **k))
                for nm, want in ops:
                    c.part(f"{nm}{n}{lab}{how}", lambda: c.eq(f"{nm} in R^{n} with {lab} {how}", c.call(c.call("calc." + nm, f), x, *a, **k), want(v)))
