"""C31: the library functions are traceable.

The obligations of the other properties are evaluated a second time with every input unknown to Python: the interpreter
records each place where the value of an array is asked for (truth value, int/float/bool, item/tolist, a numpy routine,
boolean mask, nonzero/unique), together with the call path, and code that distinguishes traced from concrete arrays takes
the traced branch."""
from .common import *
from magstat import oblig

# documented to answer with Python values that depend on the data
EXEMPT = {"normal_vec": "answers None when a sample is not on the boundary", "__eq__": "equality answers with a Python truth value"}
# configuration, not data: it may be inspected by Python
CONFIG = {"C20": {"D", "e"}, "C21": {"Rmax", "Rmin", "mu", "rd", "lo", "a", "b", "w", "room", "R0"}}
# geometry is configuration of a domain; keys and effects have no values; the rest is evaluated as it is
SKIP = {"C09", "C10", "C11", "C25", "C26", "C27", "C34", "C31"}
HEAVY = {
    ("C15", "cuboid"), ("C20", "first-iteration"), ("C14", "set-operations"), ("C19", "long-knot-vectors"), ("C16", "reflect-project"), ("C20", "zero-curvature"),
}


def conversions(c, config=frozenset()):
    out = {}
    for e in c.I.events:
        if e.kind != "traced-conversion" or not e.data[1]:
            continue
        path = e.data[1]
        if any(q.split(".")[-1] in EXEMPT for q in path):
            continue
        if not dependent(e.data[0], config):
            continue
        out.setdefault(e.loc, (e.data[0], path))
    return out


def dependent(t, config):
    if isinstance(t, Arr):
        return any(dependent(x, config) for x in t.flat())
    return isinstance(t, T) and any(str(x.data) not in config for x in tm.syms(t))


def report(c, what, config=frozenset()):
    found = conversions(c, config)
    for loc, (t, path) in sorted(found.items(), key=lambda kv: str(kv[0])):
        c.res.append(oblig.Result("violated", f"{what}: the value of an argument is not needed by Python", f"converted to a Python value in {' > '.join(path)}", got=tm.show(t, 5)[:300] if isinstance(t, T) else str(t)[:300], want="no conversion", loc=loc))
    return found


def again(c, o):
    """evaluate the obligation with traced inputs"""
    d = oblig.Ctx(c.repo, o)
    d.I.tracing = True
    err = None
    try:
        o.fn(d)
    except (InterpRaise, Unsupported, oblig.Vanished, oblig.Skip) as e:
        err = e
    c.I.visited = d.I.visited
    c.I.visited_lines = d.I.visited_lines
    c.whole = d.whole
    found = conversions(d, CONFIG.get(o.pid, frozenset()))
    if found:
        c.I.events = d.I.events
        report(c, o.name, CONFIG.get(o.pid, frozenset()))
        return
    if isinstance(err, oblig.Vanished):
        raise err
    if isinstance(err, Unsupported):
        c.undecided(o.name, f"outside the abstract semantics: {err}")
        return
    bad = [r for r in d.res if r.status == "violated"]
    n = sum(r.status == "holds" for r in d.res)
    for r in d.res:
        if r.status == "undecided":
            c.undecided(r.label, r.why)
    if bad or isinstance(err, InterpRaise):
        # does the eager evaluation fail in the same way? then it is a matter of that property
        e = oblig.Ctx(c.repo, o)
        try:
            o.fn(e)
        except (InterpRaise, Unsupported, oblig.Vanished, oblig.Skip) as x:
            if isinstance(err, InterpRaise):
                err = None
        same = {r.label for r in e.res if r.status != "holds"}
        for r in bad:
            if r.label not in same:
                c.res.append(oblig.Result("violated", f"{r.label}: as without tracing", r.why, r.witness, r.got, r.want, r.loc))
        if isinstance(err, InterpRaise):
            c.add("violated", f"{o.name}: as without tracing", f"the program raises {err.exc} when its arguments are traced", loc=err.loc)
    if n:
        c.add("holds", f"{o.name}: no conversion, same results", f"{n} results", cases=n)


for _o in list(oblig.REG):
    if _o.tier == "quick" and _o.pid not in SKIP and (_o.pid, _o.name) not in HEAVY:
        oblig.REG.append(oblig.Ob("C31", f"{_o.pid} {_o.name}", (lambda c, o=_o: again(c, o)), _o.anchors, "quick", _o.timeout))
    elif (_o.pid, _o.name) in HEAVY:
        oblig.REG.append(oblig.Ob("C31", f"{_o.pid} {_o.name}", (lambda c, o=_o: again(c, o)), _o.anchors, "thorough", _o.timeout))


# ------------------------------------------------- domains of known geometry
def n_(*t):
    return tuple(F(x) for x in t)


DOMAINS = [
    ("interval", "Hypercube", (n_(0), n_(2)), 1),
    ("box", "Hypercube", (n_(0, -1), n_(2, 3)), 2),
    ("cuboid", "Hypercube", (n_(0, -1, 1), n_(2, 3, 2)), 3),
    ("parallelogram", "Parallelogram", (n_(0, 0), n_(2, 1), n_(1, 3)), 2),
    ("disk", "Disk", (F(2), n_(1, -1)), 2),
    ("annulus", "Annulus", (F(1), F(2), n_(1, -1)), 2),
    ("ball", "Sphere", (F(2), n_(1, -1, 0)), 3),
]


def both(c, label, run):
    """run() with concrete and with traced arguments: same result, no conversion"""
    c.I.tracing = False
    want = run()
    c.I.tracing, k = True, len(c.I.events)
    try:
        got = run()
    except InterpRaise as e:
        c.add("violated", label, f"the program raises {e.exc} when its arguments are traced", loc=e.loc)
        return
    except Unsupported:
        if conversions(c):
            return
        raise
    finally:
        c.I.tracing = False
    if not conversions(c):
        c.eq(f"{label}: traced like eager", got, want)


def domain_ob(nm, cls, args, d):
    @ob("C31", f"domain {nm}", f"domain.{cls}")
    def _(c):
        dom = c.call(f"domain.{cls}", *args)
        node = c.get(f"domain.{cls}")
        for meth, n, shapes in (("transform", d, ((), (2,), (2, 1))), ("transform_bnd", {"Disk": 1, "Parallelogram": 1, "Hypercube": d}.get(cls, 2), ((), (2,), (2, 1))), ("includes", d, ((), (2,)))):
            if node.lookup(meth) is None:
                continue
            f = c.attr(dom, meth)
            for sh in shapes:
                if cls == "Hypercube" and d == 1 and meth == "transform_bnd":
                    x = c.arr("x", sh + (1,))
                elif cls == "Hypercube" and meth == "transform_bnd":
                    x = c.arr("x", sh + (d - 1,))
                elif cls == "Parallelogram" and meth == "transform_bnd":
                    if len(sh) > 1:
                        continue
                    x = c.arr("x", sh)
                else:
                    x = c.arr("x", sh + (n,))
                c.part(f"{nm}.{meth}, batch {sh}", lambda: both(c, f"{nm}.{meth}, batch {sh}", lambda: c.call(f, x)))
        c.part(f"{nm}.support", lambda: both(c, f"{nm}.support", lambda: c.call(c.attr(dom, "support"))))
        report(c, nm)


for _d in DOMAINS:
    domain_ob(*_d)


@ob("C31", "transforms", "domain.transform_triangle", "domain.transform_polyline", "domain.transform_hypercube", "domain.transform_circle", "domain.transform_annulus", "domain.transform_sphere", "domain.linear_map", "domain.affine_plane")
def _(c):
    p = lambda *t: A([const(x) for x in t])
    q = lambda x: A(const(F(x)))
    x1, x2, x3 = (c.arr("x", (k,)) for k in (1, 2, 3))
    pts = (p(0, 0), p(3, 0), p(3, 4), p(0, 4))
    calls = [
        ("triangle", "transform_triangle", (x2, p(0, 0), p(2, 1), p(1, 3))),
        ("polyline", "transform_polyline", (x1, pts)),
        ("box", "transform_hypercube", (x2, p(0, -1), p(2, 3))),
        ("boundary of a box", "transform_hypercube_bnd", (x1, p(0, -1), p(2, 3))),
        ("boundary of a cuboid", "transform_hypercube_bnd", (x2, p(0, -1, 1), p(2, 3, 2))),
        ("disk", "transform_circle", (x2, q(2), p(1, -1))),
        ("circle", "transform_circle_bnd", (x1, q(2), p(1, -1))),
        ("annulus", "transform_annulus", (x2, q(1), q(2), p(1, -1))),
        ("ball", "transform_sphere", (x3, q(2), p(1, -1, 0))),
        ("sphere", "transform_sphere_bnd", (x2, q(2), p(1, -1, 0))),
    ]
    for lab, f, a in calls:
        c.part(lab, lambda: both(c, lab, lambda: c.call("domain." + f, *a)))
        b = (Arr(np.stack([a[0].a, a[0].a])[:, 0] if lab == "polyline" else np.stack([a[0].a, a[0].a]), "f"),) + a[1:]
        c.part(f"{lab}, batch", lambda: both(c, f"{lab}, batch", lambda: c.call("domain." + f, *b)))
    report(c, "transforms")
