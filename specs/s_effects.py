"""C26 purity, C27 exported names: effect and name analysis of the syntax trees."""
import ast
import builtins
import os
import symtable

from .common import *
from magstat import effects as ef

_cache = {}


def package(repo):
    if repo not in _cache:
        _cache[repo] = ef.Package(repo)
    return _cache[repo]


MODULES = ["calc", "domain", "integrate", "model", "ode", "opt", "prelude", "quaternions", "r_fun", "sampling", "spline", "surface_integral", "tr", "utils"]


def _all_names(pkg):
    return [m for m in pkg.mods if m.startswith("magpi")]


def _groups(c):
    """the listed modules; the last group is everything else found in the package"""
    return package(c.repo)


def _pure(c, which):
    pkg = package(c.repo)
    mods = [m for n, m in pkg.mods.items() if (n == f"magpi.{which}" if which != "*" else n.split(".", 1)[-1] not in MODULES)]
    if which != "*" and not mods:
        c.undecided(which, "module not found")
        return
    for mod in mods:
        base = os.path.basename(mod.path)
        nf_ = 0
        for q, fn, cls, encl in ef.functions(mod):
            nf_ += 1
            c.I.visited[(mod.name, q)] = 1
            an = ef.Analysis(pkg, mod, q, fn, cls, encl)
            bad = []
            for e in an.effects:
                kind, name = e.root
                if kind == "param":
                    what = "the object itself after construction" if name == an.selfname else f"the caller's argument {name}"
                    bad.append((e, f"modifies {what}: {e.what}"))
                elif kind == "global":
                    bad.append((e, f"modifies module-level state {name}: {e.what}"))
                elif kind == "free":
                    par = _param_of(encl, name)
                    if par:
                        bad.append((e, f"modifies the caller's argument {name} of {par}: {e.what}"))
                    elif ef.escapes(fn, encl):
                        bad.append((e, f"keeps hidden state between calls in {name} of the enclosing function: {e.what}"))
            local = an.local | (set().union(*an.enclosed) if an.enclosed else set())
            own = [u for u in ef.impure_uses(pkg, mod, _without_nested(fn), frozenset(local))]
            for d in fn.decorator_list:
                t = pkg.dotted(mod, d.func if isinstance(d, ast.Call) else d)
                if t in ef.CACHES:
                    bad.append((ef.Effect(("global", "cache"), t, d), f"keeps results of earlier calls: {t}"))
            for line, what in own:
                bad.append((ef.Effect(("global", what), what, ast.Pass(lineno=line)), f"reads or writes the outside world: {what}"))
            if bad:
                for e, why in bad[:3]:
                    c.add("violated", f"{mod.name}.{q}: no side effect", why, loc=f"{base}:{e.line}")
            else:
                c.fact(f"{mod.name}.{q}: no side effect", True)
        # import time
        bad = []
        names = {n.id for s in ef.toplevel(mod.tree.body) for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {s.name for s in mod.tree.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
        for s in ef.toplevel(mod.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                if isinstance(s, ast.FunctionDef):
                    for d in s.args.defaults + [k for k in s.args.kw_defaults if k is not None]:
                        bad += [(l, f"default value: {w}") for l, w in ef.impure_uses(pkg, mod, d)]
                continue
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []):
                for a in ast.walk(t):
                    if isinstance(a, (ast.Attribute, ast.Subscript)) and isinstance(a.ctx, ast.Store):
                        b = a.value
                        while isinstance(b, (ast.Attribute, ast.Subscript)):
                            b = b.value
                        if isinstance(b, ast.Name) and b.id not in names:
                            bad.append((s.lineno, f"assigns into the imported object {b.id}"))
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                d = pkg.dotted(mod, s.value.func)
                if d and (d.startswith("jax.config") or d.endswith("config.update")):
                    bad.append((s.lineno, f"changes global configuration: {d}"))
            if not isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                bad += ef.impure_uses(pkg, mod, s)
        for line, w in bad[:3]:
            c.add("violated", f"{mod.name}: importing has no side effect", w, loc=f"{base}:{line}")
        if not bad:
            c.fact(f"{mod.name}: importing has no side effect", True)


def _param_of(encl, name):
    for f in reversed(encl):
        if name in ef.assigned(f):
            ps = {a.arg for a in ef.args_of(f)}
            rebound = any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(f))
            return f.name if name in ps and not rebound else None
    return None


def _without_nested(fn):
    """the function without the bodies of its nested functions (they are analysed on their own)"""
    class Cut(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return ast.copy_location(ast.Pass(), n)

        visit_AsyncFunctionDef = visit_FunctionDef

    import copy
    g = copy.deepcopy(fn)
    cut = Cut()
    g.body = [cut.visit(s) if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) else ast.copy_location(ast.Pass(), s) for s in g.body]
    return g


for _m in MODULES + ["*"]:
    ob("C26", f"effects of {_m if _m != '*' else 'all other modules'}", args=(_m,))(_pure)


# ------------------------------------------------------------------------------------------------ C27
def _t(*ts):
    return set(ts)


JN = "array asarray zeros zeros_like ones ones_like eye diag deg2rad rad2deg exp log sin arcsin cos arccos tan sqrt pi prod hstack vstack stack concatenate dot matmul vdot where minimum maximum mean meshgrid linspace cross tanh".split()
PROMISED = {n: _t("jax.numpy." + n) for n in JN}
PROMISED.update({
    "arcsin": _t("jax.numpy.arcsin", "jax.numpy.asin"), "arccos": _t("jax.numpy.arccos", "jax.numpy.acos"), "pi": _t("jax.numpy.pi", "numpy.pi", "math.pi"),
    "deg2rad": _t("jax.numpy.deg2rad", "jax.numpy.radians"), "rad2deg": _t("jax.numpy.rad2deg", "jax.numpy.degrees"), "concatenate": _t("jax.numpy.concatenate", "jax.numpy.concat"),
    "norm": _t("jax.numpy.linalg.norm"), "solve": _t("jax.numpy.linalg.solve"),
    "partial": _t("functools.partial"), "reduce": _t("functools.reduce"), "wraps": _t("functools.wraps"),
    "jax": _t("jax"), "Array": _t("jax.Array"), "jnp": _t("jax.numpy"), "lax": _t("jax.lax"), "random": _t("jax.random"), "flatten_util": _t("jax.flatten_util"), "tree": _t("jax.tree"),
    "grad": _t("jax.grad"), "jit": _t("jax.jit"), "jacfwd": _t("jax.jacfwd"), "jacrev": _t("jax.jacrev"), "vmap": _t("jax.vmap"), "jvp": _t("jax.jvp"), "value_and_grad": _t("jax.value_and_grad"),
    "selu": _t("jax.nn.selu", "flax.linen.selu"), "elu": _t("jax.nn.elu", "flax.linen.elu"), "tanh": _t("jax.nn.tanh", "jax.numpy.tanh", "flax.linen.tanh"), "sigmoid": _t("jax.nn.sigmoid", "flax.linen.sigmoid"),
    "swish": _t("jax.nn.swish", "jax.nn.silu", "flax.linen.swish", "flax.linen.silu"),
    "tree_map": _t("jax.tree_util.tree_map", "jax.tree.map"), "tree_reduce": _t("jax.tree_util.tree_reduce", "jax.tree.reduce"), "tree_leaves": _t("jax.tree_util.tree_leaves", "jax.tree.leaves"),
    "flax": _t("flax"), "nn": _t("flax.linen"), "optax": _t("optax"), "jaxopt": _t("jaxopt"),
})
for _n in "add sum sub div mul dot vdot scalar_mul add_scalar_mul l2_norm negative ones_like zeros_like".split():
    PROMISED["tree_" + _n] = _t("jaxopt.tree_util.tree_" + _n, "jaxopt._src.tree_util.tree_" + _n)
PROMISED["tree_dot"] |= {"jaxopt.tree_util.tree_dot"}


def exported(mod):
    """value of __all__ : list of names, or None when it is not a literal"""
    out, found = [], False

    def lit(e):
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            r = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    s = lit(x.value)
                    if s is None:
                        return None
                    r += s
                elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                    r.append(x.value)
                else:
                    return None
            return r
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = lit(e.left), lit(e.right)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("tuple", "list", "sorted") and len(e.args) == 1:
            return lit(e.args[0])
        if isinstance(e, ast.Name) and e.id in names:
            return lit(names[e.id])
        return None

    names = {t.id: s.value for s in mod.tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
    for s in ef.toplevel(mod.tree.body):
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets) or isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == "__all__" and s.value is not None:
            found = True
            r = lit(s.value)
            if r is None:
                return True, None
            out = r
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == "__all__":
            r = lit(s.value)
            if r is None:
                return True, None
            out = out + r
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "__all__":
            return True, None
    return found, out if found else None


def bindings(pkg, mod):
    """module-level bindings in order: (name, target, line)"""
    out = []
    for s in ef.toplevel(mod.tree.body):
        if isinstance(s, ast.Import):
            for a in s.names:
                out.append((a.asname or a.name.split(".")[0], a.name if a.asname else a.name.split(".")[0], s.lineno))
        elif isinstance(s, ast.ImportFrom):
            b = ef.resolve_from(mod.name, s)
            for a in s.names:
                if a.name == "*":
                    m = pkg.mods.get(b)
                    if m is not None:
                        for n in public(pkg, m):
                            out.append((n, resolve(pkg, m, n), s.lineno))
                    else:
                        out.append(("*", b, s.lineno))
                else:
                    out.append((a.asname or a.name, b + "." + a.name, s.lineno))
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.append((s.name, f"{mod.name}.{s.name}", s.lineno))
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        d = pkg.dotted(mod, s.value) if isinstance(s.value, (ast.Name, ast.Attribute)) and t is x else None
                        out.append((x.id, d or f"{mod.name}.{x.id}", s.lineno))
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            out.append((s.target.id, f"{mod.name}.{s.target.id}", s.lineno))
        elif isinstance(s, (ast.For, ast.With)):
            for x in ast.walk(s.target if isinstance(s, ast.For) else ast.Tuple(elts=[i.optional_vars for i in s.items if i.optional_vars], ctx=ast.Store())):
                if isinstance(x, ast.Name):
                    out.append((x.id, f"{mod.name}.{x.id}", s.lineno))
    return out


def public(pkg, mod):
    f, a = exported(mod)
    if f and a is not None:
        return a
    return [n for n, _, _ in bindings(pkg, mod) if not n.startswith("_") and n != "*"]


def resolve(pkg, mod, name):
    r = None
    for n, t, _ in bindings(pkg, mod):
        if n == name:
            r = t
    # follow re-exports inside the package
    k = 0
    while r and r.startswith("magpi") and k < 6:
        k += 1
        m, _, a = r.rpartition(".")
        if r in pkg.mods or m not in pkg.mods or (m == mod.name and a == name):
            break
        nr = resolve(pkg, pkg.mods[m], a) if (m, a) != (mod.name, name) else None
        if nr is None or nr == r:
            break
        r = nr
    return r


SITE = None


def site():
    global SITE
    if SITE is None:
        SITE = ""
        for root in ("/opt/venv/lib", "/usr/lib", "/usr/local/lib"):
            if os.path.isdir(root):
                for d in sorted(os.listdir(root)):
                    p = os.path.join(root, d, "site-packages")
                    if os.path.isdir(os.path.join(p, "jax")):
                        SITE = p
                        return SITE
    return SITE


_lib = {}


def lib_names(dotted):
    """(names bound by an installed library module, open) from its source text; None if not found"""
    if dotted in _lib:
        return _lib[dotted]
    r = None
    if site():
        p = os.path.join(site(), *dotted.split("."))
        f = os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"
        if os.path.exists(f):
            try:
                t = ast.parse(open(f).read())
                ns, op = set(), False
                for s in ef.toplevel(t.body):
                    if isinstance(s, (ast.Import, ast.ImportFrom)):
                        for a in s.names:
                            if a.name == "*":
                                op = True
                            ns.add((a.asname or a.name).split(".")[0])
                    elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        ns.add(s.name)
                        op = op or s.name == "__getattr__" and False
                    else:
                        ns |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                if os.path.isdir(p):
                    ns |= {x[:-3] if x.endswith(".py") else x for x in os.listdir(p)}
                r = (ns, op)
            except (SyntaxError, ValueError):
                r = None
    _lib[dotted] = r
    return r


def exists(dotted):
    """True / False / None (unknown) : the library path names something"""
    if "." not in dotted:
        return None
    m, _, a = dotted.rpartition(".")
    l = lib_names(m)
    if l is None:
        return None
    return True if a in l[0] else (None if l[1] else False)


@ob("C27", "prelude-denotes-the-library-routines", "prelude")
def _(c):
    pkg = package(c.repo)
    mod = pkg.mods.get("magpi.prelude")
    if mod is None:
        c.undecided("prelude", "not found")
        return
    found, names = exported(mod)
    if names is None:
        c.undecided("__all__", "not a literal" if found else "missing")
        names = public(pkg, mod)
    for n in PROMISED:
        if not c.fact(f"prelude exports {n}", n in names, "missing from the exported names"):
            continue
        t = resolve(pkg, mod, n)
        if t is None:
            c.fact(f"{n} is bound", False, "exported but never bound")
        elif t in PROMISED[n]:
            c.fact(f"{n} denotes the library routine", True)
        elif t.startswith("magpi."):
            c.undecided(f"{n} denotes the library routine", f"defined in the package as {t}")
        else:
            alias = same_object(t) & {x for p in PROMISED[n] for x in same_object(p)}
            if alias:
                c.fact(f"{n} denotes the library routine", True)
            else:
                c.fact(f"{n} denotes the library routine", False, f"denotes {t} instead of {sorted(PROMISED[n])[0]}")
    bs = bindings(pkg, mod)
    for n in set(names):
        ts = {t for m, t, _ in bs if m == n}
        c.fact(f"{n} is bound once", len(ts) <= 1, f"bound to {sorted(map(str, ts))}")


def same_object(t, depth=0):
    """library paths denoting the same object, through the libraries' own import statements"""
    out = {t}
    m, _, a = t.rpartition(".")
    if not m or depth > 4 or not site():
        return out
    p = os.path.join(site(), *m.split("."))
    f = os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"
    if os.path.exists(f):
        try:
            tr = ast.parse(open(f).read())
        except (SyntaxError, ValueError):
            return out
        for s in ef.toplevel(tr.body):
            if isinstance(s, ast.ImportFrom) and not s.level:
                for al in s.names:
                    if (al.asname or al.name) == a:
                        out |= same_object(f"{s.module}.{al.name}", depth + 1)
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Name,)) and any(isinstance(x, ast.Name) and x.id == a for x in s.targets) and s.value.id != a:
                out |= same_object(f"{m}.{s.value.id}", depth + 1)
    return out


@ob("C27", "exported-names-resolve")
def _(c):
    pkg = package(c.repo)
    for nm, mod in pkg.mods.items():
        found, names = exported(mod)
        if not found:
            continue
        if names is None:
            c.undecided(f"{nm}.__all__", "not a literal")
            continue
        bs = bindings(pkg, mod)
        bound = {n for n, _, _ in bs}
        c.fact(f"{nm}: no name is listed twice", len(set(names)) == len(names), f"{sorted({n for n in names if names.count(n) > 1})}")
        for n in names:
            ok = n in bound or "*" in bound or nm in ("magpi",) and f"magpi.{n}" in pkg.mods
            if not c.fact(f"{nm}: {n} is bound", ok, "exported but never bound"):
                continue
            t = resolve(pkg, mod, n)
            if t and not t.startswith("magpi") and exists(t) is False:
                c.fact(f"{nm}: {n} exists in the library", False, f"{t} is not bound by the installed library")


@ob("C27", "imports-resolve")
def _(c):
    """every imported name exists in the imported module, inside the package and in the installed libraries"""
    pkg = package(c.repo)
    for nm, mod in pkg.mods.items():
        for s in ast.walk(mod.tree):
            if isinstance(s, ast.ImportFrom):
                b = ef.resolve_from(nm, s)
                for a in s.names:
                    lab = f"{nm}: from {b} import {a.name}"
                    if a.name == "*":
                        c.fact(lab, b in pkg.mods or not b.startswith("magpi"), "no such module")
                    elif b in pkg.mods:
                        m = pkg.mods[b]
                        ok = a.name in {n for n, _, _ in bindings(pkg, m)} or f"{b}.{a.name}" in pkg.mods
                        c.fact(lab, ok, f"{b} does not define {a.name}")
                    elif b.split(".")[0] == "magpi":
                        c.fact(lab, False, "no such module")
                    else:
                        e = exists(f"{b}.{a.name}")
                        if e is False:
                            c.fact(lab, False, "not bound by the installed library")
                        elif e:
                            c.fact(lab, True)


@ob("C27", "package-submodules", "__init__")
def _(c):
    pkg = package(c.repo)
    mod = pkg.mods.get("magpi")
    if mod is None:
        c.undecided("magpi", "no package")
        return
    found, names = exported(mod)
    want = "calc domain integrate opt ode model sampling quaternions r_fun".split()
    loaded, err = simulate(pkg)
    for e in err:
        c.add("violated", "importing the package", e[0], loc=e[1])
    c.fact("the package can be imported without circularity", not err)
    for n in want:
        c.fact(f"magpi lists {n}", names is None or n in names, "missing from __all__")
        c.fact(f"magpi.{n} is available after importing the package", f"magpi.{n}" in loaded, "never imported")
    for nm in pkg.mods:
        l2, err = simulate(pkg, nm)
        for e in err:
            c.add("violated", f"importing {nm} first", e[0], loc=e[1])
        if not err:
            c.fact(f"importing {nm} first", True)


def simulate(pkg, first=None):
    """abstract import: module-level imports in execution order, names bound so far per module"""
    bound, state, err = {}, {}, []

    def load(m):
        # parents first
        ps = m.split(".")
        for k in range(1, len(ps)):
            load_one(".".join(ps[:k]))
        load_one(m)

    def load_one(m):
        if m in state or m not in pkg.mods:
            return
        state[m] = "busy"
        bound[m] = set()
        run(pkg.mods[m], pkg.mods[m].tree.body)
        state[m] = "done"
        if "." in m:
            p, _, a = m.rpartition(".")
            bound.setdefault(p, set()).add(a)

    def run(mod, body):
        B_ = bound[mod.name]
        for s in body:
            loc = f"{os.path.basename(mod.path)}:{s.lineno}"
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split(".")[0] == "magpi":
                        load(a.name)
                    B_.add(a.asname or a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                b = ef.resolve_from(mod.name, s)
                if b.split(".")[0] == "magpi":
                    load(b)
                for a in s.names:
                    if a.name == "*":
                        if b in pkg.mods:
                            ex = exported(pkg.mods[b])[1]
                            have = bound.get(b, set())
                            if state.get(b) == "busy":
                                miss = [n for n in (ex or []) if n not in have]
                                if miss or ex is None:
                                    err.append((f"circular import: {mod.name} star-imports {b} before it is complete", loc))
                            B_ |= set(ex) if ex is not None else {n for n in have if not n.startswith("_")}
                    else:
                        if b in pkg.mods:
                            if f"{b}.{a.name}" in pkg.mods and a.name not in bound.get(b, ()):
                                load(f"{b}.{a.name}")
                                if state.get(f"{b}.{a.name}") == "busy":
                                    pass  # python falls back to sys.modules
                            elif a.name not in bound.get(b, ()):
                                err.append((f"{mod.name} imports {a.name} from {b} " + ("before it is defined (circular import)" if state.get(b) == "busy" else "which does not define it"), loc))
                        B_.add(a.asname or a.name)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                used_now(mod, s, B_, loc)
                B_.add(s.name)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                if isinstance(s, ast.If) and any(isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, "id", None) == "TYPE_CHECKING" or getattr(n, "attr", None) == "TYPE_CHECKING") for n in ast.walk(s.test)):
                    run(mod, s.orelse)
                    continue
                B_ |= {n.id for x in ([s.target] if isinstance(s, ast.For) else [i.optional_vars for i in s.items if i.optional_vars] if isinstance(s, ast.With) else []) for n in ast.walk(x) if isinstance(n, ast.Name)}
                run(mod, s.body)
                for h in getattr(s, "handlers", []):
                    run(mod, h.body)
                run(mod, getattr(s, "orelse", []))
                run(mod, getattr(s, "finalbody", []))
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        B_.add(n.id)

    def used_now(mod, s, B_, loc):
        """names needed while the definition statement executes: decorators, bases, defaults"""
        es = list(s.decorator_list)
        if isinstance(s, ast.ClassDef):
            es += s.bases
        else:
            es += s.args.defaults + [k for k in s.args.kw_defaults if k is not None]
        for e in es:
            lam = {a.arg for l in ast.walk(e) if isinstance(l, ast.Lambda) for a in ef.args_of(l)} | {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in B_ and n.id not in lam and not hasattr(builtins, n.id) and not n.id.startswith("__"):
                    err.append((f"{mod.name}.{s.name} needs {n.id} before it is defined", loc))

    load("magpi")
    if first:
        load(first)
    return set(bound), err


@ob("C27", "names-used-resolve")
def _(c):
    """every free name of every function is bound in its module (or a builtin)"""
    pkg = package(c.repo)
    for nm, mod in pkg.mods.items():
        bs = {n for n, _, _ in bindings(pkg, mod)}
        for q, fn, cls, encl in ef.functions(mod):
            c.I.visited[(nm, q)] = 1
        openm = "*" in bs
        src = open(mod.path).read()
        st = symtable.symtable(src, mod.path, "exec")
        bad = []
        count = 0
        globals_assigned = set()

        def rec(t):
            nonlocal count
            for s in t.get_symbols():
                if t.get_type() != "module" and s.is_global() or t.get_type() == "module":
                    if s.is_referenced():
                        count += 1
                        n = s.get_name()
                        if n not in bs and not hasattr(builtins, n) and not openm and not n.startswith("__") and not (t.get_type() == "module" and s.is_assigned()) and n not in globals_assigned:
                            bad.append((n, t.get_name(), t.get_lineno()))
                if s.is_declared_global() and s.is_assigned():
                    globals_assigned.add(s.get_name())
            for ch in t.get_children():
                rec(ch)

        rec(st)
        for n, f, line in bad[:5]:
            c.add("violated", f"{nm}.{f}: name {n} resolves", f"{n} is bound neither in the module nor as a builtin", loc=f"{os.path.basename(mod.path)}:{line}")
        if not bad:
            c.add("holds", f"{nm}: every name used resolves", f"{count} references", cases=count or 1)


@ob("C27", "shared-names-keep-their-meaning")
def _(c):
    """a module that star-imports the prelude does not silently rebind one of its names to something else"""
    pkg = package(c.repo)
    pre = set(PROMISED)
    for nm, mod in pkg.mods.items():
        if nm == "magpi.prelude":
            continue
        bad = []
        for n, t, line in bindings(pkg, mod):
            if n in pre and t and not t.startswith("magpi") and t not in PROMISED[n] and not (same_object(t) & {x for p in PROMISED[n] for x in same_object(p)}):
                bad.append((n, t, line))
        for n, t, line in bad[:3]:
            c.add("violated", f"{nm}: {n} keeps its meaning", f"{n} is rebound to {t}", loc=f"{os.path.basename(mod.path)}:{line}")
        if not bad:
            c.fact(f"{nm}: shared names keep their meaning", True)
