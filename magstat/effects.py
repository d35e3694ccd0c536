"""Flow-sensitive origin and effect analysis of the package's syntax trees.

Every expression is mapped to the set of *roots* it may alias: parameters, module-level names, variables of an enclosing function.
Two levels are kept: the object itself (own) and what it contains (elem). Stores, in-place operators, mutating methods and the
summaries of called package functions turn roots into effects.
"""
from __future__ import annotations
import ast
import builtins
import os

MUTATORS = {"append", "extend", "insert", "remove", "clear", "update", "sort", "reverse", "add", "discard", "fill", "itemset", "put", "__setitem__", "__setattr__", "__delitem__", "appendleft", "move_to_end", "setflags", "partition", "byteswap", "set_printoptions"}
VALUE_MUTATORS = {"pop", "popitem", "setdefault", "popleft"}
CONSTRUCTORS = {"__init__", "__post_init__", "__new__", "__setstate__", "setup", "__attrs_post_init__"}
SHALLOW = {"list", "tuple", "dict", "set", "frozenset", "sorted", "reversed", "zip", "enumerate", "map", "filter", "iter", "copy"}
SCALAR_ANN = {"int", "float", "str", "bool", "complex"}
IMPURE_ROOTS = {"time", "datetime", "os", "sys", "secrets", "uuid", "socket", "subprocess", "pathlib", "tempfile", "logging", "shutil", "io", "threading", "multiprocessing", "ctypes", "signal", "builtins.open"}
IMPURE_EXACT = {"builtins.print", "builtins.input", "builtins.open", "builtins.breakpoint", "builtins.exec", "builtins.globals", "jax.debug.print", "jax.debug.callback", "jax.debug.breakpoint", "jax.default_backend", "jax.devices", "jax.local_devices", "jax.device_count", "jax.clear_caches", "jax.make_jaxpr_"}
CALLBACKS = {"jax.experimental.io_callback", "jax.pure_callback", "jax.debug.callback", "jax.experimental.host_callback.call", "jax.experimental.host_callback.id_tap", "jax.experimental.io_callback.io_callback"}
CACHES = {"functools.lru_cache", "functools.cache", "lru_cache", "cache"}


class Effect:
    def __init__(self, root, what, node):
        self.root, self.what, self.line = root, what, getattr(node, "lineno", 0)


class Val:
    __slots__ = ("own", "elem")

    def __init__(self, own=frozenset(), elem=frozenset()):
        self.own, self.elem = frozenset(own), frozenset(elem)

    def join(self, o):
        return Val(self.own | o.own, self.elem | o.elem)

    @property
    def deep(self):
        return self.own | self.elem


FRESH = Val()


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path).read(), path)
        self.imports = {}  # name -> dotted
        self.stars = []
        self.names = set()
        for n in toplevel(self.tree.body):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = resolve_from(name, n)
                for a in n.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + "." + a.name


def resolve_from(modname, n):
    if not n.level:
        return n.module or ""
    parts = modname.split(".")
    parts = parts[: len(parts) - n.level] if not modname.endswith("__init__") and modname != "magpi" else parts[: len(parts) - n.level + 1]
    return ".".join(parts + ([n.module] if n.module else []))


def toplevel(body):
    """statements executed at import, including those under if/try/with/for"""
    for s in body:
        yield s
        for f in ("body", "orelse", "finalbody"):
            if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                yield from toplevel(getattr(s, f, []))
        for h in getattr(s, "handlers", []):
            yield from toplevel(h.body)


class Package:
    def __init__(self, repo, pkg="magpi"):
        self.mods = {}
        root = os.path.join(repo, pkg)
        for dp, dn, fns in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for fn in sorted(fns):
                if fn.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dp, fn), repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.mods[rel] = Module(rel, os.path.join(dp, fn))
        self.sums = {}

    def dotted(self, mod, e, local=()):
        """library path denoted by an expression, through imports and star imports; None if unknown"""
        if isinstance(e, ast.Name):
            if e.id in local:
                return None
            return self.name_target(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(mod, e.value, local)
            return None if b is None else b + "." + e.attr
        return None

    def name_target(self, mod, name, depth=0):
        if name in mod.imports:
            return mod.imports[name]
        for n in mod.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                return f"{mod.name}.{name}"
        for s in mod.stars:
            m = self.mods.get(s)
            if m is not None and depth < 5:
                t = self.name_target(m, name, depth + 1)
                if t and not t.startswith("builtins."):
                    return t
        for n in mod.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return f"{mod.name}.{name}"
        if hasattr(builtins, name):
            return f"builtins.{name}"
        return None


def functions(mod):
    """(qualified name, node, class or None, enclosing function nodes)"""
    def rec(body, prefix, cls, encl):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + s.name
                yield q, s, cls, encl
                yield from rec(s.body, q + ".", None, encl + [s])
            elif isinstance(s, ast.ClassDef):
                yield from rec(s.body, prefix + s.name + ".", s, encl)
            else:
                for f in ("body", "orelse", "finalbody"):
                    sub = getattr(s, f, None)
                    if isinstance(sub, list):
                        yield from rec(sub, prefix, cls, encl)
                for h in getattr(s, "handlers", []):
                    yield from rec(h.body, prefix, cls, encl)
    yield from rec(mod.tree.body, "", None, [])


def args_of(fn):
    a = fn.args
    return [x for x in a.posonlyargs + a.args + a.kwonlyargs]


def assigned(fn):
    """names bound in the function's own scope"""
    out = {a.arg for a in args_of(fn)}
    if fn.args.vararg:
        out.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        out.add(fn.args.kwarg.arg)
    decl = set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                for d in c.decorator_list:
                    walk(d)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                decl.update(c.names)
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split(".")[0])
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            walk(c)

    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(s.name)
            continue
        m = ast.Module(body=[s], type_ignores=[]) if isinstance(s, ast.stmt) else ast.Expression(body=s)
        walk(m)
    return out - decl


class Analysis:
    """effects of one function"""

    def __init__(self, pkg, mod, q, fn, cls, encl):
        self.pkg, self.mod, self.q, self.fn, self.cls, self.encl = pkg, mod, q, fn, cls, encl
        self.effects = []
        self.ret = set()
        self.globals_, self.nonlocals = set(), set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Global):
                self.globals_.update(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
        self.local = assigned(fn)
        self.enclosed = [assigned(e) for e in encl]
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
        self.selfname = fn.args.args[0].arg if cls is not None and not static and fn.args.args else None
        self.ctor = fn.name in CONSTRUCTORS
        env = {}
        for a in args_of(fn):
            r = frozenset([("param", a.arg)])
            env[a.arg] = Val(r, r)
        if fn.args.vararg:
            v = fn.args.vararg.arg
            env[v] = Val((), [("param", v)])
        if fn.args.kwarg:
            v = fn.args.kwarg.arg
            env[v] = Val((), [("param", v)])
        self.ann = {a.arg: ann_name(a.annotation) for a in args_of(fn)}
        self.block(fn.body, env)

    # ------------------------------------------------------------ helpers
    def hit(self, v, what, node):
        for r in v.own:
            if r[0] == "param" and r[1] == self.selfname and self.ctor:
                continue
            self.effects.append(Effect(r, what, node))

    def name(self, n, env):
        if n in env:
            return env[n]
        if n in self.local:
            return FRESH
        for e in reversed(self.enclosed):
            if n in e:
                return Val([("free", n)], [("free", n)])
        return Val([("global", n)], [("global", n)])

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        if e is None:
            return FRESH
        m = getattr(self, "e_" + type(e).__name__, None)
        if m:
            return m(e, env)
        out = FRESH
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return out

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_Constant(self, e, env):
        return FRESH

    def e_Attribute(self, e, env):
        v = self.ev(e.value, env)
        if e.attr in ("T", "mT", "shape", "ndim", "size", "dtype", "real", "imag"):
            return FRESH
        return Val(v.elem | (v.own if e.attr == "__dict__" else frozenset()), v.elem)

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        self.ev(e.slice, env)
        return Val(v.elem, v.elem)

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def _coll(self, items, env):
        el = frozenset()
        for i in items:
            el |= self.ev(i, env).deep
        return Val((), el)

    def e_List(self, e, env):
        return self._coll(e.elts, env)

    e_Tuple = e_Set = e_List

    def e_Dict(self, e, env):
        return self._coll([v for v in e.values] + [k for k in e.keys if k is not None], env)

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env).join(self.ev(e.orelse, env))

    def e_BoolOp(self, e, env):
        v = FRESH
        for x in e.values:
            v = v.join(self.ev(x, env))
        return v

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.bind(e.target, v, env)
        return v

    def e_Lambda(self, e, env):
        en = dict(env)
        for a in args_of(e):
            en[a.arg] = FRESH
        for a in (e.args.vararg, e.args.kwarg):
            if a:
                en[a.arg] = FRESH
        self.ev(e.body, en)
        return FRESH

    def comp(self, e, env, elts):
        en = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, en)
            self.bind(g.target, Val(it.elem, it.elem), en)
            for i in g.ifs:
                self.ev(i, en)
        return self._coll(elts, en)

    def e_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self.comp(e, env, [e.key, e.value])

    def e_Yield(self, e, env):
        if e.value is not None:
            self.ret |= self.ev(e.value, env).own
        return FRESH

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Call(self, e, env, stmt=False):
        f = e.func
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if "out" in kws:
            self.hit(kws["out"], "given as output buffer `out=`", e)
        d = self.pkg.dotted(self.mod, f, self.local | set().union(*self.enclosed) if self.enclosed else self.local)
        if isinstance(f, ast.Attribute):
            v = self.ev(f.value, env)
            at = isinstance(f.value, ast.Subscript) and isinstance(f.value.value, ast.Attribute) and f.value.value.attr == "at"
            isself = isinstance(f.value, ast.Name) and f.value.id == self.selfname
            known = isself and self.method(f.attr) is not None
            lib = d is not None and not d.startswith("magpi.") and d.split(".")[0] in ("jax", "numpy", "jaxopt", "flax", "optax", "chex", "functools", "math", "itertools", "operator")
            if d is not None and (d.startswith("jax.config.") or d.endswith(".config.update")):
                self.effects.append(Effect(("global", "jax.config"), "changes the configuration of jax", e))
            elif not at and not known and not lib and not (d or "").startswith("builtins."):
                if f.attr in MUTATORS and stmt or f.attr in VALUE_MUTATORS:
                    self.hit(v, f"mutating method .{f.attr}()", e)
            if d in ("numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.random.shuffle", "random.shuffle") or d and d.startswith("numpy.") and d.endswith(".at"):
                if args:
                    self.hit(args[0], f"in-place routine {d}", e)
            if f.attr in ("__setattr__", "__delattr__") and args and isinstance(f.value, ast.Name) and f.value.id in ("object", "super"):
                self.hit(args[0], f"{f.attr} on it", e)
            elif f.attr == "__setattr__" and d == "builtins.object.__setattr__" and args:
                self.hit(args[0], "__setattr__ on it", e)
            if known:
                self.apply(self.method(f.attr), [v] + args, kws, e)
            if f.attr in ("copy", "keys", "values", "items"):
                return Val((), v.deep)
            if f.attr == "get":
                return Val(v.elem, v.elem)
        else:
            fv = self.ev(f, env)
        if isinstance(f, ast.Name) and f.id not in env:
            if f.id in ("setattr", "delattr") and args:
                self.hit(args[0], f"{f.id}()", e)
            if f.id == "vars" and args:
                return args[0]
            if f.id in SHALLOW and f.id not in self.local:
                el = frozenset()
                for a in args:
                    el |= a.elem | (a.own if f.id in ("map", "filter") else frozenset())
                return Val((), el)
        if isinstance(f, ast.Name):
            s = self.pkg.summary_of(self.mod, f.id, self)
            if s is not None:
                return self.apply(s, args, kws, e)
        return FRESH

    def method(self, name):
        if self.cls is None:
            return None
        for n in self.cls.body:
            if isinstance(n, ast.FunctionDef) and n.name == name and n is not self.fn:
                return self.pkg.summary(self.mod, n, self.cls)
        return None

    def apply(self, s, args, kws, node):
        names, mutated, ret, what = s
        vals = dict(zip(names, args))
        vals.update({k: v for k, v in kws.items() if k in names})
        for p in mutated:
            if p in vals:
                self.hit(vals[p], f"passed to a function that modifies its parameter {p} ({what})", node)
        own = frozenset()
        for p in ret:
            if p in vals:
                own |= vals[p].own
        return Val(own, own)

    # ------------------------------------------------------------ statements
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in self.globals_:
                self.effects.append(Effect(("global", t.id), "assignment to a module-level name", t))
            elif t.id in self.nonlocals:
                self.effects.append(Effect(("free", t.id), "assignment to a variable of the enclosing function", t))
            else:
                env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, Val(v.elem, v.elem), env)
        elif isinstance(t, ast.Attribute):
            self.hit(self.ev(t.value, env), f"assignment to attribute .{t.attr}", t)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            self.hit(self.ev(t.value, env), "assignment to an element", t)

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def join(self, env, a, b):
        for k in set(a) | set(b):
            if k in a and k in b:
                env[k] = a[k].join(b[k])
            else:
                env[k] = a.get(k) or b.get(k)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + s.value.elts):
                    break
            else:
                t = None
            if t is not None and len(s.targets) == 1:
                vs = [self.ev(x, env) for x in s.value.elts]
                for x, v in zip(t.elts, vs):
                    self.bind(x, v, env)
                return
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                if t.id in self.globals_ or t.id in self.nonlocals:
                    self.bind(t, v, env)
                else:
                    cur = self.name(t.id, env)
                    own = frozenset(r for r in cur.own if not (r[0] == "param" and self.ann.get(r[1]) in SCALAR_ANN))
                    self.hit(Val(own), "in-place operator on the name (modifies a mutable array or list)", s)
                    env[t.id] = Val(own, cur.elem | v.elem)
            else:
                self.bind(t, v, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.bind(t, FRESH, env)
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Call):
                self.e_Call(s.value, env, stmt=True)
            else:
                self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            self.ret |= self.ev(s.value, env).own
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a)
            self.block(s.orelse, b)
            if ends(s.body) and not ends(s.orelse):
                env.clear(), env.update(b)
            elif ends(s.orelse) and s.orelse and not ends(s.body):
                env.clear(), env.update(a)
            else:
                self.join(env, a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            for _ in range(2):
                a = dict(env)
                self.bind(s.target, Val(it.elem, it.elem), a)
                self.block(s.body, a)
                self.join(env, dict(env), a)
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test, env)
                a = dict(env)
                self.block(s.body, a)
                self.join(env, dict(env), a)
            self.block(s.orelse, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            self.block(s.body, env)
        elif isinstance(s, ast.Try):
            self.block(s.body, env)
            for h in s.handlers:
                a = dict(env)
                self.block(h.body, a)
                self.join(env, dict(env), a)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.Match):
            v = self.ev(s.subject, env)
            for c in s.cases:
                a = dict(env)
                for n in ast.walk(c.pattern):
                    for nm in (getattr(n, "name", None), getattr(n, "rest", None)):
                        if isinstance(nm, str):
                            a[nm] = Val(v.deep, v.elem)
                self.block(c.body, a)
                self.join(env, dict(env), a)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            env[s.name] = FRESH
            for d in s.decorator_list:
                self.ev(d, env)
        elif isinstance(s, (ast.Assert, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, env)


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def ann_name(a):
    if isinstance(a, ast.Name):
        return a.id
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return a.value
    return None


def _summary(pkg, mod, node, cls):
    key = (mod.name, node)
    if key in pkg.sums:
        return pkg.sums[key]
    pkg.sums[key] = None  # recursion: assume no effect
    an = Analysis(pkg, mod, node.name, node, cls, [])
    names = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
    mut = {e.root[1] for e in an.effects if e.root[0] == "param"}
    what = "; ".join(sorted({f"line {e.line}: {e.what}" for e in an.effects if e.root[0] == "param"}))
    pkg.sums[key] = (names, mut, {r[1] for r in an.ret if r[0] == "param"}, what)
    return pkg.sums[key]


Package.summary = _summary


def _summary_of(pkg, mod, name, an):
    # a local helper function or a function of the package
    for f in [an.fn] + list(reversed(an.encl)):
        for n in ast.walk(f):
            if isinstance(n, ast.FunctionDef) and n.name == name and n is not an.fn:
                return pkg.summary(mod, n, None)
    t = pkg.name_target(mod, name)
    if t and t.startswith("magpi."):
        m = pkg.mods.get(t.rsplit(".", 1)[0])
        if m:
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return pkg.summary(m, n, None)
    return None


Package.summary_of = _summary_of


def escapes(fn, encl):
    """the nested function outlives a call of its enclosing function"""
    if not encl:
        return False
    outer = encl[-1]
    tainted = {fn.name}
    own = lambda n: not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if c is fn:
                continue
            yield c
            yield from walk(c)

    for _ in range(3):
        for n in walk(outer):
            if isinstance(n, ast.Assign) and _mentions(n.value, tainted):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            tainted.add(x.id)
                        if isinstance(x, ast.Attribute):
                            return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn and isinstance(n, ast.FunctionDef):
                if any(isinstance(x, ast.Name) and x.id in tainted for x in ast.walk(n)):
                    tainted.add(n.name)
    for n in walk(outer):
        if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and _mentions(n.value, tainted):
            return True
    return False


def _mentions(e, names):
    """a tainted function occurs as a value (not merely called)"""
    called = {id(n.func) for n in ast.walk(e) if isinstance(n, ast.Call)}
    return any(isinstance(n, ast.Name) and n.id in names and id(n) not in called for n in ast.walk(e))


def impure_uses(pkg, mod, node, local=frozenset()):
    """(line, text) of ambient reads and input/output in the subtree (nested functions included)"""
    out = []
    for n in ast.walk(node):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
            d = pkg.dotted(mod, n, local)
            if d is None:
                continue
            root = d.split(".")[0]
            if d in IMPURE_EXACT or root in IMPURE_ROOTS and not (root == "os" and d == "os") and "." in d or d.startswith(("numpy.random", "random.")):
                out.append((n.lineno, d))
        if isinstance(n, ast.Call):
            d = pkg.dotted(mod, n.func, local)
            if d in CALLBACKS:
                cb = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "callback"), None)
                if cb is None or not any(isinstance(x, ast.Attribute) and x.attr == "callback" or isinstance(x, ast.Name) and x.id == "callback" for x in ast.walk(cb)):
                    out.append((n.lineno, f"{d} with a function that is not the user's callback"))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                base = a.name if isinstance(n, ast.Import) else (n.module or "")
    return out
