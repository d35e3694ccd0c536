"""Abstract interpreter over the syntax trees of /repo/magpi.

Values are arrays of value-graph terms (values.py); joins of branches whose
condition is not constant are gated (sel / Choice), never enumerated as paths.
Nothing of the analysed package is imported or executed."""
from __future__ import annotations
import ast
import inspect
import os
import sys
from fractions import Fraction

import numpy as np

from . import terms as tm
from .terms import T, const
from .values import *
from . import values as V

sys.setrecursionlimit(20000)

STEP_LIMIT = 400_000


class Env:
    __slots__ = ("vars", "parent", "globals_", "nonlocals", "cls", "self_")

    def __init__(self, parent=None, vars=None):
        self.vars = {} if vars is None else vars
        self.parent = parent
        self.globals_ = set()
        self.nonlocals = set()
        self.cls = parent.cls if parent else None
        self.self_ = None

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is MISSING:
                    break
                return v
            e = e.parent
        raise KeyError(name)


class ClassEnv(Env):
    pass


# outcomes ------------------------------------------------------------------
class O:
    __slots__ = ("k", "v", "c", "a", "b")

    def __init__(self, k, v=None, c=None, a=None, b=None):
        self.k, self.v, self.c, self.a, self.b = k, v, c, a, b


def leaves(o):
    if o.k == "?":
        yield from leaves(o.a)
        yield from leaves(o.b)
    else:
        yield o


def replace(o, pred, new):
    if o.k == "?":
        a, b = replace(o.a, pred, new), replace(o.b, pred, new)
        return O("?", c=o.c, a=a, b=b)
    return new(o) if pred(o) else o


def reach_cond(o, kinds):
    if o.k == "?":
        return tm.or_(tm.and_(o.c, reach_cond(o.a, kinds)), tm.and_(tm.not_(o.c), reach_cond(o.b, kinds)))
    return tm.TRUE if o.k in kinds else tm.FALSE


class Event:
    __slots__ = ("kind", "data", "loc", "path")

    def __init__(self, kind, data, loc, path):
        self.kind, self.data, self.loc, self.path = kind, data, loc, path

    def __repr__(self):
        return f"<{self.kind} {self.data} @{self.loc}>"


class Interp:
    def __init__(self, repo="/repo", package="magpi"):
        from . import lib

        self.repo, self.package = repo, package
        self.mods = {}
        self.trees = {}
        self.stack = []  # [modname, qualname, lineno]
        self.events = []
        self.path = []
        self.visited = {}
        self.visited_lines = set()
        self.tracing = False  # every input is a tracer: conversions to Python values are recorded
        self.steps = 0
        self.epoch = {}
        self.builtins = lib.python_builtins(self)
        self.lib = lib
        self.scope = None  # flax scope
        self.files = {}

    # ------------------------------------------------------------- loading
    def path_of(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def exists(self, name):
        return os.path.exists(self.path_of(name)[0])

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, is_pkg = self.path_of(name)
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        self.trees[name] = tree
        self.files[name] = os.path.relpath(path, self.repo)
        env = Env()
        env.vars["__name__"] = name
        m = Mod(name, env.vars)
        m.env = env
        m.is_pkg = is_pkg
        self.mods[name] = m
        self.stack.append([name, "<module>", 0])
        ev, pt = self.events, self.path
        self.events, self.path = [], []
        try:
            o = self.block(tree.body, env, m)
        finally:
            self.stack.pop()
            self.events, self.path = ev, pt
        return m

    def get(self, qual):
        """'magpi.calc.derivative'"""
        mod, name = qual.rsplit(".", 1)
        m = self.load(mod)
        if name not in m.attrs:
            raise KeyError(qual)
        return m.attrs[name]

    def import_module(self, name):
        if name == self.package or name.startswith(self.package + "."):
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                sub = ".".join(parts[:i])
                if not self.exists(sub):
                    pyraise("ModuleNotFoundError", sub)
                if sub == self.package:
                    # package __init__ only pulls in the submodules
                    if sub not in self.mods:
                        m = Mod(sub, {})
                        m.is_pkg = True
                        self.mods[sub] = m
                    m = self.mods[sub]
                else:
                    m = self.load(sub)
                    self.mods[self.package].attrs.setdefault(parts[i - 1], m)
            return m
        return self.lib.module(name)

    # ------------------------------------------------------------- locations
    def loc(self):
        for mod, qual, line in reversed(self.stack):
            if mod in self.files:
                return f"{self.files[mod]}:{line} in {qual}"
        return None

    def event(self, kind, *data):
        self.events.append(Event(kind, data, self.loc(), tuple(self.path)))

    # ----------------------------------------------------------- statements
    def block(self, stmts, env, mod):
        """execute statements; returns outcome tree"""
        for i, s in enumerate(stmts):
            o = self.stmt(s, env, mod)
            if o is None or o.k == "n":
                continue
            if o.k != "?":
                return o
            ns = [l for l in leaves(o) if l.k == "n"]
            if not ns:
                return o
            env.vars.clear()
            env.vars.update(self.merge_vars(o, "n"))
            if all(l.k == "n" for l in leaves(o)):
                continue
            rest = stmts[i + 1 :]
            self.path.append((reach_cond(o, "n"), True))
            cont = self.guarded(lambda: self.block(rest, env, mod), env)
            self.path.pop()
            return replace(o, lambda l: l.k == "n", lambda l: cont)
        return O("n", dict(env.vars)) if False else O("n", env.vars)

    def guarded(self, thunk, env):
        """run under a non-constant condition: program exceptions become outcomes"""
        try:
            o = thunk()
        except InterpRaise as e:
            if e.loc is None:
                e.loc = self.loc()
            return O("x", e)
        if o.k in ("n",):
            return O("n", dict(env.vars))
        return self.freeze(o, env)

    def freeze(self, o, env):
        return o

    def merge_vars(self, o, kind):
        if o.k == "?":
            a, b = self.merge_vars(o.a, kind), self.merge_vars(o.b, kind)
            if a is None:
                return b
            if b is None:
                return a
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                va, vb = a.get(k, MISSING), b.get(k, MISSING)
                if va is vb:
                    out[k] = va
                elif va is MISSING or vb is MISSING:
                    out[k] = MISSING
                else:
                    out[k] = self.merge(o.c, va, vb)
            return out
        if o.k in kind:
            return o.v
        return None

    def stmt(self, s, env, mod):
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise Unsupported("step limit")
        if self.stack:
            self.stack[-1][2] = s.lineno
            self.visited_lines.add((mod.name, s.lineno))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        try:
            return m(s, env, mod)
        except InterpRaise as e:
            if e.loc is None:
                e.loc = self.loc()
            raise

    def s_Expr(self, s, env, mod):
        self.ev(s.value, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Global(self, s, env, mod):
        env.globals_.update(s.names)

    def s_Nonlocal(self, s, env, mod):
        env.nonlocals.update(s.names)

    def s_Import(self, s, env, mod):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                top = a.name.split(".")[0]
                env.vars[top] = self.import_module(top)

    def s_ImportFrom(self, s, env, mod):
        name = s.module or ""
        if s.level:
            base = mod.name.split(".")
            if not getattr(mod, "is_pkg", False):
                base = base[:-1]
            if s.level > 1:
                base = base[: -(s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    names = m.attrs.get("__all__")
                    if names is None:
                        names = [k for k in m.attrs if not k.startswith("_")]
                    for n in names:
                        env.vars[n] = self.getattr(m, n)
                continue
            if (name == self.package or name.startswith(self.package + ".")) and a.name not in m.attrs:
                if self.exists(name + "." + a.name):
                    env.vars[a.asname or a.name] = self.import_module(name + "." + a.name)
                    continue
                pyraise("ImportError", f"cannot import name {a.name} from {name}")
            env.vars[a.asname or a.name] = self.getattr(m, a.name)

    def s_FunctionDef(self, s, env, mod):
        f = self.make_func(s, env, mod, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env, mod), [f], {})
        self.assign_name(s.name, f, env, mod)

    s_AsyncFunctionDef = None

    def make_func(self, node, env, mod, name):
        a = node.args
        defaults = [self.ev(d, env, mod) for d in a.defaults]
        kwd = [None if d is None else self.ev(d, env, mod) for d in a.kw_defaults]
        outer = self.stack[-1][1] if self.stack else ""
        qual = name if outer in ("<module>", "") else outer + "." + name
        if isinstance(env, ClassEnv):
            qual = env.vars.get("__qualname__", "") + "." + name
        # a class body is not an enclosing scope for its functions
        denv = env
        while isinstance(denv, ClassEnv):
            denv = denv.parent
        f = Func(node, denv, mod, name, qual, defaults, kwd, cls=env.cls)
        return f

    def s_ClassDef(self, s, env, mod):
        bases = [self.ev(b, env, mod) for b in s.bases]
        cenv = ClassEnv(env)
        cenv.vars["__qualname__"] = s.name
        cls = Class(s.name, bases, cenv.vars)
        cenv.cls = cls
        cls.mod = mod.name
        if any(not isinstance(b, Class) for b in bases):
            cls.opaque_base = True
        ann = []
        for b in s.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                a = ast.unparse(b.annotation)
                if not a.startswith(("ClassVar", "typing.ClassVar")):
                    ann.append(b.target.id)
        cls.annotations = ann
        o = self.block(s.body, cenv, mod)
        if o.k != "n":
            raise Unsupported("control flow in class body")
        for k, v in list(cls.attrs.items()):
            if isinstance(v, Func):
                v.cls = cls
        self.lib.finish_class(self, cls)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env, mod), [v], {})
        self.assign_name(s.name, v, env, mod)

    def s_Return(self, s, env, mod):
        return O("r", self.ev(s.value, env, mod) if s.value is not None else None)

    def s_Break(self, s, env, mod):
        return O("b", dict(env.vars))

    def s_Continue(self, s, env, mod):
        return O("c", dict(env.vars))

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                k = self.ev(t.slice, env, mod)
                if isinstance(o, (dict, list)):
                    del o[k]
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_Assert(self, s, env, mod):
        t = self.truth(self.ev(s.test, env, mod))
        if t is True or t is tm.TRUE:
            return
        if t is False or t is tm.FALSE:
            msg = ""
            try:
                msg = self.ev(s.msg, env, mod) if s.msg else ""
            except (InterpRaise, Unsupported):
                pass
            raise InterpRaise(ExcVal("AssertionError", (msg if isinstance(msg, str) else "",)), self.loc())
        self.event("assert", t)

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if cur:
                raise cur[-1]
            raise Unsupported("bare raise")
        e = self.ev(s.exc, env, mod)
        if isinstance(e, Class):
            e = self.call(e, [], {})
        if isinstance(e, Builtin):
            e = self.call(e, [], {})
        if not isinstance(e, (ExcVal, Instance)):
            e = ExcVal("Exception")
        raise InterpRaise(e, self.loc())

    def s_Try(self, s, env, mod):
        try:
            o = self.block(s.body, env, mod)
            if o.k == "?" and any(l.k == "x" for l in leaves(o)):
                raise Unsupported("conditional exception inside try")
            if o.k == "n" and s.orelse:
                o = self.block(s.orelse, env, mod)
        except InterpRaise as e:
            for h in s.handlers:
                if h.type is None or self.exc_match(e.exc, self.ev(h.type, env, mod)):
                    if h.name:
                        env.vars[h.name] = e.exc
                    self.__dict__.setdefault("handling", []).append(e)
                    try:
                        o = self.block(h.body, env, mod)
                    finally:
                        self.handling.pop()
                    break
            else:
                if s.finalbody:
                    self.block(s.finalbody, env, mod)
                raise
        if s.finalbody:
            o2 = self.block(s.finalbody, env, mod)
            if o2.k != "n":
                return o2
        return o

    def exc_match(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.exc_match(exc, t) for t in typ)
        if isinstance(typ, Class):
            if isinstance(exc, Instance):
                return exc.cls.is_sub(typ)
            typ = typ.name
        elif isinstance(typ, Builtin):
            typ = typ.name
        else:
            raise Unsupported("except clause")
        return self.lib.exc_is(exc.name, typ)

    def s_With(self, s, env, mod):
        for it in s.items:
            v = self.ev(it.context_expr, env, mod)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Opaque("with"), env, mod)
        return self.block(s.body, env, mod)

    def s_If(self, s, env, mod):
        t = self.truth(self.ev(s.test, env, mod))
        if t is True or t is tm.TRUE:
            return self.block(s.body, env, mod)
        if t is False or t is tm.FALSE:
            return self.block(s.orelse, env, mod)
        return self.branch(t, lambda: self.block(s.body, env, mod), lambda: self.block(s.orelse, env, mod), env)

    def branch(self, c, f1, f2, env):
        snap = dict(env.vars)
        self.path.append((c, True))
        o1 = self.guarded(f1, env)
        self.path.pop()
        env.vars.clear()
        env.vars.update(snap)
        self.path.append((c, False))
        o2 = self.guarded(f2, env)
        self.path.pop()
        return O("?", c=c, a=o1, b=o2)

    def s_For(self, s, env, mod):
        items = self.iterate(self.ev(s.iter, env, mod))

        def run(i):
            while i < len(items):
                self.assign(s.target, items[i], env, mod)
                o = self.block(s.body, env, mod)
                i += 1
                if o.k == "n":
                    continue
                if o.k == "c":
                    continue
                if o.k == "b":
                    return O("n", env.vars)
                if o.k in ("r", "x"):
                    return o
                # tree
                cont = [l for l in leaves(o) if l.k in "nc"]
                if cont:
                    mv = self.merge_vars(o, "nc")
                    env.vars.clear()
                    env.vars.update(mv)
                    if all(l.k in "nc" for l in leaves(o)):
                        continue
                    self.path.append((reach_cond(o, "nc"), True))
                    rest = self.guarded(lambda: run(i), env)
                    self.path.pop()
                    o = replace(o, lambda l: l.k in "nc", lambda l: rest)
                # breaks become normal exits of the loop
                return replace(o, lambda l: l.k == "b", lambda l: O("n", l.v))
            if s.orelse:
                return self.block(s.orelse, env, mod)
            return O("n", dict(env.vars))

        o = run(0)
        if o.k == "n" and o.v is not env.vars:
            v = dict(o.v)
            env.vars.clear()
            env.vars.update(v)
        return o

    def s_While(self, s, env, mod):
        n = 0
        while True:
            t = self.truth(self.ev(s.test, env, mod))
            if t is False or t is tm.FALSE:
                break
            if not (t is True or t is tm.TRUE):
                raise Unsupported("python while with a data-dependent condition")
            n += 1
            if n > 5000:
                raise Unsupported("loop bound")
            o = self.block(s.body, env, mod)
            if o.k in "nc":
                continue
            if o.k == "b":
                return
            if o.k == "?":
                mv = None
                if all(l.k in "nc" for l in leaves(o)):
                    mv = self.merge_vars(o, "nc")
                    env.vars.clear()
                    env.vars.update(mv)
                    continue
                raise Unsupported("data-dependent exit of a python while loop")
            return o
        if s.orelse:
            return self.block(s.orelse, env, mod)

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        load = ast.copy_location(_as_load(s.target), s.target)
        cur = self.ev(load, env, mod)
        v = self.ev(s.value, env, mod)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            self.mutate(cur)
            cur.extend(self.iterate(v))
            return
        if isinstance(cur, dict) and isinstance(s.op, ast.BitOr):
            self.mutate(cur)
            cur.update(v)
            return
        r = self.binop(type(s.op).__name__, cur, v)
        self.assign(s.target, r, env, mod)

    def s_Match(self, s, env, mod):
        subj = self.ev(s.subject, env, mod)
        for case in s.cases:
            binds = {}
            t = self.match(case.pattern, subj, env, mod, binds)
            if t is False:
                continue
            if t is not True:
                raise Unsupported("data-dependent match")
            env.vars.update(binds)
            if case.guard is not None:
                g = self.truth(self.ev(case.guard, env, mod))
                if g in (False, tm.FALSE):
                    continue
                if g not in (True, tm.TRUE):
                    raise Unsupported("data-dependent match guard")
            return self.block(case.body, env, mod)

    def match(self, p, v, env, mod, binds):
        if isinstance(p, ast.MatchValue):
            t = self.truth(self.compare("Eq", v, self.ev(p.value, env, mod)))
            return True if t in (True, tm.TRUE) else (False if t in (False, tm.FALSE) else t)
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                t = self.match(p.pattern, v, env, mod, binds)
                if t is not True:
                    return t
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                t = self.match(q, v, env, mod, binds)
                if t is not False:
                    return t
            return False
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported("match star")
            if len(p.patterns) != len(v):
                return False
            for q, x in zip(p.patterns, v):
                t = self.match(q, x, env, mod, binds)
                if t is not True:
                    return t
            return True
        raise Unsupported("match pattern")

    # ----------------------------------------------------------- assignment
    def assign_name(self, name, v, env, mod):
        if name in env.globals_:
            mod.attrs[name] = v
            self.event("global-write", mod.name, name)
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported("nonlocal")
            if self.path:
                raise Unsupported("nonlocal write under a symbolic condition")
            e.vars[name] = v
            return
        env.vars[name] = v

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env, mod)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    pyraise("ValueError", "not enough values to unpack")
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, env, mod)
                self.assign(t.elts[i].value, list(items[i : len(items) - after]), env, mod)
                for x, y in zip(t.elts[i + 1 :], items[len(items) - after :]):
                    self.assign(x, y, env, mod)
            else:
                if len(items) != len(t.elts):
                    pyraise("ValueError", f"cannot unpack {len(items)} values into {len(t.elts)}")
                for x, y in zip(t.elts, items):
                    self.assign(x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.ev(t.slice, env, mod)
            if isinstance(o, Arr):
                if getattr(o, "weak", None) == "np":
                    pass
                pyraise("TypeError", "JAX arrays are immutable")
            if isinstance(o, list):
                self.mutate(o)
                if isinstance(k, slice):
                    o[k] = self.iterate(v)
                else:
                    try:
                        o[self.int_(k)] = v
                    except IndexError:
                        pyraise("IndexError", "list assignment index out of range")
            elif isinstance(o, dict):
                self.mutate(o)
                o[self.hashable(k)] = v
            elif isinstance(o, Instance) and o.cls.lookup("__setitem__"):
                self.call(self.getattr(o, "__setitem__"), [k, v], {})
            else:
                raise Unsupported("subscript assignment")
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, mod)
        else:
            raise Unsupported("assignment target")

    def new(self, obj):
        """remember under how many symbolic conditions a heap object was created"""
        if self.path:
            self.epoch[id(obj)] = (len(self.path), obj)
        return obj

    def mutate(self, obj):
        if self.path and self.epoch.get(id(obj), (0,))[0] < len(self.path):
            # mutation of an older heap object under a non-constant condition
            raise Unsupported("heap mutation under a symbolic condition")
        self.event("mutate", id(obj))

    def hashable(self, k):
        if isinstance(k, (str, int, Fraction, tuple, type(None), DType)):
            return k
        if isinstance(k, Arr) and k.shape == () and k.item().op == "c" and k.item().data.denominator == 1:
            pyraise("TypeError", "unhashable type: Array")
        if isinstance(k, (Func, Class, Builtin, UFun)):
            return k
        raise Unsupported("dict key")

    # ---------------------------------------------------------- expressions
    def ev(self, e, env, mod):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, float):
            import math

            if math.isinf(v) or math.isnan(v):
                return const(v)
            return Fraction(repr(v))
        if isinstance(v, (bool, int, str, type(None), bytes)):
            return v
        if v is Ellipsis:
            return Ellipsis
        raise Unsupported("constant")

    def e_Name(self, e, env, mod):
        try:
            return env.lookup(e.id)
        except KeyError:
            pass
        if e.id in mod.attrs and mod.attrs[e.id] is not MISSING:
            return mod.attrs[e.id]
        if e.id in self.builtins:
            return self.builtins[e.id]
        if e.id == "__class__" and env.cls:
            return env.cls
        # is it a local that is bound only on some branch?
        pyraise("NameError", f"name '{e.id}' is not defined")

    def e_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def e_List(self, e, env, mod):
        return self.new(self.elts(e.elts, env, mod))

    def e_Set(self, e, env, mod):
        return self.mkset(self.elts(e.elts, env, mod))

    def mkset(self, items):
        out = []
        for x in items:
            dup = False
            for y in out:
                t = self.truth(self.compare("Eq", x, y)) if type(x) is type(y) or is_scalar(x) and is_scalar(y) else False
                if t in (True, tm.TRUE):
                    dup = True
                    break
                if t not in (False, tm.FALSE):
                    raise Unsupported("set of symbolic values")
            if not dup:
                out.append(x)
        return PySet(out)

    def elts(self, xs, env, mod):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env, mod)))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env, mod)
                if isinstance(x, MappingV):
                    x = x.d
                if not isinstance(x, dict):
                    raise Unsupported("dict unpack")
                d.update(x)
            else:
                d[self.hashable(self.ev(k, env, mod))] = self.ev(v, env, mod)
        return self.new(d)

    def e_JoinedStr(self, e, env, mod):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(str(p.value))
            else:
                v = self.ev(p.value, env, mod)
                spec = self.ev(p.format_spec, env, mod) if p.format_spec else ""
                try:
                    out.append(format(v, spec) if spec and isinstance(v, (int, str)) and p.conversion == -1 else self.fmt(v))
                except ValueError:
                    pyraise("ValueError", f"format {spec}")
        return "".join(out)

    def fmt(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Fraction):
            return str(float(v))
        if isinstance(v, tuple):
            return "(" + ", ".join(self.fmt(x) for x in v) + ("," if len(v) == 1 else "") + ")"
        if isinstance(v, (int, type(None))):
            return str(v)
        return f"<{type(v).__name__}>"

    def e_FormattedValue(self, e, env, mod):
        return self.fmt(self.ev(e.value, env, mod))

    def e_Lambda(self, e, env, mod):
        return self.make_func(e, env, mod, "<lambda>")

    def e_IfExp(self, e, env, mod):
        t = self.truth(self.ev(e.test, env, mod))
        if t is True or t is tm.TRUE:
            return self.ev(e.body, env, mod)
        if t is False or t is tm.FALSE:
            return self.ev(e.orelse, env, mod)
        self.path.append((t, True))
        a = self.ev(e.body, env, mod)
        self.path.pop()
        self.path.append((t, False))
        b = self.ev(e.orelse, env, mod)
        self.path.pop()
        return self.merge(t, a, b)

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env, mod)
            t = self.truth(v) if (i < len(e.values) - 1 or acc is not None) else None
            if acc is None:
                if t is None:
                    return v
                if t in (True, tm.TRUE):
                    if not isand:
                        return v
                    continue
                if t in (False, tm.FALSE):
                    if isand:
                        return v
                    continue
                acc = t
            else:
                tt = num(t) if not isinstance(t, T) else t
                acc = tm.and_(acc, tt) if isand else tm.or_(acc, tt)
        return acc if acc is not None else v

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        return self.unop(type(e.op).__name__, v)

    def unop(self, op, v):
        if op == "Not":
            t = self.truth(v)
            if isinstance(t, T):
                return tm.not_(t) if t.op != "b" else (not t.data)
            return not t
        if isinstance(v, Opaque):
            return v
        if isinstance(v, Instance):
            m = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
            return self.call(self.getattr(v, m), [], {})
        if op == "UAdd":
            return v
        if op == "USub":
            if isinstance(v, Arr):
                if v.kind == "i":
                    return ew(lambda x: dist_int(lambda a, b: tm.neg(a), x, tm.ZERO), v)
                return ew(lambda x: tm.neg(tm.as_num(x)), v, kind=v.kind if v.kind != "b" else "i")
            if isinstance(v, T):
                return tm.neg(tm.as_num(v))
            if isinstance(v, (int, Fraction)):
                return -v
        if op == "Invert":
            if isinstance(v, Arr) and v.kind == "b":
                return ew(tm.not_, v)
            if isinstance(v, T) and tm.is_bool(v):
                return tm.not_(v)
            if isinstance(v, int):
                return ~v
        if isinstance(v, (list, tuple, dict, str, type(None), Func)):
            pyraise("TypeError", f"bad operand type for unary {op}")
        raise Unsupported(f"unary {op} on {type(v).__name__}")

    def e_BinOp(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        b = self.ev(e.right, env, mod)
        return self.binop(type(e.op).__name__, a, b)

    DUNDER = {
        "Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "MatMult": "matmul",
        "Mod": "mod", "FloorDiv": "floordiv", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift",
    }

    def binop(self, op, a, b):
        if op == "BitOr" and (_is_type(a) or isinstance(a, TypeUnion)) and (_is_type(b) or isinstance(b, TypeUnion) or b is None) or op == "BitOr" and a is None and _is_type(b):
            f = lambda x: list(x.types) if isinstance(x, TypeUnion) else [x]
            return TypeUnion(f(a) + f(b))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque):
                return Opaque(f"{a.desc} {op} {b.desc}")
            return Opaque(f"{op} with {(a if isinstance(a, Opaque) else b).desc}")
        if isinstance(a, Choice):
            return self.merge(a.c, self.binop(op, a.a, b), self.binop(op, a.b, b))
        if isinstance(b, Choice):
            return self.merge(b.c, self.binop(op, a, b.a), self.binop(op, a, b.b))
        if isinstance(a, Instance) or isinstance(b, Instance):
            n = self.DUNDER[op]
            if isinstance(a, Instance) and a.cls.lookup(f"__{n}__"):
                r = self.call(self.getattr(a, f"__{n}__"), [b], {})
                if r is not NOTIMPL:
                    return r
            if isinstance(b, Instance) and b.cls.lookup(f"__r{n}__"):
                r = self.call(self.getattr(b, f"__r{n}__"), [a], {})
                if r is not NOTIMPL:
                    return r
            if isinstance(a, Instance) and a.cls.kind == "namedtuple" and op == "Add":
                return self.binop(op, tuple(self.iterate(a)), b)
            if (isinstance(a, Instance) and a.cls.opaque_base) or (isinstance(b, Instance) and b.cls.opaque_base):
                raise Unsupported(f"operator {op} on {a} and {b}")
            pyraise("TypeError", f"unsupported operand types for {op}")

        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.lib.arr_binop(self, op, a, b)
        if isinstance(a, T) or isinstance(b, T):
            if not (is_scalar(a) and is_scalar(b)):
                if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                    raise Unsupported("symbolic sequence repetition")
                pyraise("TypeError", f"unsupported operand types for {op}")
            r = self.lib.arr_binop(self, op, a, b)
            return r.item()
        try:
            if op == "Add":
                if isinstance(a, Gen) or isinstance(b, Gen):
                    pyraise("TypeError", "unsupported operand")
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "Div":
                if not is_scalar(a) or not is_scalar(b):
                    pyraise("TypeError", "unsupported operand")
                if b == 0:
                    pyraise("ZeroDivisionError", "division by zero")
                return Fraction(a) / Fraction(b)
            if op == "FloorDiv":
                if b == 0:
                    pyraise("ZeroDivisionError", "division by zero")
                r = a // b
                return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
            if op == "Mod":
                if isinstance(a, str):
                    v = tuple(b) if isinstance(b, tuple) else (b,)
                    try:
                        return a % tuple(float(x) if isinstance(x, Fraction) else x if isinstance(x, (int, str)) else self.fmt(x) for x in v)
                    except (TypeError, ValueError):
                        return "<fmt>"
                if b == 0:
                    pyraise("ZeroDivisionError", "modulo by zero")
                return a % b
            if op == "Pow":
                if isinstance(a, int) and isinstance(b, int) and b >= 0:
                    return a**b
                r = tm.pw(const(a), const(b))
                if r.op == "c":
                    return Fraction(r.data)
                return r
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
        except TypeError as ex:
            pyraise("TypeError", str(ex))
        if op == "MatMult":
            pyraise("TypeError", "unsupported operand for @")
        raise Unsupported(f"binop {op} on {type(a).__name__}, {type(b).__name__}")

    def e_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env, mod)
            v = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            t = self.truth(v)
            if t in (False, tm.FALSE):
                return False
            if t not in (True, tm.TRUE):
                acc = t if acc is None else tm.and_(acc, t)
            left = right
        return True if acc is None else acc

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            if op == "IsNot":
                return tm.not_(r) if isinstance(r, T) else not r
            return r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "NotIn":
                return tm.not_(r) if isinstance(r, T) else not r
            return r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported(f"comparison with {a if isinstance(a, Opaque) else b}")
        if isinstance(a, Choice):
            return self.merge(a.c, self.compare(op, a.a, b), self.compare(op, a.b, b))
        if isinstance(b, Choice):
            return self.merge(b.c, self.compare(op, a, b.a), self.compare(op, a, b.b))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op in ("Eq", "NotEq") and not all(isinstance(x, (Arr, int, Fraction, T, list, tuple)) for x in (a, b)):
                if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                    return op == "NotEq"
            return self.lib.arr_compare(self, op, a, b)
        if isinstance(a, Instance) or isinstance(b, Instance):
            n = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[op]
            if isinstance(a, Instance) and a.cls.lookup(f"__{n}__"):
                r = self.call(self.getattr(a, f"__{n}__"), [b], {})
                if r is not NOTIMPL:
                    return r
            if op == "NotEq" and isinstance(a, Instance) and a.cls.lookup("__eq__"):
                return self.unop("Not", self.compare("Eq", a, b))
            if op in ("Eq", "NotEq"):
                if isinstance(a, Instance) and isinstance(b, Instance) and a.cls is b.cls and a.cls.fields:
                    r = True
                    for f in a.cls.fields:
                        t = self.truth(self.compare("Eq", a.attrs[f[0]], b.attrs[f[0]]))
                        r = _and(r, t)
                    return r if op == "Eq" else self.unop("Not", r)
                return (a is b) == (op == "Eq")
            raise Unsupported("ordering of objects")
        if isinstance(a, T) or isinstance(b, T):
            if not (is_scalar(a) and is_scalar(b)):
                return op == "NotEq"
            return self.lib.arr_compare(self, op, a, b).item()
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op in ("Eq", "NotEq"):
            if type(a) is not type(b) or len(a) != len(b):
                return op == "NotEq"
            r = True
            for x, y in zip(a, b):
                r = _and(r, self.truth(self.compare("Eq", x, y)))
            return r if op == "Eq" else self.unop("Not", r)
        try:
            if op == "Eq":
                return bool(a == b)
            if op == "NotEq":
                return bool(a != b)
            if op == "Lt":
                return bool(a < b)
            if op == "LtE":
                return bool(a <= b)
            if op == "Gt":
                return bool(a > b)
            if op == "GtE":
                return bool(a >= b)
        except TypeError as ex:
            pyraise("TypeError", str(ex))
        raise Unsupported(f"compare {op}")

    def is_(self, a, b):
        if isinstance(a, Choice):
            x, y = self.is_(a.a, b), self.is_(a.b, b)
            return tm.sel(a.c, num(x), num(y))
        if isinstance(b, Choice):
            return self.is_(b, a)
        if a is b:
            return True
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is None or b is None:
                raise Unsupported("identity of opaque value")
            return False
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return False
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, DType) and isinstance(b, DType):
            return a == b
        return False

    def contains(self, c, x):
        if isinstance(c, MappingV):
            c = c.d
        if isinstance(c, dict):
            return self.hashable(x) in c
        if isinstance(c, str):
            if not isinstance(x, str):
                pyraise("TypeError", "in <string> requires string")
            return x in c
        if isinstance(c, PySet):
            c = c.items
        if isinstance(c, Opaque):
            raise Unsupported("membership in opaque")
        r = False
        for y in self.iterate(c):
            t = True if x is y else self.truth(self.compare("Eq", x, y))
            if t in (True, tm.TRUE):
                return True
            if isinstance(t, T) and t is not tm.FALSE:
                r = t if r is False else tm.or_(r, t)
        return r

    def e_Starred(self, e, env, mod):
        raise Unsupported("starred")

    def e_Call(self, e, env, mod):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            ee = env
            while ee is not None and ee.self_ is None:
                ee = ee.parent
            if ee is None:
                raise Unsupported("super")
            return SuperV(ee.cls, ee.self_)
        f = self.ev(e.func, env, mod)
        args = self.elts(e.args, env, mod)
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if isinstance(v, MappingV):
                    v = v.d
                if not isinstance(v, dict):
                    raise Unsupported("** of non-dict")
                for kk, vv in v.items():
                    if kk in kwargs:
                        pyraise("TypeError", f"multiple values for keyword {kk}")
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    pyraise("TypeError", f"multiple values for keyword {k.arg}")
                kwargs[k.arg] = v
        if self.stack:
            self.stack[-1][2] = e.lineno
        return self.call(f, args, kwargs)

    def e_Attribute(self, e, env, mod):
        return self.getattr(self.ev(e.value, env, mod), e.attr)

    def e_Subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        if _is_type(o):
            return Opaque("generic alias") if not isinstance(o, Class) else o
        k = self.ev(e.slice, env, mod)
        return self.getitem(o, k)

    def e_Slice(self, e, env, mod):
        f = lambda x: None if x is None else self.ev(x, env, mod)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_ListComp(self, e, env, mod):
        out = []
        self.comp(e.generators, 0, Env(env), mod, lambda en: out.append(self.ev(e.elt, en, mod)))
        return self.new(out)

    def e_SetComp(self, e, env, mod):
        return self.mkset(self.e_ListComp(e, env, mod))

    def e_GeneratorExp(self, e, env, mod):
        return Gen(self.e_ListComp(e, env, mod))

    def e_DictComp(self, e, env, mod):
        out = {}

        def put(en):
            k = self.hashable(self.ev(e.key, en, mod))
            out[k] = self.ev(e.value, en, mod)

        self.comp(e.generators, 0, Env(env), mod, put)
        return self.new(out)

    def comp(self, gens, i, env, mod, emit):
        if i == len(gens):
            emit(env)
            return
        g = gens[i]
        for x in self.iterate(self.ev(g.iter, env, mod)):
            # closures created in a comprehension share the scope (late binding)
            self.assign(g.target, x, env, mod)
            ok = True
            for c in g.ifs:
                t = self.truth(self.ev(c, env, mod))
                if t in (False, tm.FALSE):
                    ok = False
                    break
                if t not in (True, tm.TRUE):
                    raise Unsupported("symbolic comprehension filter")
            if ok:
                self.comp(gens, i + 1, env, mod, emit)

    def e_Yield(self, e, env, mod):
        ee = env
        while ee is not None and "$yield" not in ee.vars:
            ee = ee.parent
        if ee is None:
            raise Unsupported("yield")
        v = self.ev(e.value, env, mod) if e.value is not None else None
        if self.path:
            raise Unsupported("yield under a symbolic condition")
        lst = ee.vars["$yield"]
        lst.append(v)
        if len(lst) > 400:
            raise Unsupported("long generator")
        return None

    def e_YieldFrom(self, e, env, mod):
        for v in self.iterate(self.ev(e.value, env, mod)):
            env.lookup("$yield").append(v)
        return None

    # ---------------------------------------------------------------- helpers
    def int_(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Arr) and v.size == 1 and v.kind in "ib":
            if v.traced:
                pyraise("TypeError", "a traced array cannot be interpreted as an integer")
            v = v.item()
        if isinstance(v, T):
            if v.op == "b":
                return int(v.data)
            if v.op == "c" and v.data.denominator == 1:
                return int(v.data)
            raise Unsupported("symbolic integer")
        if isinstance(v, Fraction):
            pyraise("TypeError", "float object cannot be interpreted as an integer")
        if isinstance(v, Opaque):
            raise Unsupported("opaque integer")
        pyraise("TypeError", f"{type(v).__name__} cannot be interpreted as an integer")

    def truth(self, v, quiet=False):
        """Python truth value; quiet: the condition of a structured control flow primitive, which is not converted"""
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, T):
            if v.op == "b":
                return v.data
            t = tm.as_bool(v)
            if t.op != "b" and not quiet:
                self.converted(t)
            return t.data if t.op == "b" else t
        if isinstance(v, (int, Fraction, str, tuple, list, dict, range)):
            return bool(v)
        if isinstance(v, PySet):
            return bool(v.items)
        if isinstance(v, MappingV):
            return bool(v.d)
        if isinstance(v, Arr):
            if v.size != 1:
                pyraise("ValueError", "truth value of an array with more than one element is ambiguous")
            if v.traced and not quiet:
                pyraise("TypeError", "attempted boolean conversion of a traced array")
            return self.truth(v.item(), quiet)
        if isinstance(v, Opaque):
            raise Unsupported(f"truth of {v}")
        if isinstance(v, Choice):
            a, b = self.truth(v.a), self.truth(v.b)
            return self.truth(tm.sel(v.c, num(a), num(b)))
        if isinstance(v, Instance):
            if v.cls.lookup("__bool__"):
                return self.truth(self.call(self.getattr(v, "__bool__"), [], {}))
            if v.cls.lookup("__len__"):
                return self.truth(self.call(self.getattr(v, "__len__"), [], {}))
            if v.cls.kind == "namedtuple":
                return bool(v.cls.fields)
            return True
        return True

    def converted(self, t):
        if self.tracing and isinstance(t, T) and t.op not in ("b", "c"):
            self.event("traced-conversion", t, tuple(s[1] for s in self.stack))

    def iterate(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Gen):
            return v.drain()
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, MappingV):
            return list(v.d)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, PySet):
            return list(v.items)
        if isinstance(v, Arr):
            if v.ndim == 0:
                pyraise("TypeError", "iteration over a 0-d array")
            return [Arr(_box(v.a[i]), v.kind) for i in range(v.a.shape[0])]
        if isinstance(v, Instance):
            if v.cls.kind == "namedtuple":
                return [v.attrs[f[0]] for f in v.cls.fields]
            if v.cls.lookup("__iter__"):
                return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}))
            if v.cls.opaque_base:
                raise Unsupported("iteration over object")
            pyraise("TypeError", f"{v.cls.name} object is not iterable")
        if isinstance(v, Opaque):
            raise Unsupported(f"iteration over {v}")
        if isinstance(v, Choice):
            a, b = self.iterate(v.a), self.iterate(v.b)
            if len(a) == len(b):
                return [self.merge(v.c, x, y) for x, y in zip(a, b)]
            raise Unsupported("iteration over gated value")
        pyraise("TypeError", f"{type(v).__name__} object is not iterable")

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(c, bool):
            return a if c else b
        if c is tm.TRUE:
            return a
        if c is tm.FALSE:
            return b
        num_like = (Arr, T, int, Fraction)
        if isinstance(a, num_like) and isinstance(b, num_like):
            if not isinstance(a, Arr) and not isinstance(b, Arr):
                if type(a) is type(b) and not isinstance(a, T) and a == b:
                    return a
                x, y = num(a), num(b)
                return tm.sel(c, x, y)
            x, y = as_arr(a), as_arr(b)
            if x.shape == y.shape:
                k = pkind(x.kind, y.kind)
                out = np.empty(x.a.shape, dtype=object)
                for i in np.ndindex(*x.a.shape):
                    p, q = x.a[i], y.a[i]
                    out[i] = tm.sel(c, p, q)
                return Arr(out, k)
            return Choice(c, a, b)
        if type(a) is type(b):
            if isinstance(a, (tuple, list)) and len(a) == len(b):
                return type(a)(self.merge(c, x, y) for x, y in zip(a, b))
            if isinstance(a, dict) and list(a) == list(b):
                return {k: self.merge(c, a[k], b[k]) for k in a}
            if isinstance(a, (str, DType)) and a == b:
                return a
            if isinstance(a, Instance) and a.cls is b.cls and (a.cls.kind or a.cls.pytree) and list(a.attrs) == list(b.attrs):
                r = Instance(a.cls)
                r.attrs = {k: self.merge(c, a.attrs[k], b.attrs[k]) for k in a.attrs}
                return r
            if isinstance(a, range) and a == b:
                return a
            if isinstance(a, (Func, UFun, Bound, PartialV)):
                fa, fb = a, b
                return Builtin("gated-call", lambda I, *args, **kw: I.merge(c, I.call(fa, list(args), dict(kw)), I.call(fb, list(args), dict(kw))))
        if callable_(a) and callable_(b):
            fa, fb = a, b
            return Builtin("gated-call", lambda I, *args, **kw: I.merge(c, I.call(fa, list(args), dict(kw)), I.call(fb, list(args), dict(kw))))
        return Choice(c, a, b)

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name, default=MISSING):
        if isinstance(o, Mod):
            if name in o.attrs and o.attrs[name] is not MISSING:
                return o.attrs[name]
            sub = f"{o.name}.{name}"
            if o.name == self.package or o.name.startswith(self.package + "."):
                if self.exists(sub):
                    return self.import_module(sub)
                if default is not MISSING:
                    return default
                pyraise("AttributeError", f"module {o.name} has no attribute {name}")
            if self.lib.has_module(sub):
                return self.lib.module(sub)
            return Opaque(f"{o.name}.{name}")
        if isinstance(o, Instance):
            return self.inst_getattr(o, name, default)
        if isinstance(o, Class):
            for c in o.mro():
                if name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, ClsMeth):
                        return Bound(v.f, o)
                    if isinstance(v, StatMeth):
                        return v.f
                    return v
            if name == "__name__" or name == "__qualname__":
                return o.name
            r = self.lib.class_attr(self, o, name)
            if r is not MISSING:
                return r
            if o.opaque_base:
                return Opaque(f"{o.name}.{name}")
            if default is not MISSING:
                return default
            pyraise("AttributeError", f"type object {o.name} has no attribute {name}")
        if isinstance(o, Arr):
            return self.lib.arr_attr(self, o, name)
        if isinstance(o, SuperV):
            mro = o.self_.cls.mro() if isinstance(o.self_, Instance) else o.self_.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1 :]:
                if name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, (Func, Builtin)):
                        return Bound(v, o.self_)
                    if isinstance(v, Prop):
                        return self.call(v.fget, [o.self_], {})
                    if isinstance(v, ClsMeth):
                        return Bound(v.f, o.self_ if isinstance(o.self_, Class) else o.self_.cls)
                    return v
            if name in ("__init__", "__post_init__", "__init_subclass__"):
                return Builtin("object.__init__", lambda I, *a, **k: None)
            if name == "__setattr__":
                return Builtin("setattr", lambda I, n, v: o.self_.attrs.__setitem__(n, v))
            return Opaque(f"super().{name}")
        if isinstance(o, (Func, Builtin, PartialV, UFun)):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return getattr(o, "name", "partial")
            if name == "__doc__":
                return ""
            if isinstance(o, PartialV) and name in ("func", "args", "keywords"):
                return {"func": o.func, "args": o.args, "keywords": o.kwargs}[name]
            if isinstance(o, Builtin):
                m = self.lib.ufunc_method(o, name)
                return m if m is not None else Opaque(f"{o.name}.{name}")
            if default is not MISSING:
                return default
            pyraise("AttributeError", f"function has no attribute {name}")
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name, default)
        if isinstance(o, Opaque):
            return Opaque(f"{o.desc}.{name}")
        if isinstance(o, Choice):
            return self.merge(o.c, self.getattr(o.a, name, default), self.getattr(o.b, name, default))
        r = self.lib.py_attr(self, o, name)
        if r is not MISSING:
            return r
        if default is not MISSING:
            return default
        if isinstance(o, (T, int, Fraction, str, list, tuple, dict, type(None), bool)):
            pyraise("AttributeError", f"{type(o).__name__} object has no attribute {name}")
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def inst_getattr(self, o, name, default=MISSING):
        if name in o.attrs:
            return o.attrs[name]
        for c in o.cls.mro():
            if name in c.attrs:
                v = c.attrs[name]
                if isinstance(v, Prop):
                    return self.call(v.fget, [o], {})
                if isinstance(v, ClsMeth):
                    return Bound(v.f, o.cls)
                if isinstance(v, StatMeth):
                    return v.f
                if isinstance(v, (Func, Builtin)):
                    return Bound(v, o)
                return v
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return o.attrs
        r = self.lib.inst_attr(self, o, name)
        if r is not MISSING:
            return r
        if o.cls.lookup("__getattr__"):
            return self.call(self.getattr(o, "__getattr__"), [name], {})
        if default is not MISSING:
            return default
        if o.cls.opaque_base:
            return Opaque(f"{o.cls.name}().{name}")
        pyraise("AttributeError", f"{o.cls.name} object has no attribute {name}")

    def setattr(self, o, name, v):
        if isinstance(o, Instance):
            if o.cls.frozen:
                pyraise("FrozenInstanceError", name)
            if o.cls.lookup("__setattr__"):
                self.call(self.getattr(o, "__setattr__"), [name, v], {})
                return
            o.attrs[name] = v
            self.event("setattr", id(o), name)
        elif isinstance(o, (Func, Builtin, PartialV, UFun)):
            o.attrs[name] = v
        elif isinstance(o, Class):
            o.attrs[name] = v
        elif isinstance(o, Mod):
            o.attrs[name] = v
            self.event("global-write", o.name, name)
        elif isinstance(o, (Arr, T, int, Fraction, str, tuple)):
            pyraise("AttributeError", f"cannot set {name}")
        else:
            raise Unsupported("setattr")

    def getitem(self, o, k):
        if isinstance(o, Arr):
            return self.lib.arr_getitem(self, o, k)
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                f = lambda x: None if x is None else self.int_(x)
                return o[slice(f(k.start), f(k.stop), f(k.step))]
            if isinstance(k, (Arr, T)) and not isinstance(k, bool):
                t = k.item() if isinstance(k, Arr) and k.size == 1 else k
                if isinstance(t, T) and t.op == "sel":
                    return lift_index(t, lambda i: self.getitem(o, i), self.merge)
            if isinstance(k, (str, tuple, type(None), Fraction)):
                pyraise("TypeError", "indices must be integers or slices")
            i = self.int_(k)
            try:
                return o[i]
            except IndexError:
                pyraise("IndexError", "index out of range")
        if isinstance(o, MappingV):
            o = o.d
        if isinstance(o, dict):
            kk = self.hashable(k)
            if kk not in o:
                pyraise("KeyError", str(k))
            return o[kk]
        if isinstance(o, Instance):
            if o.cls.kind == "namedtuple":
                return self.getitem(tuple(self.iterate(o)), k)
            if o.cls.lookup("__getitem__"):
                return self.call(self.getattr(o, "__getitem__"), [k], {})
        if isinstance(o, Opaque):
            return Opaque(o.desc + "[]")
        if isinstance(o, Choice):
            return self.merge(o.c, self.getitem(o.a, k), self.getitem(o.b, k))
        if isinstance(o, AtV):
            return AtV(o.arr, k)
        if isinstance(o, (T, int, Fraction, type(None), Func)):
            pyraise("TypeError", f"{type(o).__name__} object is not subscriptable")
        if isinstance(o, Gen):
            pyraise("TypeError", "generator object is not subscriptable")
        if _is_type(o):
            return Opaque("generic alias")
        raise Unsupported(f"subscript of {type(o).__name__}")

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return self.call_builtin(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + args, kwargs)
        if isinstance(f, PartialV):
            return self.call(f.func, list(f.args) + args, {**f.kwargs, **kwargs})
        if isinstance(f, UFun):
            return self.lib.call_ufun(self, f, args, kwargs)
        if isinstance(f, Class):
            return self.lib.instantiate(self, f, args, kwargs)
        if isinstance(f, Instance):
            m = f.cls.lookup("__call__")
            if m is None:
                if f.cls.opaque_base:
                    return Opaque(f"call of {f.cls.name}")
                pyraise("TypeError", f"{f.cls.name} object is not callable")
            return self.lib.call_instance(self, f, m, args, kwargs)
        if isinstance(f, Opaque):
            return Opaque(f"{f.desc}()")
        if isinstance(f, Choice):
            return self.merge(f.c, self.call(f.a, list(args), kwargs), self.call(f.b, list(args), kwargs))
        if isinstance(f, Prop) and len(args) == 1:
            return self.call(f.fget, args, kwargs)
        if isinstance(f, DType):
            if f.fixed:
                self.event("narrow", f.name, tuple(s[1] for s in self.stack))
            return self.lib.cast(as_arr(args[0]), f)
        if isinstance(f, (int, Fraction, T, str, list, tuple, dict, Arr, type(None), Mod)):
            pyraise("TypeError", f"{type(f).__name__} object is not callable")
        raise Unsupported(f"call of {type(f).__name__}")

    def call_builtin(self, f, args, kwargs):
        if f.sig is None:
            try:
                f.sig = inspect.signature(f.fn)
            except (TypeError, ValueError):
                f.sig = False
        if f.sig:
            try:
                f.sig.bind(self, *args, **kwargs)
            except TypeError as e:
                if str(e).startswith("missing a required") and not f.lenient and all(k in f.sig.parameters for k in kwargs):
                    pyraise("TypeError", f"call of {f.name}: {e}")
                raise Unsupported(f"call of {f.name}: {e}")
        if self.tracing and f.name.startswith("numpy."):
            for x in list(args) + list(kwargs.values()):
                if isinstance(x, T) and x.op not in "bc" or isinstance(x, Arr) and any(isinstance(t, T) and t.op not in "bc" for t in x.flat()):
                    self.event("traced-conversion", x)
        try:
            return f.fn(self, *args, **kwargs)
        except np.exceptions.AxisError as e:
            if any(isinstance(x, Arr) for x in args):
                pyraise("ValueError", f"call of {f.name}: {str(e).split(': ')[-1]}")
            raise

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npo = len(a.posonlyargs)
        vars = {}
        n = len(pos)
        kwargs = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kwargs and i >= npo:
                    pyraise("TypeError", f"{f.name}() got multiple values for argument '{p}'")
                vars[p] = args[i]
            elif i >= npo and p in kwargs:
                vars[p] = kwargs.pop(p)
            else:
                j = i - (n - len(f.defaults))
                if j < 0:
                    pyraise("TypeError", f"{f.name}() missing required positional argument: '{p}'")
                vars[p] = f.defaults[j]
        extra = args[n:]
        if a.vararg:
            vars[a.vararg.arg] = tuple(extra)
        elif extra:
            pyraise("TypeError", f"{f.name}() takes {n} positional arguments but {len(args)} were given")
        for i, k in enumerate(a.kwonlyargs):
            if k.arg in kwargs:
                vars[k.arg] = kwargs.pop(k.arg)
            elif a.kw_defaults[i] is not None:
                vars[k.arg] = f.kwdefaults[i]
            else:
                pyraise("TypeError", f"{f.name}() missing required keyword-only argument: '{k.arg}'")
        if a.kwarg:
            vars[a.kwarg.arg] = kwargs
        elif kwargs:
            pyraise("TypeError", f"{f.name}() got an unexpected keyword argument '{next(iter(kwargs))}'")
        return vars

    def call_func(self, f, args, kwargs):
        if len(self.stack) > 220:
            raise Unsupported("recursion depth")
        vars = self.bind(f, args, kwargs)
        env = Env(f.env, vars)
        env.cls = f.cls if f.cls is not None else f.env.cls if f.env else None
        if f.cls is not None and f.node.args.args:
            env.self_ = vars.get(f.node.args.args[0].arg)
        self.visited[(f.mod.name, f.qual)] = self.visited.get((f.mod.name, f.qual), 0) + 1
        self.stack.append([f.mod.name, f.qual, f.node.lineno])
        save = list(self.path)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.mod)
            if f._gen is None:
                f._gen = _is_generator(f.node)
            if f._gen:
                env.vars["$yield"] = []
                o = self.block(f.node.body, env, f.mod)
                if o.k == "?":
                    raise Unsupported("symbolic control flow in generator")
                return Gen(env.vars["$yield"])
            o = self.block(f.node.body, env, f.mod)
            return self.result(o)
        except InterpRaise as e:
            if e.loc is None:
                e.loc = self.loc()
            raise
        finally:
            self.stack.pop()
            self.path = save

    def result(self, o):
        if o.k == "n":
            return None
        if o.k == "r":
            return o.v
        if o.k == "x":
            raise o.v
        if o.k == "?":
            xa = all(l.k == "x" for l in leaves(o.a))
            xb = all(l.k == "x" for l in leaves(o.b))
            if xa and xb:
                raise next(leaves(o.a)).v
            if xa:
                self.event("raise-when", o.c, next(leaves(o.a)).v)
                return self.result(o.b)
            if xb:
                self.event("raise-when", tm.not_(o.c), next(leaves(o.b)).v)
                return self.result(o.a)
            a = self.result(o.a)
            b = self.result(o.b)
            return self.merge(o.c, a, b)
        raise Unsupported("outcome")


class TypeUnion:
    def __init__(self, types):
        self.types = types


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class AtV:
    def __init__(self, arr, idx=None):
        self.arr, self.idx = arr, idx


class PySet:
    def __init__(self, items):
        self.items = list(items)


class MappingV:
    def __init__(self, d):
        self.d = d


class _NotImpl:
    pass


NOTIMPL = _NotImpl()


def callable_(v):
    return isinstance(v, (Func, Builtin, Bound, PartialV, UFun, Class)) or (isinstance(v, Instance) and v.cls.lookup("__call__") is not None)


def _is_type(v):
    return isinstance(v, Class) or (isinstance(v, Builtin) and v.name.startswith("type:")) or (isinstance(v, Opaque)) or isinstance(v, DType)


def _and(a, b):
    if a is False or b is False or a is tm.FALSE or b is tm.FALSE:
        return False
    if a in (True, tm.TRUE):
        return b
    if b in (True, tm.TRUE):
        return a
    return tm.and_(a, b)


def _box(x):
    if isinstance(x, np.ndarray):
        return x
    b = np.empty((), dtype=object)
    b[()] = x
    return b


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(t.value, t.slice, ast.Load())
    raise Unsupported("augmented target")


def _is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False
