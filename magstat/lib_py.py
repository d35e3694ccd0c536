"""Model of the Python builtins and the standard-library modules used by the package."""
from __future__ import annotations
from fractions import Fraction
import math
import numpy as np

from . import terms as tm
from .terms import T, const
from .values import *
from . import lib_arr as la
from . import lib_jax as lj

A = as_arr
NUM = (bool, int, Fraction, T, Arr)


def B(name, fn):
    return Builtin(name, fn)


def isnum(v):
    return isinstance(v, NUM)


# ------------------------------------------------------------------ types
def is_float(v):
    return isinstance(v, Fraction) or (isinstance(v, T) and not tm.is_bool(v) and not tm.is_key(v))


def isinst(I, v, t):
    from . import interp as ip

    if isinstance(t, tuple):
        rs = [isinst(I, v, x) for x in t]
        return any(rs)
    if isinstance(t, ip.TypeUnion):
        return any(isinst(I, v, x) for x in t.types)
    if t is None:
        return v is None
    if isinstance(v, Choice):
        a, b = isinst(I, v.a, t), isinst(I, v.b, t)
        if a == b:
            return a
        raise Unsupported("isinstance of gated value")
    if isinstance(v, Opaque):
        raise Unsupported(f"isinstance of {v}")
    if isinstance(t, Class):
        if isinstance(v, Instance):
            return v.cls.is_sub(t)
        if isinstance(v, ExcVal):
            return exc_is(v.name, t)
        return False
    if isinstance(t, Builtin) and t.name.startswith("type:"):
        n = t.name[5:]
        if n == "int":
            return isinstance(v, int)
        if n == "bool":
            return isinstance(v, bool) or (isinstance(v, T) and tm.is_bool(v))
        if n == "float":
            return is_float(v)
        if n == "complex":
            return False
        if n == "str":
            return isinstance(v, str)
        if n == "tuple":
            return isinstance(v, tuple) or (isinstance(v, Instance) and v.cls.kind == "namedtuple")
        if n == "list":
            return isinstance(v, list)
        if n == "dict":
            return isinstance(v, dict)
        if n == "set":
            return isinstance(v, ip.PySet)
        if n == "Sequence":
            return isinstance(v, (list, tuple, str, range)) or (isinstance(v, Instance) and v.cls.kind == "namedtuple")
        if n == "Mapping":
            return isinstance(v, (dict, ip.MappingV))
        if n in ("Iterable",):
            return isinstance(v, (list, tuple, str, range, dict, Arr, Gen, ip.PySet))
        if n == "Callable":
            return ip.callable_(v)
        if n == "Array":
            return isinstance(v, Arr)
        if n == "object":
            return True
        if n == "Tracer":
            return I.tracing and isinstance(v, (Arr, T)) and not (isinstance(v, T) and v.op in "bc")
        if n == "Number":
            return isinstance(v, (bool, int, Fraction, T))
        if n == "NoneType":
            return v is None
        if n == "Partial":
            return isinstance(v, PartialV)
    if isinstance(t, DType):
        return False
    if t is None or isinstance(t, (int, Fraction, T, Arr, str, list, dict)):
        pyraise("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")
    raise Unsupported(f"isinstance against {t}")


_EXC = {
    "Exception": "BaseException",
    "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError",
    "LookupError": "Exception",
    "IndexError": "LookupError",
    "KeyError": "LookupError",
    "ValueError": "Exception",
    "TypeError": "Exception",
    "AttributeError": "Exception",
    "FrozenInstanceError": "AttributeError",
    "NameError": "Exception",
    "UnboundLocalError": "NameError",
    "AssertionError": "Exception",
    "RuntimeError": "Exception",
    "RecursionError": "RuntimeError",
    "NotImplementedError": "RuntimeError",
    "OSError": "Exception",
    "NotADirectoryError": "OSError",
    "FileNotFoundError": "OSError",
    "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError",
    "StopIteration": "Exception",
    "Warning": "Exception",
    "UserWarning": "Warning",
    "DeprecationWarning": "Warning",
}
EXC_CLASSES = {}


def exc_class(name):
    if name not in EXC_CLASSES:
        base = [] if name == "BaseException" else [exc_class(_EXC[name])]
        c = Class(name, base, {})
        c.kind = "exc"
        EXC_CLASSES[name] = c
    return EXC_CLASSES[name]


def exc_is(name, typ):
    if isinstance(typ, tuple):
        return any(exc_is(name, t) for t in typ)
    if isinstance(typ, Class):
        if name in EXC_CLASSES or name in _EXC:
            return exc_class(name).is_sub(typ)
        return typ.name in ("Exception", "BaseException")
    raise Unsupported("except clause")


# --------------------------------------------------------------- builtins
def _len(I, v):
    from . import interp as ip

    if isinstance(v, (list, tuple, str, dict, range)):
        return len(v)
    if isinstance(v, ip.MappingV):
        return len(v.d)
    if isinstance(v, ip.PySet):
        return len(v.items)
    if isinstance(v, Arr):
        if v.ndim == 0:
            pyraise("TypeError", "len() of unsized object")
        return v.shape[0]
    if isinstance(v, Instance):
        if v.cls.kind == "namedtuple":
            return len(v.cls.fields)
        if v.cls.lookup("__len__"):
            return I.call(I.getattr(v, "__len__"), [], {})
    if isinstance(v, (Opaque, Choice)):
        raise Unsupported(f"len of {v}")
    pyraise("TypeError", f"object of type {type(v).__name__} has no len()")


def _range(I, *a):
    xs = []
    for x in a:
        if isinstance(x, Arr) or isinstance(x, int):
            xs.append(I.int_(x))
        else:
            xs.append(I.int_(x))
    if len(xs) == 3 and xs[2] == 0:
        pyraise("ValueError", "range() arg 3 must not be zero")
    return range(*xs)


def _zip(I, *its, strict=False):
    ls = [_prefix(I, x) for x in its]
    fin = [len(l) for l in ls if not isinstance(l, Inf)]
    if not fin:
        if not ls:
            return Gen([])
        raise Unsupported("zip of infinite iterators")
    n = min(fin)
    if strict is True and len(set(fin)) > 1:
        pyraise("ValueError", "zip() argument lengths differ")
    return Gen([tuple(l.get(i) if isinstance(l, Inf) else l[i] for l in ls) for i in range(n)])


class Inf:
    """infinite iterator"""

    def __init__(self, get):
        self.get = get


def _prefix(I, x):
    if isinstance(x, Inf):
        return x
    return I.iterate(x)


def _enumerate(I, it, start=0):
    if isinstance(it, Inf):
        raise Unsupported("infinite enumerate")
    s = I.int_(start)
    return Gen([(s + i, x) for i, x in enumerate(I.iterate(it))])


def _map(I, f, *its):
    ls = [_prefix(I, x) for x in its]
    fin = [len(l) for l in ls if not isinstance(l, Inf)]
    n = min(fin)
    return Gen([I.call(f, [l.get(i) if isinstance(l, Inf) else l[i] for l in ls], {}) for i in range(n)])


def _concrete(I, v):
    t = I.truth(v)
    if isinstance(t, bool):
        return t
    raise Unsupported("symbolic condition in a comprehension-like builtin")


def _filter(I, f, it):
    return Gen([x for x in I.iterate(it) if _concrete(I, x if f is None else I.call(f, [x], {}))])


def _sum(I, it, start=0):
    r = start
    for x in I.iterate(it):
        r = I.binop("Add", r, x)
    return r


def _minmax(which):
    def f(I, *a, key=None, default=MISSING):
        xs = I.iterate(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if default is not MISSING:
                return default
            pyraise("ValueError", f"{which}() arg is an empty sequence")
        best = xs[0]
        kb = best if key is None else I.call(key, [best], {})
        for x in xs[1:]:
            kx = x if key is None else I.call(key, [x], {})
            c = I.truth(I.compare("Lt" if which == "min" else "Gt", kx, kb))
            if c is True:
                best, kb = x, kx
            elif c is not False:
                best, kb = I.merge(c, x, best), I.merge(c, kx, kb)
        return best

    return f


def _abs(I, v):
    if isinstance(v, (int, Fraction)):
        return abs(v)
    if isinstance(v, T):
        return tm.fabs(tm.as_num(v))
    if isinstance(v, Arr):
        return la.unary(lambda t: tm.fabs(t), v.kind)(I, v)
    if isinstance(v, Instance) and v.cls.lookup("__abs__"):
        return I.call(I.getattr(v, "__abs__"), [], {})
    raise Unsupported("abs")


def _all(I, it):
    r = True
    for x in I.iterate(it):
        t = I.truth(x)
        if t is False:
            return False
        r = _and(r, t)
    return r


def _and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    return tm.and_(num(a), num(b))


def _any(I, it):
    r = False
    for x in I.iterate(it):
        t = I.truth(x)
        if t is True:
            return True
        if t is False:
            continue
        r = t if r is False else tm.or_(num(r), num(t))
    return r


def _callable(I, v):
    from . import interp as ip

    if isinstance(v, Opaque):
        raise Unsupported("callable of opaque")
    return ip.callable_(v)


def _getattr(I, o, name, default=MISSING):
    try:
        return I.getattr(o, name, default)
    except InterpRaise as e:
        if default is not MISSING and e.name == "AttributeError":
            return default
        raise


def _hasattr(I, o, name):
    try:
        r = I.getattr(o, name)
    except InterpRaise as e:
        if e.name == "AttributeError":
            return False
        raise
    if isinstance(r, Opaque) and not isinstance(o, Opaque):
        raise Unsupported("hasattr of opaque base")
    return True


def _setattr(I, o, name, v):
    I.setattr(o, name, v)


def _tuple(I, it=()):
    return tuple(I.iterate(it))


def _list(I, it=()):
    return I.new(list(I.iterate(it)))


def _dict(I, *a, **kw):
    from . import interp as ip

    d = {}
    if a:
        x = a[0]
        if isinstance(x, ip.MappingV):
            x = x.d
        if isinstance(x, dict):
            d.update(x)
        else:
            for p in I.iterate(x):
                k, v = I.iterate(p)
                d[I.hashable(k)] = v
    d.update(kw)
    return I.new(d)


def _set(I, it=()):
    return I.mkset(I.iterate(it))


def _int(I, v=0, base=None):
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            pyraise("ValueError", "invalid literal for int()")
    if isinstance(v, Arr):
        if v.size != 1:
            pyraise("TypeError", "only length-1 arrays can be converted")
        t = v.item()
        if t.op in ("c",):
            return int(t.data)
        I.converted(t)
        return Arr(la.trunc(tm.as_num(t)), "i")
    if isinstance(v, T):
        return _int(I, Arr(v))
    raise Unsupported("int()")


def _float(I, v=0):
    if isinstance(v, bool) or isinstance(v, int):
        return Fraction(int(v))
    if isinstance(v, Fraction):
        return v
    if isinstance(v, str):
        if v in ("inf", "infinity"):
            return tm.INF
        if v == "-inf":
            return tm.neg(tm.INF)
        if v == "nan":
            return tm.NAN
        return Fraction(v)
    if isinstance(v, Arr):
        if v.size != 1:
            pyraise("TypeError", "only length-1 arrays can be converted")
        t = tm.as_num(v.item())
        I.converted(t)
        return t.data if t.op == "c" else t
    if isinstance(v, T):
        I.converted(v)
        return tm.as_num(v)
    if v is None:
        pyraise("TypeError", "float() argument must be a string or a real number")
    raise Unsupported("float()")


def _bool(I, v=False):
    t = I.truth(v)
    return t


def _str(I, v=""):
    return I.fmt(v) if not isinstance(v, str) else v


def _type(I, v, *rest):
    if rest:
        raise Unsupported("type()")
    if isinstance(v, Instance):
        return v.cls
    m = {bool: "bool", int: "int", Fraction: "float", str: "str", list: "list", tuple: "tuple", dict: "dict", T: "float", Arr: "Array", type(None): "NoneType"}
    n = m.get(type(v))
    if n is None:
        raise Unsupported("type()")
    return I.builtins.get(n, TYPES.get(n))


def _sorted(I, it, key=None, reverse=False):
    xs = I.iterate(it)
    ks = [x if key is None else I.call(key, [x], {}) for x in xs]
    if all(isinstance(k, str) for k in ks) or all(isinstance(k, (int, Fraction)) for k in ks):
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
        return [xs[i] for i in order]
    raise Unsupported("sorted")


def _iter(I, v):
    if isinstance(v, (Gen, Inf)):
        return v
    return Gen(I.iterate(v))


def _next(I, g, default=MISSING):
    if not isinstance(g, Gen):
        raise Unsupported("next of non-iterator")
    I.mutate(g)
    if g.pos < len(g.items):
        g.pos += 1
        return g.items[g.pos - 1]
    if default is not MISSING:
        return default
    pyraise("StopIteration")


def _round(I, v, n=None):
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return round(v) if n is None else round(v, I.int_(n))
    raise Unsupported("round")


def _pow(I, a, b, m=None):
    return I.binop("Pow", a, b)


def _divmod(I, a, b):
    return (I.binop("FloorDiv", a, b), I.binop("Mod", a, b))


def _reversed(I, v):
    return Gen(list(reversed(I.iterate(v))))


def _print(I, *a, **kw):
    I.event("io", "print")
    return None


def _id(I, v):
    return id(v)


def _io(name):
    def f(I, *a, **kw):
        I.event("io", name)
        return Opaque(name + "()")

    return f


TYPES = {}


def typ(name, fn=None):
    if name not in TYPES:
        def bad(I, *a, **k):
            raise Unsupported(f"instantiating {name}")

        TYPES[name] = Builtin("type:" + name, fn or bad)
    return TYPES[name]


for _n, _f in dict(int=_int, float=_float, bool=_bool, str=_str, tuple=_tuple, list=_list, dict=_dict, set=_set, type=_type).items():
    typ(_n, _f)
typ("frozenset", _set)
typ("object", lambda I: Instance(Class("object", [], {})))
TYPES["object"].attrs["__setattr__"] = B("object.__setattr__", lambda I, o, n, v: o.attrs.__setitem__(n, v))
TYPES["object"].attrs["__new__"] = B("object.__new__", lambda I, c, *a: Instance(c))
TYPES["object"].attrs["__init__"] = B("object.__init__", lambda I, *a: None)
TYPES["dict"].attrs["fromkeys"] = B("dict.fromkeys", lambda I, ks, v=None: {I.hashable(k): v for k in I.iterate(ks)})
for _n in ("Array", "Sequence", "Mapping", "Iterable", "Callable", "complex", "Number", "NoneType", "bytes"):
    typ(_n)


def python_builtins(I):
    from . import interp as ip

    b = {n: TYPES[n] for n in ("int", "float", "bool", "str", "tuple", "list", "dict", "set", "frozenset", "type", "object", "complex", "bytes")}
    fs = dict(
        len=_len, range=_range, zip=_zip, enumerate=_enumerate, map=_map, filter=_filter, sum=_sum,
        min=_minmax("min"), max=_minmax("max"), abs=_abs, all=_all, any=_any, callable=_callable,
        getattr=_getattr, setattr=_setattr, hasattr=_hasattr, sorted=_sorted, iter=_iter, next=_next,
        round=_round, pow=_pow, divmod=_divmod, reversed=_reversed, print=_print, id=_id,
        isinstance=lambda I, v, t: isinst(I, v, t),
        issubclass=lambda I, c, t: c.is_sub(t),
        property=lambda I, fget=None, fset=None, *a, **k: Prop(fget),
        classmethod=lambda I, f: ClsMeth(f),
        staticmethod=lambda I, f: StatMeth(f),
        repr=lambda I, v: _str(I, v),
        vars=lambda I, o: o.attrs,
        slice=lambda I, *a: slice(*a),
        hash=lambda I, v: hash(v),
        ord=lambda I, v: ord(v),
        chr=lambda I, v: chr(v),
    )
    for n, f in fs.items():
        b[n] = B(n, f)
    for n in ("open", "input", "exec", "eval", "compile", "__import__", "globals", "locals"):
        b[n] = B(n, _io(n))
    for n in list(_EXC) + ["BaseException"]:
        b[n] = exc_class(n)
    b["NotImplemented"] = ip.NOTIMPL
    b["Ellipsis"] = Ellipsis
    b["__debug__"] = True
    b["__name__"] = "__main__"
    return b


# ---------------------------------------------------------------- functools
def partial_(I, f, *args, **kwargs):
    if isinstance(f, PartialV):
        return PartialV(f.func, list(f.args) + list(args), {**f.kwargs, **kwargs})
    return PartialV(f, args, kwargs)


def reduce_(I, f, it, init=MISSING):
    xs = I.iterate(it)
    if init is MISSING:
        if not xs:
            pyraise("TypeError", "reduce() of empty iterable with no initial value")
        r, xs = xs[0], xs[1:]
    else:
        r = init
    for x in xs:
        r = I.call(f, [r, x], {})
    return r


def wraps_(I, wrapped, *a, **k):
    def deco(I, f):
        if isinstance(f, (Func, Builtin, PartialV, UFun)):
            f.attrs["__wrapped__"] = wrapped
            n = getattr(wrapped, "name", None)
            if n:
                f.attrs["__name__"] = n
        return f

    return B("wraps", deco)


def identity_deco(I, f=None, *a, **k):
    if f is None:
        return B("deco", lambda I, g: g)
    return f


# ------------------------------------------------------------------ itertools
def _chain(I, *its):
    out = []
    for k, x in enumerate(its):
        if isinstance(x, Inf):
            m = len(out)
            pre = list(out)
            return Inf(lambda i: pre[i] if i < m else x.get(i - m))
        out += I.iterate(x)
    return Gen(out)


def _repeat(I, v, times=None):
    if times is None:
        return Inf(lambda i: v)
    return Gen([v] * I.int_(times))


def _count(I, start=0, step=1):
    return Inf(lambda i: I.binop("Add", start, I.binop("Mult", i, step)))


def _cycle(I, it):
    xs = I.iterate(it)
    return Inf(lambda i: xs[i % len(xs)])


def _product(I, *its, repeat=1):
    import itertools

    return Gen(list(itertools.product(*[I.iterate(x) for x in its], repeat=I.int_(repeat))))


def _combos(name):
    import itertools

    def f(I, it, r=None):
        g = getattr(itertools, name)
        xs = I.iterate(it)
        return Gen(list(g(xs, I.int_(r) if r is not None else len(xs))))

    return f


def _islice(I, it, *a):
    a = [None if x is None else I.int_(x) for x in a]
    s = slice(*a)
    if isinstance(it, Inf):
        return Gen([it.get(i) for i in range(s.start or 0, s.stop, s.step or 1)])
    return Gen(I.iterate(it)[s])


def _accumulate(I, it, func=None, initial=None):
    out = []
    acc = initial
    if initial is not None:
        out.append(initial)
    for x in I.iterate(it):
        if acc is None:
            acc = x
        else:
            acc = I.binop("Add", acc, x) if func is None else I.call(func, [acc, x], {})
        out.append(acc)
    return Gen(out)


def _pairwise(I, it):
    xs = I.iterate(it)
    return Gen(list(zip(xs, xs[1:])))


def _starmap(I, f, it):
    return Gen([I.call(f, I.iterate(x), {}) for x in I.iterate(it)])


def _zip_longest(I, *its, fillvalue=None):
    ls = [I.iterate(x) for x in its]
    n = max(map(len, ls)) if ls else 0
    return Gen([tuple(l[i] if i < len(l) else fillvalue for l in ls) for i in range(n)])


# ---------------------------------------------------------------- inspect
EMPTY = Class("_empty", [], {})
KINDS = ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD")
PARCLS = Class("Parameter", [], {"empty": EMPTY, **{k: i for i, k in enumerate(KINDS)}})


def _param(name, kind=1, default=EMPTY):
    p = Instance(PARCLS)
    p.attrs.update(name=name, kind=kind, default=default, annotation=EMPTY)
    return p


def signature_params(I, f):
    """the parameters of a callable, as inspect.signature sees them"""
    if isinstance(f, Bound):
        return signature_params(I, f.func)[1:]
    attrs = getattr(f, "attrs", {})
    if "__signature__" in attrs:
        s = attrs["__signature__"]
        if isinstance(s, Instance) and s.cls is SIGCLS:
            return list(s.attrs["parameters"].d.values())
        raise Unsupported("signature")
    if "__wrapped__" in attrs:
        return signature_params(I, attrs["__wrapped__"])
    if isinstance(f, Func):
        a = f.node.args
        pos = a.posonlyargs + a.args
        k0 = len(pos) - len(f.defaults)
        ps = [_param(x.arg, 0 if i < len(a.posonlyargs) else 1, f.defaults[i - k0] if i >= k0 else EMPTY) for i, x in enumerate(pos)]
        if a.vararg:
            ps.append(_param(a.vararg.arg, 2))
        ps += [_param(x.arg, 3, EMPTY if a.kw_defaults[i] is None else f.kwdefaults[i]) for i, x in enumerate(a.kwonlyargs)]
        if a.kwarg:
            ps.append(_param(a.kwarg.arg, 4))
        return ps
    if isinstance(f, UFun):
        n = len(f.params)
        return [_param(p, 3 if p in f.kwonly else 1, f.defvals[p] if p in f.defvals else None if i >= n - f.defaults else EMPTY) for i, p in enumerate(f.params)]
    if isinstance(f, PartialV):
        out, kwonly = [], False
        for p in signature_params(I, f.func)[len(f.args) :]:
            n, k, d = p.attrs["name"], p.attrs["kind"], p.attrs["default"]
            if n in f.kwargs:
                kwonly, d = True, f.kwargs[n]
            out.append(_param(n, 3 if kwonly and k == 1 else k, d))
        return out
    if isinstance(f, Instance):
        m = f.cls.lookup("__call__")
        if isinstance(m, Func):
            return signature_params(I, m)[1:]
    if isinstance(f, Class):
        m = f.lookup("__init__")
        if isinstance(m, Func):
            return signature_params(I, m)[1:]
        if f.fields:
            return [_param(x[0]) for x in f.fields]
    raise Unsupported(f"signature of {type(f).__name__}")


def _sig_bind(partial):
    def bind(I, s, *args, **kwargs):
        ps = list(s.attrs["parameters"].d.values())
        kw, args, got = dict(kwargs), list(args), {}
        for p in ps:
            n, k = p.attrs["name"], p.attrs["kind"]
            if k == 2:
                if args:
                    got[n] = tuple(args)
                args = []
            elif k == 4:
                if kw:
                    got[n] = dict(kw)
                kw = {}
            elif k < 2 and args:
                if k == 1 and n in kw:
                    pyraise("TypeError", f"multiple values for argument {n!r}")
                got[n] = args.pop(0)
            elif k and n in kw:
                got[n] = kw.pop(n)
            elif p.attrs["default"] is EMPTY and not partial:
                pyraise("TypeError", f"missing a required argument: {n!r}")
        if args:
            pyraise("TypeError", "too many positional arguments")
        if kw:
            pyraise("TypeError", f"got an unexpected keyword argument {next(iter(kw))!r}")
        b = Instance(BOUNDCLS)
        b.attrs.update(arguments=got, signature=s)
        return b

    return bind


def _bound_split(b):
    a, k, kwonly = [], {}, False
    for n, p in b.attrs["signature"].attrs["parameters"].d.items():
        kind, got = p.attrs["kind"], b.attrs["arguments"]
        if n not in got:
            kwonly = True
        elif kind == 4:
            k.update(got[n])
        elif kind == 3 or kwonly:
            k[n] = got[n]
        elif kind == 2:
            a += list(got[n])
        else:
            a.append(got[n])
    return tuple(a), k


def _apply_defaults(I, b):
    old, new = b.attrs["arguments"], {}
    for n, p in b.attrs["signature"].attrs["parameters"].d.items():
        d, k = p.attrs["default"], p.attrs["kind"]
        if n in old:
            new[n] = old[n]
        elif d is not EMPTY:
            new[n] = d
        elif k in (2, 4):
            new[n] = () if k == 2 else {}
    b.attrs["arguments"] = new


BOUNDCLS = Class("BoundArguments", [], {"apply_defaults": Builtin("apply_defaults", _apply_defaults), "args": Prop(Builtin("args", lambda I, b: _bound_split(b)[0])),
                                        "kwargs": Prop(Builtin("kwargs", lambda I, b: _bound_split(b)[1]))})
SIGCLS = Class("Signature", [], {"empty": EMPTY, "bind": Builtin("bind", _sig_bind(False)), "bind_partial": Builtin("bind_partial", _sig_bind(True))})


def signature_(I, f, **kw):
    from . import interp as ip

    s = Instance(SIGCLS)
    s.attrs["parameters"] = ip.MappingV({p.attrs["name"]: p for p in signature_params(I, f)})
    return s


# ---------------------------------------------------------------- dataclasses
class FieldSpec:
    def __init__(self, default=MISSING, factory=MISSING, init=True):
        self.default, self.factory, self.init = default, factory, init


def field_(I, default=MISSING, default_factory=MISSING, init=True, **kw):
    return FieldSpec(default, default_factory, init)


def collect_fields(cls):
    out = {}
    for c in reversed(cls.mro()):
        if c is not cls and c.fields is None and not c.annotations:
            continue
        for a in c.annotations:
            v = c.attrs.get(a, MISSING)
            out[a] = (a, v.default if isinstance(v, FieldSpec) and v.default is not MISSING else (v if not isinstance(v, FieldSpec) else MISSING), not isinstance(v, FieldSpec) or v.init, v.factory if isinstance(v, FieldSpec) else MISSING)
    return list(out.values())


def dataclass_(I, cls=None, **kw):
    def deco(I, c):
        c.kind = "dataclass"
        c.fields = collect_fields(c)
        c.frozen = kw.get("frozen", False) is True
        c.dc_eq = kw.get("eq", True) is True
        for n in c.annotations:
            if isinstance(c.attrs.get(n), FieldSpec):
                del c.attrs[n]
        return c

    if cls is None:
        return B("dataclass", deco)
    return deco(I, cls)


def dc_replace(I, o, **kw):
    d = {f[0]: o.attrs[f[0]] for f in o.cls.fields if f[2]}
    d.update(kw)
    return I.call(o.cls, [], d)


# -------------------------------------------------------------------- math
def math_fn(f1):
    def f(I, x):
        t = A(x).item()
        r = f1(tm.as_num(t))
        return r.data if r.op == "c" else r

    return f


def _isqrt(I, n):
    return math.isqrt(I.int_(n))


def _mprod(I, it, start=1):
    r = start
    for x in I.iterate(it):
        r = I.binop("Mult", r, x)
    return r


def op2(name):
    return lambda I, a, b: I.binop(name, a, b)


def cmp2(name):
    return lambda I, a, b: I.compare(name, a, b)


def _itemgetter(I, *ks):
    return B("itemgetter", lambda I, o: I.getitem(o, ks[0]) if len(ks) == 1 else tuple(I.getitem(o, k) for k in ks))


def _attrgetter(I, n):
    def f(I, o):
        for p in n.split("."):
            o = I.getattr(o, p)
        return o

    return B("attrgetter", f)


def std_modules():
    M = {}

    def mod(name, **attrs):
        M[name] = {k: (B(f"{name}.{k}", v) if callable(v) and not isinstance(v, (Builtin, Class, DType, Opaque)) else v) for k, v in attrs.items()}

    mod("functools", partial=partial_, reduce=reduce_, wraps=wraps_, lru_cache=identity_deco, cache=identity_deco, cached_property=lambda I, f: Prop(f),
        partialmethod=partial_, singledispatch=Opaque("singledispatch"), update_wrapper=lambda I, w, f, **k: wraps_(I, f).fn(I, w))
    mod("itertools", chain=_chain, repeat=_repeat, count=_count, cycle=_cycle, product=_product, combinations=_combos("combinations"),
        permutations=_combos("permutations"), combinations_with_replacement=_combos("combinations_with_replacement"), islice=_islice,
        accumulate=_accumulate, pairwise=_pairwise, starmap=_starmap, zip_longest=_zip_longest)
    M["itertools"]["chain"].attrs["from_iterable"] = B("chain.from_iterable", lambda I, it: _chain(I, *I.iterate(it)))
    fn = tm.fn
    mod("math", sqrt=math_fn(tm.sqrt), sin=math_fn(lambda t: fn("sin", t)), cos=math_fn(lambda t: fn("cos", t)), tan=math_fn(lambda t: fn("tan", t)),
        exp=math_fn(lambda t: fn("exp", t)), log=math_fn(lambda t: fn("log", t)), floor=lambda I, x: _int(I, Arr(la.floor(tm.as_num(A(x).item())), "i")),
        ceil=lambda I, x: _int(I, Arr(tm.neg(la.floor(tm.neg(tm.as_num(A(x).item())))), "i")), prod=_mprod, isqrt=_isqrt, fabs=math_fn(tm.fabs),
        acos=math_fn(lambda t: fn("arccos", t)), asin=math_fn(lambda t: fn("arcsin", t)), atan=math_fn(lambda t: fn("arctan", t)),
        atan2=lambda I, y, x: la.arctan2(A(y).item(), A(x).item()), hypot=lambda I, *a: tm.sqrt(tm.add(*[tm.mul(A(x).item(), A(x).item()) for x in a])),
        pow=lambda I, a, b: tm.pw(A(a).item(), A(b).item()), tanh=math_fn(lambda t: fn("tanh", t)), radians=math_fn(lambda t: tm.mul(t, tm.PI, const(Fraction(1, 180)))),
        degrees=math_fn(lambda t: tm.mul(t, const(180), tm.pw(tm.PI, const(-1)))), factorial=lambda I, n: math.factorial(I.int_(n)), comb=lambda I, n, k: math.comb(I.int_(n), I.int_(k)),
        inf=tm.INF, nan=tm.NAN, pi=tm.PI, e=tm.EUL)
    mod("operator", add=op2("Add"), sub=op2("Sub"), mul=op2("Mult"), truediv=op2("Div"), floordiv=op2("FloorDiv"), mod=op2("Mod"), pow=op2("Pow"),
        matmul=op2("MatMult"), and_=op2("BitAnd"), or_=op2("BitOr"), xor=op2("BitXor"), lt=cmp2("Lt"), le=cmp2("LtE"), gt=cmp2("Gt"), ge=cmp2("GtE"),
        eq=cmp2("Eq"), ne=cmp2("NotEq"), neg=lambda I, a: I.unop("USub", a), not_=lambda I, a: I.unop("Not", a), itemgetter=_itemgetter, attrgetter=_attrgetter,
        getitem=lambda I, o, k: I.getitem(o, k), abs=_abs, inv=lambda I, a: I.unop("Invert", a), invert=lambda I, a: I.unop("Invert", a))
    mod("inspect", signature=signature_, Parameter=PARCLS, Signature=SIGCLS, _empty=EMPTY, isfunction=lambda I, f: isinstance(f, Func), isclass=lambda I, c: isinstance(c, Class))
    nt = Class("NamedTuple", [], {})
    nt.kind = "namedtuple-base"
    proto = Class("Protocol", [], {})
    gen = Class("Generic", [], {})
    abc = Class("ABC", [], {})
    ty = dict(NamedTuple=nt, Protocol=proto, Generic=gen, Callable=typ("Callable"), Sequence=typ("Sequence"), Mapping=typ("Mapping"), Iterable=typ("Iterable"),
              Iterator=Opaque("typing.Iterator"), overload=lambda I, f: f, cast=lambda I, t, v: v, runtime_checkable=lambda I, c: c, final=lambda I, c: c,
              TYPE_CHECKING=False, List=typ("list"), Tuple=typ("tuple"), Dict=typ("dict"), Set=typ("set"), TypeVar=lambda I, *a, **k: Opaque("TypeVar"),
              ParamSpec=lambda I, *a, **k: Opaque("ParamSpec"), NewType=lambda I, n, t: t)
    mod("typing", **ty)
    mod("typing_extensions", **ty)
    mod("collections.abc", Callable=typ("Callable"), Sequence=typ("Sequence"), Mapping=typ("Mapping"), Iterable=typ("Iterable"))
    mod("collections", namedtuple=namedtuple_, OrderedDict=_dict)
    mod("abc", ABC=abc, abstractmethod=lambda I, f: f, ABCMeta=Opaque("ABCMeta"))
    mod("dataclasses", dataclass=dataclass_, field=field_, replace=dc_replace, is_dataclass=lambda I, c: getattr(c, "kind", None) == "dataclass" or (isinstance(c, Instance) and c.cls.kind == "dataclass"),
        asdict=lambda I, o: {f[0]: o.attrs[f[0]] for f in o.cls.fields}, fields=Opaque("dataclasses.fields"))
    mod("copy", copy=lambda I, x: list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else x, deepcopy=lambda I, x: x)
    mod("__future__", annotations=None)
    mod("warnings", warn=lambda I, *a, **k: None)
    mod("numbers", Number=typ("Number"), Integral=typ("int"), Real=typ("Number"))
    mod("contextlib", contextmanager=Opaque("contextmanager"), nullcontext=Opaque("nullcontext"))
    mod("enum", Enum=Class("Enum", [], {}))
    for n in ("os", "sys", "time", "logging", "random", "secrets", "threading", "pathlib", "subprocess", "io", "pickle", "json", "datetime", "socket", "shutil", "tempfile"):
        M[n] = None  # opaque, effects reported by the effect analysis
    return M


def namedtuple_(I, name, fields, defaults=(), **kw):
    fs = fields.replace(",", " ").split() if isinstance(fields, str) else [x for x in I.iterate(fields)]
    c = Class(name, [], {})
    c.kind = "namedtuple"
    ds = list(I.iterate(defaults)) if defaults else []
    c.fields = [(f, ds[i - (len(fs) - len(ds))] if i >= len(fs) - len(ds) else MISSING, True, MISSING) for i, f in enumerate(fs)]
    return c
