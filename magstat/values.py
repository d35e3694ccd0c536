"""Abstract values of the interpreter (arrays of value-graph terms, closures, classes, ...)."""
from __future__ import annotations
from fractions import Fraction
import numpy as np

from . import terms as tm
from .terms import T, const


class Unsupported(Exception):
    """construct outside the abstract semantics: the obligation becomes undecided"""


class InterpRaise(Exception):
    """the analysed program raises (in the modelled semantics)"""

    def __init__(self, exc, loc=None):
        self.exc = exc  # Instance or ExcVal
        self.loc = loc
        super().__init__(f"{exc} at {loc}")

    @property
    def name(self):
        return self.exc.name


class ExcVal:
    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return f"{self.name}({', '.join(map(str, self.args))})"


def pyraise(name, msg=""):
    raise InterpRaise(ExcVal(name, (msg,)))


class DType:
    def __init__(self, kind, name, fixed=False):
        self.kind, self.name = kind, name
        self.fixed = fixed  # named in the source as a type of less than 64 (floats) or 32 (integers) bits

    def __repr__(self):
        return f"dtype({self.name})"

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


F32, I32, U32, BOOL, KEY = DType("f", "float32"), DType("i", "int32"), DType("i", "uint32"), DType("b", "bool"), DType("k", "key<fry>")
LOW = {n: DType("f", "float32" if n in ("single", "f4") else n, True) for n in ("float32", "single", "float16", "half", "bfloat16", "float8_e4m3fn", "float8_e5m2")} | {n: DType("i", n, True) for n in ("int8", "int16", "uint8", "uint16")}
LOWNAMES = set(LOW) | {"f4", "f2", "<f4", "<f2", "i1", "i2", "e", "f"}
BYKIND = {"f": F32, "i": I32, "b": BOOL, "k": KEY}
_ORDER = {"b": 0, "i": 1, "f": 2, "k": 3}


def pkind(*ks):
    return max(ks, key=lambda k: _ORDER[k])


class Arr:
    """array of terms with a concrete shape"""

    __slots__ = ("a", "kind", "weak", "dt", "traced")

    def __init__(self, a, kind="f", weak=False):
        if not isinstance(a, np.ndarray) or a.dtype != object:
            b = np.empty(np.shape(a), dtype=object)
            if b.shape == ():
                b[()] = a
            else:
                b[...] = a
            a = b
        self.a = a
        self.kind = kind
        self.weak = weak
        self.dt = None
        self.traced = False

    shape = property(lambda s: tuple(int(x) for x in s.a.shape))
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: int(s.a.size))
    dtype = property(lambda s: s.dt or BYKIND[s.kind])

    def item(self):
        return self.a.reshape(-1)[0]

    def flat(self):
        return list(self.a.reshape(-1))

    def __repr__(self):
        return f"Arr{self.shape}{self.kind}[{', '.join(tm.show(t, 5) for t in self.flat()[:6])}]"


class Choice:
    """gated value: a if c else b (not mergeable component-wise)"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Choice({tm.show(self.c, 4)}, {self.a}, {self.b})"


class Opaque:
    def __init__(self, desc):
        self.desc = desc

    def __repr__(self):
        return f"<opaque {self.desc}>"


class Gen:
    """one-shot iterator (generators, zip, map, ...)"""

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0

    def drain(self):
        r = self.items[self.pos :]
        self.pos = len(self.items)
        return r


class Func:
    def __init__(self, node, env, mod, name, qual, defaults, kwdefaults, cls=None):
        self.node, self.env, self.mod, self.name, self.qual = node, env, mod, name, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.attrs = {}
        self.cls = cls
        self._gen = None

    def __repr__(self):
        return f"<function {self.qual}>"


class Builtin:
    def __init__(self, name, fn, sig=None):
        self.name, self.fn, self.sig = name, fn, sig
        self.lenient = False  # the real routine may accept fewer arguments than the model
        self.attrs = {}

    def __repr__(self):
        return f"<builtin {self.name}>"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"<bound {self.func}>"


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, tuple(args), dict(kwargs)
        self.attrs = {}


class Prop:
    def __init__(self, fget):
        self.fget = fget


class ClsMeth:
    def __init__(self, f):
        self.f = f


class StatMeth:
    def __init__(self, f):
        self.f = f


class Class:
    def __init__(self, name, bases, attrs, qual=None):
        self.name, self.bases, self.attrs = name, list(bases), attrs
        self.qual = qual or name
        self.fields = None  # dataclass / namedtuple fields: list of (name, default|MISSING, init)
        self.kind = None  # 'dataclass' | 'namedtuple' | None
        self.frozen = False
        self.pytree = False
        self.opaque_base = False
        self.annotations = []
        for b in bases:
            if isinstance(b, Class):
                self.kind = self.kind or b.kind
                self.pytree = self.pytree  # registration is per class
                self.opaque_base = self.opaque_base or b.opaque_base

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def has(self, name):
        return any(name in c.attrs for c in self.mro())

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"<class {self.name}>"


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class Instance:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return f"<{self.cls.name} {self.attrs}>"

    @property
    def name(self):  # exceptions
        return self.cls.name


class Mod:
    def __init__(self, name, attrs=None, opaque=False):
        self.name = name
        self.attrs = attrs if attrs is not None else {}
        self.opaque = opaque

    def __repr__(self):
        return f"<module {self.name}>"


class UFun:
    """uninterpreted (arbitrary smooth) user function.

    out: pytree of shapes of the output (a tuple = array shape; list/dict = pytree)
    elementwise: f acts on each array element separately (vectorised scalar function)
    params: parameter names, for signature(); defvals: default values; kwonly: names only accepted by keyword"""

    def __init__(self, name, out=(), params=("x",), elementwise=False, kind="f", varargs=False, defaults=0, defvals={}, kwonly=()):
        self.name, self.out, self.params, self.elementwise, self.kind = name, out, tuple(params), elementwise, kind
        self.varargs = varargs
        self.defaults = defaults
        self.defvals, self.kwonly = dict(defvals), tuple(kwonly)
        self.attrs = {}
        self.calls = []

    def __repr__(self):
        return f"<ufun {self.name}>"


def is_scalar(v):
    return isinstance(v, (int, Fraction, T)) and not isinstance(v, str)


def as_arr(v):
    """lift to Arr; lists/tuples are stacked (jnp.asarray semantics)"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, bool):
        return Arr(const(v), "b")
    if isinstance(v, int):
        return Arr(const(v), "i", True)
    if isinstance(v, Fraction):
        return Arr(const(v), "f", True)
    if isinstance(v, T):
        return Arr(v, "b" if tm.is_bool(v) else ("k" if tm.is_key(v) else "f"), True)
    if isinstance(v, range):
        v = list(v)
    if isinstance(v, Instance) and v.cls.kind == "namedtuple":
        v = [v.attrs[f[0]] for f in v.cls.fields]
    if isinstance(v, (list, tuple)):
        if not v:
            return Arr(np.empty((0,), dtype=object), "f")
        xs = [as_arr(x) for x in v]
        sh = {x.shape for x in xs}
        if len(sh) > 1:
            pyraise("ValueError", "inhomogeneous shape")
        out = np.empty((len(xs),) + xs[0].a.shape, dtype=object)
        for i, x in enumerate(xs):
            out[i] = x.a if x.a.shape != () else x.a[()]
        return Arr(out, pkind(*[x.kind for x in xs]))
    if isinstance(v, Opaque):
        raise Unsupported(f"array of {v}")
    if isinstance(v, float):
        return Arr(const(v), "f", True)
    if v is None or isinstance(v, (str, dict, Func, UFun, Builtin, Class)):
        pyraise("TypeError", f"cannot convert {type(v).__name__} to array")
    raise Unsupported(f"array of {type(v).__name__}")


def num(v):
    """python scalar / T -> T"""
    if isinstance(v, T):
        return v
    return const(v)


_fe = {}


def ew(f, *arrs, kind=None):
    """element-wise application with broadcasting"""
    xs = [as_arr(x) for x in arrs]
    try:
        bs = np.broadcast_arrays(*[x.a for x in xs]) if len(xs) > 1 else [xs[0].a]
    except ValueError as e:
        pyraise("TypeError", "incompatible shapes for broadcasting: " + ", ".join(str(x.shape) for x in xs))
    out = np.empty(bs[0].shape, dtype=object)
    for idx in np.ndindex(*bs[0].shape):
        out[idx] = f(*[b[idx] for b in bs])
    return Arr(out, kind or pkind(*[x.kind for x in xs]))


def dist_int(f, a, b):
    """apply f to integer terms, distributing over gated constants"""
    if a.op == "sel":
        return tm.sel(a.args[0], dist_int(f, a.args[1], b), dist_int(f, a.args[2], b))
    if b.op == "sel":
        return tm.sel(b.args[0], dist_int(f, a, b.args[1]), dist_int(f, a, b.args[2]))
    return f(a, b)


def lift_index(t, fn, merge):
    """fn(int) over a gated constant index term"""
    if isinstance(t, int):
        return fn(t)
    if t.op == "b":
        return fn(int(t.data))
    if t.op == "c":
        if t.data.denominator != 1:
            pyraise("TypeError", "non-integer index")
        return fn(int(t.data))
    if t.op == "sel":
        a = lift_index(t.args[1], fn, merge)
        b = lift_index(t.args[2], fn, merge)
        return merge(t.args[0], a, b)
    raise Unsupported("data-dependent index " + tm.show(t, 4))
