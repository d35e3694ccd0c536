"""Library model: class machinery, methods of modelled objects, jax/flax/jaxopt modules."""
from __future__ import annotations
from fractions import Fraction
import numpy as np

from . import terms as tm
from .terms import T, const
from .values import *
from . import lib_arr as la
from . import lib_jax as lj
from . import lib_py as lp
from .lib_py import python_builtins, exc_is, typ  # noqa: F401
from .lib_arr import arr_binop, arr_compare, arr_getitem, cast  # noqa: F401
from .lib_jax import call_ufun  # noqa: F401

A = as_arr


def str_format(I, o, a, k):
    f = lambda x: float(x) if isinstance(x, Fraction) else x if isinstance(x, (int, str)) else I.fmt(x)
    try:
        return o.format(*[f(x) for x in a], **{n: f(x) for n, x in k.items()})
    except (ValueError, IndexError, KeyError, AttributeError):
        raise Unsupported("string format")


def ufunc_method(o, name):
    from . import lib_mods

    return lib_mods.ufunc_method(o, name)


def B(name, fn):
    return Builtin(name, fn)


# ------------------------------------------------------------------- classes
FLAX = Class("Module", [], {})
FLAX.kind = "flax"
OPTSTEP = Class("OptStep", [], {})
OPTSTEP.kind = "namedtuple"
OPTSTEP.fields = [("params", MISSING, True, MISSING), ("state", MISSING, True, MISSING)]


def _unroll_option(I, self):
    u = I.getattr(self, "unroll")
    if u == "auto":
        return (not I.truth(I.getattr(self, "implicit_diff", True))) or (not I.truth(I.getattr(self, "jit")))
    return u


def _run(I, self, init_params, *args, **kwargs):
    """jaxopt.IterativeSolver.run: init_state, one update, then update while error > tol"""
    state = I.call(I.getattr(self, "init_state"), [init_params] + list(args), kwargs)
    step = I.call(I.getattr(self, "update"), [init_params, state] + list(args), kwargs)

    def cond_(I, s):
        return I.compare("Gt", I.getattr(I.getattr(s, "state"), "error"), I.getattr(self, "tol"))

    def body_(I, s):
        return I.call(I.getattr(self, "update"), [I.getattr(s, "params"), I.getattr(s, "state")] + list(args), kwargs)

    mi = I.getattr(self, "maxiter")
    return lj.while_loop(I, B("cond", cond_), B("body", body_), step, I.binop("Sub", mi, 1))


ITER = Class("IterativeSolver", [], {
    "_get_unroll_option": B("_get_unroll_option", _unroll_option),
    "__post_init__": B("__post_init__", lambda I, self: None),
    "run": B("run", _run),
})


def finish_class(I, cls):
    for b in cls.bases:
        if isinstance(b, Class) and b.kind == "namedtuple-base":
            cls.kind = "namedtuple"
            cls.fields = lp.collect_fields(cls)
            cls.opaque_base = False
    if cls.is_sub(FLAX) and cls is not FLAX:
        cls.kind = "flax"
        cls.fields = lp.collect_fields(cls) + [("parent", None, True, MISSING), ("name", None, True, MISSING)]
    if cls.kind == "namedtuple-base":
        cls.kind = None


def class_attr(I, cls, name):
    if cls.kind == "namedtuple":
        if name == "_fields":
            return tuple(f[0] for f in cls.fields)
        if name == "_make":
            return B("_make", lambda I, it: instantiate(I, cls, I.iterate(it), {}))
    if name == "__mro__":
        return tuple(cls.mro())
    if name == "__bases__":
        return tuple(cls.bases)
    if name == "__module__":
        return getattr(cls, "mod", "")
    if name == "__doc__":
        return ""
    if name == "__init__" and not cls.opaque_base:
        return B("object.__init__", lambda I, *a, **k: None)
    if name == "__new__":
        return B("object.__new__", lambda I, c, *a, **k: Instance(c))
    if name in ("__annotations__", "__dataclass_fields__"):
        return {a: Opaque("annotation") for a in cls.annotations}
    return MISSING


def inst_attr(I, o, name):
    if o.cls.kind == "namedtuple":
        if name == "_replace":
            def rep(I, **kw):
                n = Instance(o.cls)
                n.attrs.update(o.attrs)
                for k, v in kw.items():
                    if k not in n.attrs:
                        pyraise("ValueError", f"Got unexpected field names: {k}")
                    n.attrs[k] = v
                return n

            return B("_replace", rep)
        if name == "_asdict":
            return B("_asdict", lambda I: {f[0]: o.attrs[f[0]] for f in o.cls.fields})
        if name == "_fields":
            return tuple(f[0] for f in o.cls.fields)
        if name == "index":
            return B("index", lambda I, v: next(i for i, f in enumerate(o.cls.fields) if o.attrs[f[0]] is v))
    if o.cls.kind == "flax":
        if name in FLAXM:
            return Bound(B("flax." + name, FLAXM[name]), o)
    if o.cls.kind == "exc" and name == "args":
        return tuple(o.attrs.get("args", ()))
    return MISSING


def instantiate(I, cls, args, kwargs):
    if cls.lookup("__new__") and isinstance(cls.lookup("__new__"), (Func, StatMeth)):
        raise Unsupported("__new__")
    if cls.kind == "exc" or any(c.kind == "exc" for c in cls.mro()):
        o = Instance(cls)
        o.attrs["args"] = tuple(args)
        if not isinstance(cls.lookup("__init__"), Func):
            return ExcVal(cls.name, args) if cls.name in lp._EXC or cls.name == "BaseException" else o
    o = Instance(cls)
    I.new(o)
    init = None
    for c in cls.mro():
        if "__init__" in c.attrs:
            init = c.attrs["__init__"]
            break
        if c.kind in ("dataclass", "namedtuple", "flax") and c.fields is not None and (c is cls or c.kind != "flax"):
            break
    if init is not None and isinstance(init, (Func, Builtin)):
        I.call(init, [o] + list(args), kwargs)
        return o
    fields = cls.fields
    if fields is None:
        for c in cls.mro():
            if c.fields is not None:
                fields = c.fields
                break
    if fields is not None:
        pos = [f for f in fields if f[2]]
        if len(args) > len(pos):
            pyraise("TypeError", f"{cls.name}() takes {len(pos)} positional arguments but {len(args)} were given")
        kw = dict(kwargs)
        vals = {}
        for i, f in enumerate(pos):
            n = f[0]
            if i < len(args):
                if n in kw:
                    pyraise("TypeError", f"{cls.name}() got multiple values for argument '{n}'")
                vals[n] = args[i]
            elif n in kw:
                vals[n] = kw.pop(n)
        if kw:
            pyraise("TypeError", f"{cls.name}() got an unexpected keyword argument '{next(iter(kw))}'")
        for f in fields:
            n = f[0]
            if n in vals:
                continue
            if f[3] is not MISSING:
                vals[n] = I.call(f[3], [], {})
            elif f[1] is not MISSING:
                vals[n] = f[1]
            elif f[2]:
                pyraise("TypeError", f"{cls.name}() missing required argument: '{n}'")
        o.attrs.update(vals)
        if cls.kind == "flax":
            o.attrs["$scope"] = I.scope
        pi = cls.lookup("__post_init__")
        if pi is not None and cls.kind == "dataclass":
            I.call(pi, [o], {})
        return o
    if args or kwargs:
        if cls.opaque_base:
            return Opaque(f"{cls.name}()")
        pyraise("TypeError", f"{cls.name}() takes no arguments")
    return o


# ---------------------------------------------------------------------- flax
class Scope:
    def __init__(self, mode, vars_, path=(), key=None, root=None):
        self.mode, self.vars, self.path, self.key = mode, vars_, path, key
        self.count = {}
        self.root = root or self

    def child(self, name):
        return Scope(self.mode, self.vars, self.path + (name,), self.key, self.root)

    def table(self, col, create=False):
        d = self.vars.get(col)
        if d is None:
            if not create:
                return None
            d = self.vars[col] = {}
        for p in self.path:
            if p not in d:
                if not create:
                    return None
                d[p] = {}
            d = d[p]
        return d


def flax_enter(I, o, m, args, kwargs, scope):
    save = I.scope
    I.scope = scope
    try:
        st = o.cls.lookup("setup")
        if st is not None and not o.attrs.get("$setup"):
            before = dict(o.attrs)
            I.call(st, [o], {})
            for k, v in list(o.attrs.items()):
                if k not in before or before[k] is not v:
                    for i, s in enumerate(v if isinstance(v, (list, tuple)) else [v]):
                        if isinstance(s, Instance) and s.cls.kind == "flax" and s.attrs.get("name") is None:
                            s.attrs["name"] = k if s is v else f"{k}_{i}"
        return I.call(m, [o] + list(args), kwargs)
    finally:
        I.scope = save


def call_instance(I, o, m, args, kwargs):
    if o.cls.kind == "flax":
        if I.scope is None:
            pyraise("ValueError", "flax: Can't call compact methods on unbound modules")
        name = o.attrs.get("name")
        if name is None:
            n = I.scope.count.get(o.cls.name, 0)
            I.scope.count[o.cls.name] = n + 1
            name = f"{o.cls.name}_{n}"
            o.attrs["name"] = name
        return flax_enter(I, o, m, args, kwargs, I.scope.child(name))
    return I.call(m, [o] + list(args), kwargs)


def rng_key(I, key):
    """every stream handed to an initialiser counts as a use of its key"""
    if not isinstance(key, dict):
        return lj.use_key(I, key, "flax.init")
    ts = {k: lj.use_key(I, v, f"flax.init (stream {k})") for k, v in key.items()}
    if "params" not in ts:
        raise Unsupported("rngs without params")
    return ts["params"]


def flax_init(I, o, key, *args, **kwargs):
    t = rng_key(I, key)
    vars_ = {}
    flax_enter(I, o, o.cls.lookup(kwargs.pop("method", "__call__") or "__call__"), args, kwargs, Scope("init", vars_, (), t))
    return vars_


def flax_init_with_output(I, o, key, *args, **kwargs):
    t = rng_key(I, key)
    vars_ = {}
    y = flax_enter(I, o, o.cls.lookup("__call__"), args, kwargs, Scope("init", vars_, (), t))
    return y, vars_


def flax_apply(I, o, variables, *args, rngs=None, method=None, mutable=False, **kwargs):
    if not isinstance(variables, dict):
        if isinstance(variables, Opaque):
            raise Unsupported("flax variables")
        pyraise("ValueError", "flax: The first argument passed to an apply function should be a dictionary of collections")
    for k, v in rngs.items() if isinstance(rngs, dict) else ():
        lj.use_key(I, v, f"flax.apply (stream {k})")
    m = o.cls.lookup("__call__") if method is None else (o.cls.lookup(method) if isinstance(method, str) else method)
    y = flax_enter(I, o, m, args, kwargs, Scope("apply", variables, (), None))
    if mutable is not False:
        return y, variables
    return y


def pkey(scope, col, name):
    return Arr(tm.mk("key", "flax:" + "/".join((col,) + scope.path + (name,)), (scope.key,)), "k")


def flax_param(I, o, name, init_fn, *args, **kw):
    sc = I.scope
    if sc is None:
        pyraise("ValueError", "flax: param outside of a bound module")
    if sc.mode == "init":
        d = sc.table("params", True)
        if name in d:
            pyraise("NameInUseError", name)
        d[name] = I.call(init_fn, [pkey(sc, "params", name)] + list(args), kw)
        I.event("flax-param", "params", sc.path + (name,))
        return d[name]
    d = sc.table("params")
    if d is None or name not in d:
        pyraise("ScopeParamNotFoundError", "/".join(sc.path + (name,)))
    I.event("flax-param", "params", sc.path + (name,))
    return d[name]


VARCLS = Class("Variable", [], {})


def flax_variable(I, o, col, name, init_fn=None, *args, **kw):
    sc = I.scope
    v = Instance(VARCLS)
    if sc.mode == "init":
        d = sc.table(col, True)
        if name not in d:
            d[name] = I.call(init_fn, list(args), kw)
    else:
        d = sc.table(col)
        if d is None or name not in d:
            pyraise("ScopeVariableNotFoundError", "/".join((col,) + sc.path + (name,)))
    I.event("flax-param", col, sc.path + (name,))
    v.attrs["value"] = d[name]
    return v


def make_rng(I, o, name="params"):
    raise Unsupported("make_rng")


FLAXM = dict(init=flax_init, apply=flax_apply, param=flax_param, variable=flax_variable, init_with_output=flax_init_with_output,
             make_rng=make_rng, bind=lambda I, o, *a, **k: o, clone=lambda I, o, **k: o,
             has_variable=lambda I, o, c, n: (I.scope.table(c) or {}).get(n) is not None,
             is_initializing=lambda I, o: I.scope is not None and I.scope.mode == "init",
             is_mutable_collection=lambda I, o, c: I.scope is not None and I.scope.mode == "init")

DENSE = Class("Dense", [FLAX], {})


def init_full(name):
    def init(I, key, shape, dtype=None, **kw):
        t = lj.key_term(I, key)
        s = la.shape_of(I, shape)
        a = np.empty(s, dtype=object)
        for i in np.ndindex(*s):
            a[i] = tm.mk("rnd", (name, i, s), (t,))
        return Arr(la.box(a), "f")

    return B("init:" + name, init)


def zeros_init(I, *a, **k):
    return B("init:zeros", lambda I, key, shape, dtype=None, **kw: la.full(la.shape_of(I, shape), tm.ZERO))


def ones_init(I, *a, **k):
    return B("init:ones", lambda I, key, shape, dtype=None, **kw: la.full(la.shape_of(I, shape), tm.ONE))


def constant_init(I, value, dtype=None):
    def init(I, key, shape, dtype=None, **kw):
        s = la.shape_of(I, shape)
        v = A(value)
        try:
            return Arr(np.broadcast_to(v.a, s).copy(), v.kind if v.kind != "i" else "f")
        except ValueError:
            pyraise("ValueError", "constant initializer: incompatible shapes for broadcasting")

    return B("init:constant", init)


def mkinit(name):
    return lambda I, *a, **k: init_full(name)


def dense_call(I, o, x):
    x = A(x)
    f = I.int_(o.attrs["features"])
    if x.ndim == 0:
        pyraise("TypeError", "Dense on a scalar")
    kernel = flax_param(I, o, "kernel", o.attrs["kernel_init"], (x.shape[-1], f))
    if kernel.shape != (x.shape[-1], f):
        pyraise("ScopeParamShapeError", f"kernel {kernel.shape} vs {(x.shape[-1], f)}")
    y = la.matmul(x, kernel)
    if o.attrs["use_bias"] is True:
        b = flax_param(I, o, "bias", o.attrs["bias_init"], (f,))
        y = la.arr_binop(I, "Add", y, b)
    I.event("dense", I.scope.path, f, x, y)
    return y


DENSE.attrs["__call__"] = B("Dense.__call__", dense_call)
_df = lambda n, d: (n, d, True, MISSING)
DENSE.fields = [("features", MISSING, True, MISSING), _df("use_bias", True), _df("dtype", None), _df("param_dtype", None), _df("precision", None),
                _df("kernel_init", init_full("lecun_normal")), _df("bias_init", B("init:zeros", lambda I, key, shape, dtype=None: la.full(la.shape_of(I, shape), tm.ZERO))),
                _df("promote_dtype", None), _df("dot_general", None), _df("parent", None), _df("name", None)]


# -------------------------------------------------------- methods of values
def meth(name, f):
    return B(name, f)


def list_attr(I, o, name):
    def append(I, v):
        I.mutate(o)
        o.append(v)

    def extend(I, v):
        I.mutate(o)
        o.extend(I.iterate(v))

    def pop(I, i=-1):
        I.mutate(o)
        if not o:
            pyraise("IndexError", "pop from empty list")
        return o.pop(I.int_(i))

    def insert(I, i, v):
        I.mutate(o)
        o.insert(I.int_(i), v)

    def index(I, v, *a):
        for i, x in enumerate(o):
            t = I.truth(I.compare("Eq", x, v)) if x is not v else True
            if t is True:
                return i
            if t is not False:
                raise Unsupported("symbolic list.index")
        pyraise("ValueError", "not in list")

    def count(I, v):
        return sum(1 for x in o if I.truth(I.compare("Eq", x, v)) is True)

    def reverse(I):
        I.mutate(o)
        o.reverse()

    def clear(I):
        I.mutate(o)
        o.clear()

    fs = dict(append=append, extend=extend, pop=pop, insert=insert, reverse=reverse, clear=clear, copy=lambda I: list(o)) if isinstance(o, list) else {}
    fs.update(index=index, count=count)
    return B(name, fs[name]) if name in fs else MISSING


def dict_attr(I, o, name):
    from . import interp as ip

    ro = isinstance(o, ip.MappingV)
    d = o.d if ro else o

    def update(I, *a, **k):
        I.mutate(o)
        d.update(lp._dict(I, *a, **k))

    def pop(I, k, default=MISSING):
        I.mutate(o)
        kk = I.hashable(k)
        if kk in d:
            return d.pop(kk)
        if default is not MISSING:
            return default
        pyraise("KeyError", str(k))

    def setdefault(I, k, v=None):
        kk = I.hashable(k)
        if kk not in d:
            I.mutate(o)
            d[kk] = v
        return d[kk]

    fs = dict(keys=lambda I: list(d), values=lambda I: list(d.values()), items=lambda I: [(k, v) for k, v in d.items()],
              get=lambda I, k, default=None: d.get(I.hashable(k), default), copy=lambda I: dict(d))
    if not ro:
        fs.update(update=update, pop=pop, setdefault=setdefault)
    return B(name, fs[name]) if name in fs else MISSING


def str_attr(I, o, name):
    fs = dict(
        join=lambda I, it: o.join(I.iterate(it)), split=lambda I, *a: o.split(*a), format=lambda I, *a, **k: str_format(I, o, a, k), startswith=lambda I, p: o.startswith(p),
        endswith=lambda I, p: o.endswith(p), upper=lambda I: o.upper(), lower=lambda I: o.lower(), strip=lambda I, *a: o.strip(*a), replace=lambda I, a, b: o.replace(a, b),
        rstrip=lambda I, *a: o.rstrip(*a), lstrip=lambda I, *a: o.lstrip(*a), isdigit=lambda I: o.isdigit(), title=lambda I: o.title(), index=lambda I, x: o.index(x), count=lambda I, x: o.count(x),
        find=lambda I, x: o.find(x), capitalize=lambda I: o.capitalize(),
    )
    return B(name, fs[name]) if name in fs else MISSING


def set_attr(I, o, name):
    def add(I, v):
        I.mutate(o)
        o.items[:] = I.mkset(o.items + [v]).items

    def pop(I):
        I.mutate(o)
        if not o.items:
            pyraise("KeyError", "pop from an empty set")
        return o.items.pop()

    fs = dict(add=add, pop=pop)
    return B(name, fs[name]) if name in fs else MISSING


def py_attr(I, o, name):
    from . import interp as ip

    if isinstance(o, (list, tuple)):
        return list_attr(I, o, name)
    if isinstance(o, (dict, ip.MappingV)):
        return dict_attr(I, o, name)
    if isinstance(o, str):
        return str_attr(I, o, name)
    if isinstance(o, ip.PySet):
        return set_attr(I, o, name)
    if isinstance(o, ip.AtV):
        ups = dict(set=lambda x, v: v, add=tm.add, multiply=tm.mul, mul=tm.mul, subtract=tm.sub, divide=tm.div, min=tm.tmin, max=tm.tmax, power=tm.pw)
        if name == "get":
            return B("at.get", lambda I, **k: la.arr_getitem(I, o.arr, o.idx))
        if name in ups:
            return B("at." + name, lambda I, v, **k: la.at_update(I, o.arr, o.idx, v, ups[name]))
        return MISSING
    if isinstance(o, DType):
        if name == "type":
            return o
        if name == "name":
            return o.name
        if name == "kind":
            return o.kind
        if name == "dtype":
            return o
    if isinstance(o, (int, Fraction, T)) and not isinstance(o, bool):
        if name == "real":
            return o
        if name == "imag":
            return 0
        if name == "is_integer":
            return B("is_integer", lambda I: isinstance(o, int) or (isinstance(o, Fraction) and o.denominator == 1))
        # python scalars have no array attributes
    if isinstance(o, ExcVal):
        if name == "args":
            return o.args
        if name == "with_traceback":
            return B("with_traceback", lambda I, *a: o)
    if isinstance(o, lj.TreeDef):
        if name == "unflatten":
            return B("unflatten", lambda I, ls: lj.unflatten(I, o.spec, I.iterate(ls)))
        if name == "num_leaves":
            return _nleaves(o.spec)
        if name == "flatten_up_to":
            return B("flatten_up_to", lambda I, t: lj.flatten_up_to(I, o.spec, t))
    if isinstance(o, Gen):
        if name == "__next__":
            return B("__next__", lambda I: lp._next(I, o))
    if o is None and name == "__class__":
        return typ("NoneType")
    return MISSING


def _nleaves(s):
    if s[0] == "leaf":
        return 1
    if s[0] == "none":
        return 0
    subs = s[2] if s[0] in ("dict", "nt", "node") else s[1]
    return sum(_nleaves(x) for x in subs)


ARRM = {}


def arr_attr(I, a, name):
    from . import interp as ip

    if name == "shape":
        return a.shape
    if name == "ndim":
        return a.ndim
    if name == "size":
        return a.size
    if name == "dtype":
        return a.dtype
    if name == "T":
        return Arr(a.a.T.copy() if a.ndim > 1 else a.a, a.kind)
    if name == "mT":
        return Arr(np.swapaxes(a.a, -1, -2).copy(), a.kind)
    if name == "at":
        return ip.AtV(a)
    if name == "real":
        return a
    if name == "imag":
        return la.full(a.shape, tm.ZERO)
    if name == "weak_type":
        return a.weak
    if name == "item":
        def item(I, *k):
            v = a if not k else la.arr_getitem(I, a, tuple(k) if len(k) > 1 else k[0])
            if v.size != 1:
                pyraise("ValueError", "can only convert an array of size 1 to a Python scalar")
            t = v.item()
            I.converted(t)
            if t.op == "c":
                return int(t.data) if v.kind == "i" else t.data
            return t.data if t.op == "b" else t

        return B("item", item)
    if name == "astype":
        return B("astype", lambda I, dt, **k: la.cast(a, la.dtype_of(I, dt)))
    if name == "reshape":
        return B("reshape", lambda I, *s, **k: la.reshape(I, a, *s, **k))
    if name in ("copy", "block_until_ready", "__array__", "conj", "conjugate"):
        return B(name, lambda I, *x, **k: a)
    if name == "tolist":
        def tl(x):
            if not isinstance(x, np.ndarray):
                return (int(x.data) if a.kind == "i" else x.data) if x.op in "cb" else x
            return [tl(y) for y in x] if x.ndim else tl(x[()])

        return B("tolist", lambda I: [I.converted(t) for t in a.flat()] and tl(a.a) if a.size else [])
    if name in ARRM:
        f = ARRM[name]
        return B(name, lambda I, *x, **k: f(I, a, *x, **k))
    if name.startswith("__") and name.endswith("__"):
        ops = dict(__add__="Add", __sub__="Sub", __mul__="Mult", __truediv__="Div", __pow__="Pow", __matmul__="MatMult", __mod__="Mod")
        if name in ops:
            return B(name, lambda I, b: la.arr_binop(I, ops[name], a, b))
        if name == "__class__":
            return typ("Array")
        if name == "__len__":
            return B(name, lambda I: lp._len(I, a))
    if name in ("_a", "_q", "fields", "cls", "keys", "items", "append", "tree_flatten"):
        pyraise("AttributeError", f"Array object has no attribute {name}")
    raise ImportError


def _arr_attr_safe(I, a, name, _f=arr_attr):
    try:
        return _f(I, a, name)
    except ImportError:
        pass
    if name not in NDATTRS:
        pyraise("AttributeError", f"Array object has no attribute {name}")
    raise Unsupported(f"array attribute {name}")


NDATTRS = set(dir(np.ndarray)) | {"at", "aval", "sharding", "addressable_data", "is_deleted", "delete", "devices", "device"}
arr_attr = _arr_attr_safe

from .lib_mods import module, has_module  # noqa: E402,F401
