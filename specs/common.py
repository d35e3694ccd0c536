from fractions import Fraction
import itertools
import math

import numpy as np

from magstat import terms as tm, nf
from magstat.terms import T, const, ZERO, ONE, PI
from magstat.values import *
from magstat import lib_arr as la, lib_jax as lj
from magstat.oblig import ob, Skip, Vanished, Result

F = Fraction
H = Fraction(1, 2)
TRUE = tm.TRUE


def A(x, kind="f"):
    a = as_arr(x)
    return Arr(a.a, kind) if a.kind == "i" and kind == "f" else a


def item(x):
    return as_arr(x).item()


def D(t, *xs):
    for x in xs:
        t = tm.diff(t, item(x) if isinstance(x, Arr) else x)
    return t


def nparr(shape, f):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = f(*i)
    return Arr(la.box(a), "f")


def dotp(a, b):
    return tm.add(*[tm.mul(tm.lift(x), tm.lift(y)) for x, y in zip(a, b)])


def fl(a):
    return as_arr(a).flat()


def subst(t, m):
    return tm.subst(t, {k: tm.lift(v) for k, v in m.items()})


def fnum(x):
    """the same numbers as floating point"""
    if isinstance(x, (tuple, list)):
        return type(x)(fnum(y) for y in x)
    if isinstance(x, (int, Fraction)):
        return A(const(Fraction(x)))
    if isinstance(x, Arr) and x.kind == "i":
        return Arr(x.a, "f")
    return x


def ints(c, label, f, *args, mixed=True):
    """whole numbers mean the same whether they are given as integers or as floats, one argument at a time and together"""
    def go():
        want = f(*map(fnum, args))
        c.eq(f"{label}: whole numbers given as integers", f(*args), want)
        if len(args) > 1:
            for k in range(len(args)):
                c.eq(f"{label}: argument {k} given as integers", f(*(a if i == k else fnum(a) for i, a in enumerate(args))), want)
            # integers among fractions: nothing may be converted to the type of the integer argument
            for k in range(len(args) if mixed else 0):
                rest = [a if i == k else quarter(a) for i, a in enumerate(args)]
                try:
                    ref = f(*(fnum(a) if i == k else a for i, a in enumerate(rest)))
                except (InterpRaise, Unsupported):
                    continue
                c.eq(f"{label}: argument {k} given as integers, the others fractions", f(*rest), ref)
    c.part(f"{label}: integers", go)


def quarter(x):
    """numbers moved off the whole numbers"""
    if isinstance(x, (tuple, list)):
        return type(x)(quarter(y) for y in x)
    if isinstance(x, (int, Fraction)):
        return A(const(Fraction(x) + Fraction(1, 4)))
    if isinstance(x, Arr) and x.kind in "if" and x.size and all(isinstance(t, T) and t.op == "c" for t in x.flat()):
        r = np.empty(x.a.shape, dtype=object)
        for i in np.ndindex(*x.a.shape):
            r[i] = const(x.a[i].data + Fraction(1, 4))
        return Arr(r, "f")
    return x


def iarr(x):
    return as_arr(x)


_LIT = {}


def literals(c, *modules):
    """whole numbers written in the source text of the modules (sums, products and powers of literals included)"""
    import ast, os
    out = set()
    for m in modules:
        path = os.path.join(c.repo, "magpi", m + ".py")
        key = (path, os.path.getmtime(path) if os.path.exists(path) else 0)
        if key not in _LIT:
            got = set()
            try:
                tree = ast.parse(open(path).read())
            except (OSError, SyntaxError):
                tree = ast.Module([], [])

            def val(n):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    return n.value
                if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                    v = val(n.operand)
                    return None if v is None else -v
                if isinstance(n, ast.BinOp):
                    a, b = val(n.left), val(n.right)
                    if a is None or b is None or abs(a) > 1e6 or abs(b) > 1e6:
                        return None
                    try:
                        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.LShift: lambda: a << b if b < 20 else None,
                                ast.Pow: lambda: a**b if abs(b) < 20 else None}.get(type(n.op), lambda: None)()
                    except Exception:
                        return None
                return None

            for n in ast.walk(tree):
                v = val(n)
                if v is not None and abs(v) < 1e9 and v == int(v):
                    got.add(int(v))
            _LIT[key] = got
        out |= _LIT[key]
    return out


def sizes(c, modules, done, cap):
    """further instance sizes: just around every number the code itself mentions, so that a case distinction on a size
    is exercised on both of its sides even when it lies beyond the sizes enumerated anyway"""
    more = {k for v in literals(c, *modules) if v > done for k in (v - 1, v, v + 1) if done < k <= cap}
    return sorted(more)
