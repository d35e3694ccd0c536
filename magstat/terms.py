"""Hash-consed value graph ("value numbers") for the abstract interpreter.

A Term denotes a real number, a truth value or a PRNG key as a function of the
analysed function's inputs.  Constructors do the cheap, always-valid local
simplifications; `nf.py` decides equality and sign."""
from __future__ import annotations
from fractions import Fraction
import math

import mpmath

_table: dict = {}
_count = 0


class T:
    __slots__ = ("op", "data", "args", "id", "_iv", "__weakref__")

    def __repr__(self):
        return show(self)

    # structural identity == object identity (hash-consed)
    # operator sugar, used by the specifications
    def __add__(self, o):
        return add(self, lift(o))

    def __radd__(self, o):
        return add(lift(o), self)

    def __sub__(self, o):
        return sub(self, lift(o))

    def __rsub__(self, o):
        return sub(lift(o), self)

    def __mul__(self, o):
        return mul(self, lift(o))

    def __rmul__(self, o):
        return mul(lift(o), self)

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __pow__(self, o):
        return pw(self, lift(o))

    def __neg__(self):
        return neg(self)


def lift(x):
    return x if isinstance(x, T) else const(x)


def mk(op, data=None, args=()):
    global _count
    key = (op, data, tuple(a.id for a in args))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.data, t.args = op, data, tuple(args)
        _count += 1
        t.id = _count
        t._iv = None
        _table[key] = t
    return t


# --------------------------------------------------------------- constants
def const(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if math.isinf(x):
            return INF if x > 0 else neg(INF)
        if math.isnan(x):
            return NAN
        x = Fraction(repr(x))
    return mk("c", Fraction(x))


TRUE = mk("b", True)
FALSE = mk("b", False)
INF = mk("k", "inf")
NAN = mk("k", "nan")
PI = mk("k", "pi")
EUL = mk("k", "e")
ZERO = const(0)
ONE = const(1)
HALF = const(Fraction(1, 2))

# ---------------------------------------------------------------- intervals
# (lo, lo_open, hi, hi_open); lo/hi are Fraction or +-inf floats
_SYM: dict = {}  # symbol name -> interval
FULL = (-math.inf, True, math.inf, True)


def sym(name, lo=None, hi=None, lo_open=False, hi_open=False, integer=False):
    """symbol of this name and range; the same name with another range is another symbol"""
    rng = (
        -math.inf if lo is None else Fraction(lo),
        lo_open or lo is None,
        math.inf if hi is None else Fraction(hi),
        hi_open or hi is None,
    )
    while _SYM.setdefault(name, rng) != rng or (name in _INT) != integer and name in _SEEN:
        name += "'"
    _SEEN.add(name)
    if integer:
        _INT.add(name)
    return mk("s", name)


_SEEN: set = set()
_INT: set = set()
_fresh = [0]


def fresh(prefix="_v", **kw):
    _fresh[0] += 1
    return sym(f"{prefix}#{_fresh[0]}", **kw)


def iv_add(a, b):
    return (a[0] + b[0], a[1] or b[1], a[2] + b[2], a[3] or b[3])


def _m(x, y):
    if x == 0 or y == 0:
        return Fraction(0)
    return x * y


def iv_mul(a, b):
    cand = []
    for (x, xo) in ((a[0], a[1]), (a[2], a[3])):
        for (y, yo) in ((b[0], b[1]), (b[2], b[3])):
            v = _m(x, y)
            # product attained unless an open endpoint contributes (zero closed wins)
            if (x == 0 and not xo) or (y == 0 and not yo):
                o = False
            else:
                o = xo or yo
            cand.append((v, o))
    lo = min(c[0] for c in cand)
    hi = max(c[0] for c in cand)
    lo_open = all(o for v, o in cand if v == lo)
    hi_open = all(o for v, o in cand if v == hi)
    return (lo, lo_open, hi, hi_open)


def iv_pow(a, n):
    if n == 0:
        return (Fraction(1), False, Fraction(1), False)
    if n % 2 == 1:
        return (_p(a[0], n), a[1], _p(a[2], n), a[3])
    lo, lo_o, hi, hi_o = a
    if lo >= 0:
        return (_p(lo, n), lo_o, _p(hi, n), hi_o)
    if hi <= 0:
        return (_p(hi, n), hi_o, _p(lo, n), lo_o)
    c = [(_p(lo, n), lo_o), (_p(hi, n), hi_o)]
    m = max(v for v, _ in c)
    return (Fraction(0), False, m, all(o for v, o in c if v == m))


def _p(x, n):
    if isinstance(x, float):
        return math.inf if (x > 0 or n % 2 == 0) else -math.inf
    return x**n


def interval(t):
    if t._iv is not None and t.op != "s":
        return t._iv
    r = _interval(t)
    t._iv = r
    return r


_KV = {"pi": Fraction("3.14159265358979323846264338327950288"), "e": Fraction("2.71828182845904523536028747135266")}


def _interval(t):
    op = t.op
    if op == "c":
        return (t.data, False, t.data, False)
    if op == "k":
        if t.data in _KV:
            v = _KV[t.data]
            e = Fraction(1, 10**30)
            return (v - e, True, v + e, True)
        if t.data == "inf":
            return (math.inf, False, math.inf, False)
        return FULL
    if op == "s":
        return _SYM.get(t.data, FULL)
    if op == "+":
        r = interval(t.args[0])
        for a in t.args[1:]:
            r = iv_add(r, interval(a))
            if math.isnan(r[0]) or math.isnan(r[2]):
                return FULL
        return r
    if op == "*":
        r = interval(t.args[0])
        for a in t.args[1:]:
            r = iv_mul(r, interval(a))
            if r == FULL:
                return FULL
        return r
    if op == "^":
        b, e = t.args
        ib = interval(b)
        if e.op == "c":
            e = e.data
            if e.denominator == 1:
                n = e.numerator
                if n >= 0:
                    return iv_pow(ib, n)
                p = iv_pow(ib, -n)
                if p[0] > 0 or (p[0] == 0 and p[1]):
                    lo = Fraction(0) if p[2] == math.inf else 1 / p[2]
                    hi = math.inf if p[0] == 0 else 1 / p[0]
                    return (lo, p[3], hi, p[1])
                if p[0] == 0 and (-n) % 2 == 0:
                    return (Fraction(0), True, math.inf, True)
                if p[2] < 0 or (p[2] == 0 and p[3]):
                    hi = Fraction(0) if p[0] == -math.inf else 1 / p[0]
                    lo = -math.inf if p[2] == 0 else 1 / p[2]
                    return (lo, p[3], hi, p[1])
                return FULL
            # fractional: principal root, nonnegative
            lo, lo_o, hi, hi_o = ib
            if e > 0:
                lo2 = Fraction(0)
                lo2_o = False
                if lo > 0 or (lo == 0 and lo_o):
                    lo2_o = True
                    if lo >= 1:
                        lo2, lo2_o = Fraction(1), (lo_o or lo > 1)
                hi2, hi2_o = math.inf, True
                if hi <= 1:
                    hi2, hi2_o = Fraction(1), hi_o or hi < 1
                if hi == 0:
                    hi2, hi2_o = Fraction(0), False
                return (lo2, lo2_o, hi2, hi2_o)
            return (Fraction(0), True, math.inf, True)
        if ib[0] > 0 or (ib[0] == 0 and ib[1]):
            return (Fraction(0), True, math.inf, True)
        return FULL
    if op == "f":
        n = t.data
        if n == "~stop":
            return interval(t.args[0])
        if n in ("cos", "sin", "tanh"):
            if n == "sin":
                ia = interval(t.args[0])
                if ia[0] >= 0 and ia[2] <= Fraction(314159, 100000):
                    y = min(ia[0], Fraction(314159, 100000) - ia[2], Fraction(1))
                    if y > 0:
                        return (y - y**3 / 6, True, Fraction(1), False)
                    return (Fraction(0), (ia[0] > 0 or ia[1]) , Fraction(1), False)
            return (Fraction(-1), False, Fraction(1), False)
        if n == "exp":
            ia = interval(t.args[0])
            lo, lo_o, hi, hi_o = Fraction(0), True, math.inf, True
            if ia[0] >= 0:
                lo, lo_o = Fraction(1), ia[1] and ia[0] == 0 or ia[0] > 0
            elif ia[0] > -40:
                lo, lo_o = Fraction(1, 3) ** math.ceil(-ia[0]), True
            if ia[2] <= 0:
                hi, hi_o = Fraction(1), ia[3] and ia[2] == 0 or ia[2] < 0
            return (lo, lo_o, hi, hi_o)
        if n == "abs":
            i = iv_pow(interval(t.args[0]), 2)
            ia = interval(t.args[0])
            lo, lo_o, hi, hi_o = ia
            if lo >= 0:
                return ia
            if hi <= 0:
                return (-hi, hi_o, -lo, lo_o)
            m = max(-lo, hi)
            mo = all(o for v, o in ((-lo, lo_o), (hi, hi_o)) if v == m)
            return (Fraction(0), False, m, mo)
        if n == "frac":
            return (Fraction(0), False, Fraction(1), True)
        if n == "arccos":
            return (Fraction(0), False, _KV["pi"] + Fraction(1, 10**20), True)
        if n == "sigmoid":
            return (Fraction(0), True, Fraction(1), True)
        if n == "cosh":
            return (Fraction(1), False, math.inf, True)
        return FULL
    if op == "sel":
        a, b = interval(t.args[1]), interval(t.args[2])
        lo = min(a[0], b[0])
        hi = max(a[2], b[2])
        return (
            lo,
            all(o for v, o in ((a[0], a[1]), (b[0], b[1])) if v == lo),
            hi,
            all(o for v, o in ((a[2], a[3]), (b[2], b[3])) if v == hi),
        )
    if op == "rnd":
        if t.data[0] == "uniform":
            return (Fraction(0), False, Fraction(1), True)
        return FULL
    return FULL


def is_pos(t):
    i = interval(t)
    return i[0] > 0 or (i[0] == 0 and i[1])


def is_nonneg(t):
    return interval(t)[0] >= 0


# ------------------------------------------------------------- arithmetic
def isc(t):
    return t.op == "c"


def add(*ts):
    c = Fraction(0)
    coef: dict = {}
    order = []

    def put(t, k):
        nonlocal c
        if t.op == "c":
            c += k * t.data
        elif t.op == "+":
            for a in t.args:
                put(a, k)
        else:
            if t.op == "*" and t.args[0].op == "c":
                k = k * t.args[0].data
                rest = t.args[1:]
                t = rest[0] if len(rest) == 1 else mk("*", None, rest)
            if t in coef:
                coef[t] += k
            else:
                coef[t] = k
                order.append(t)

    for t in ts:
        put(t, Fraction(1))
    out = []
    for t in sorted(order, key=lambda t: t.id):
        k = coef[t]
        if k == 0:
            continue
        out.append(t if k == 1 else _scale(t, k))
    if c != 0 or not out:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    return mk("+", None, tuple(out))


def _scale_any(t, k):
    if t.op == "c":
        return const(t.data * k)
    if t.op == "*" and t.args[0].op == "c":
        q = t.args[0].data * k
        rest = t.args[1:]
        if q == 1:
            return rest[0] if len(rest) == 1 else mk("*", None, rest)
        return mk("*", None, (const(q),) + rest)
    return _scale(t, Fraction(k))


def _scale(t, k):
    if t.op == "*":
        return mk("*", None, (const(k),) + t.args)
    return mk("*", None, (const(k), t))


def mul(*ts):
    c = Fraction(1)
    pows: dict = {}
    order = []

    def put(t):
        nonlocal c
        if t.op == "c":
            c *= t.data
        elif t.op == "*":
            for a in t.args:
                put(a)
        else:
            b, e = t, Fraction(1)
            if t.op == "^" and t.args[1].op == "c":
                b, e = t.args[0], t.args[1].data
            if b.op == "+" and e.denominator == 1 and _leading_neg(b):
                # sums are signed by their first member
                b = add(*[_scale_any(a, -1) for a in b.args])
                if e.numerator % 2:
                    c = -c
            # only merge integer powers, or equal fractional bases
            if b in pows:
                pows[b] += e
            else:
                pows[b] = e
                order.append(b)

    for t in ts:
        put(t)
    if c == 0:
        if any(t is NAN or t is INF or (t is ZERO and e < 0) for t, e in pows.items()):
            return NAN
        return ZERO
    out = []
    for b in sorted(order, key=lambda t: t.id):
        e = pows[b]
        if e == 0:
            continue
        p = b if e == 1 else pw(b, const(e))
        if p.op == "c":
            c *= p.data
        elif p.op == "*":
            # rare: pw simplified into product
            for q in p.args:
                if q.op == "c":
                    c *= q.data
                else:
                    out.append(q)
        else:
            out.append(p)
    if not out:
        return const(c)
    if len(out) == 1 and c == 1:
        return out[0]
    if c != 1 and len(out) == 1 and out[0].op == "+":
        return add(*[mul(const(c), a) for a in out[0].args])
    out.sort(key=lambda t: t.id)
    return mk("*", None, ((const(c),) if c != 1 else ()) + tuple(out))


def neg(t):
    return mul(const(-1), t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, pw(b, const(-1)))


def _iroot(n, q):
    if n < 0:
        return None
    r = round(n ** (1.0 / q)) if n < 10**300 else int(mpmath.root(n, q))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c**q == n:
            return c
    return None


def pw(b, e):
    if e.op == "c":
        k = e.data
        if k == 1:
            return b
        if k == 0:
            return ONE
        if b.op == "c":
            if k.denominator == 1:
                if b.data == 0 and k < 0:
                    return mk("^", None, (b, e))
                return const(b.data**k.numerator)
            if b.data == 0 and k > 0:
                return ZERO
            if b.data > 0:
                q = k.denominator
                n, d = _iroot(b.data.numerator, q), _iroot(b.data.denominator, q)
                if n is not None and d is not None:
                    return const(Fraction(n, d) ** k.numerator)
        if b is INF and k > 0:
            return INF
        if b is INF and k < 0:
            return ZERO
        if b.op == "^" and b.args[1].op == "c":
            p = b.args[1].data
            if k.denominator == 1:
                return pw(b.args[0], const(p * k))
            if is_nonneg(b.args[0]):
                return pw(b.args[0], const(p * k))
            if p.denominator == 1 and p.numerator % 2 == 0:
                return pw(fabs(b.args[0]), const(p * k))
        if b.op == "f" and b.data == "abs" and k.denominator == 1 and k.numerator % 2 == 0:
            return pw(b.args[0], e)
        if b.op == "*" and k.denominator == 1:
            return mul(*[pw(a, e) for a in b.args])
        if b.op == "+" and k.denominator == 1 and _leading_neg(b):
            b = add(*[_scale_any(a, -1) for a in b.args])
            if k.numerator % 2:
                return mul(const(-1), mk("^", None, (b, e)))
        if b.op == "f" and b.data == "exp":
            return fn("exp", mul(b.args[0], e))
    if b is ONE:
        return ONE
    if b is EUL:
        return fn("exp", e)
    return mk("^", None, (b, e))


def sqrt(t):
    return pw(t, HALF)


def fabs(t):
    i = interval(t)
    if i[0] >= 0:
        return t
    if i[2] <= 0:
        return neg(t)
    if t.op == "f" and t.data == "abs":
        return t
    if t.op == "c":
        return const(abs(t.data))
    if t.op == "*" and t.args[0].op == "c":
        return mul(const(abs(t.args[0].data)), fabs(mul(*t.args[1:])))
    if t.op == "+":
        lead = t.args[0]
        k = lead.args[0].data if lead.op == "*" and lead.args[0].op == "c" else (lead.data if lead.op == "c" else 1)
        if k < 0:
            t = neg(t)
    return mk("f", "abs", (t,))


_TRIG = {}


def pi_multiple(t):
    """t == r*pi with rational r ?"""
    if t.op == "c" and t.data == 0:
        return Fraction(0)
    if t is PI:
        return Fraction(1)
    if t.op == "*" and len(t.args) == 2 and t.args[0].op == "c" and t.args[1] is PI:
        return t.args[0].data
    return None


def fn(name, *args):
    a = args[0]
    if name == "abs":
        return fabs(a)
    if name in ("cos", "sin"):
        r = pi_multiple(a)
        if r is not None and (r * 2).denominator == 1:
            k = int(r * 2) % 4
            return const({"cos": (1, 0, -1, 0), "sin": (0, 1, 0, -1)}[name][k])
        if r is not None and (r * 6).denominator == 1:
            # multiples of pi/6, pi/3
            k = int(r * 6) % 12
            s3 = mul(HALF, sqrt(const(3)))
            sn = [ZERO, HALF, s3, ONE, s3, HALF, ZERO, neg(HALF), neg(s3), const(-1), neg(s3), neg(HALF)]
            return sn[k] if name == "sin" else sn[(k + 3) % 12]
        if r is not None and (r * 4).denominator == 1:
            k = int(r * 4) % 8
            s2 = mul(HALF, sqrt(const(2)))
            sn = [ZERO, s2, ONE, s2, ZERO, neg(s2), const(-1), neg(s2)]
            return sn[k] if name == "sin" else sn[(k + 2) % 8]
        if a.op == "f" and a.data == "arccos":
            return a.args[0] if name == "cos" else sqrt(sub(ONE, pw(a.args[0], const(2))))
        # parity
        if _leading_neg(a):
            return fn("cos", neg(a)) if name == "cos" else neg(fn("sin", neg(a)))
    if name == "tan":
        return div(fn("sin", a), fn("cos", a))
    if name == "exp":
        if a is ZERO:
            return ONE
        if a.op == "f" and a.data == "log":
            return a.args[0]
    if name == "log":
        if a is ONE:
            return ZERO
        if a is EUL:
            return ONE
        if a.op == "f" and a.data == "exp":
            return a.args[0]
        if a.op == "^" and a.args[1].op == "c":
            b = a.args[0] if a.args[1].data.denominator != 1 or a.args[1].data % 2 else fabs(a.args[0])
            return mul(a.args[1], fn("log", b)) if b is not a else mk("f", "log", (a,))
    if name in ("tanh", "sinh", "arctan", "arcsin", "erf") and a is ZERO:
        return ZERO
    if name in ("tanh", "sinh", "arctan", "arcsin", "erf") and _leading_neg(a):
        return neg(fn(name, neg(a)))
    if name == "log" and a.op == "*" and sum(is_pos(x) for x in a.args) == len(a.args):
        return add(*[fn("log", x) for x in a.args])
    if name == "arccos" and a.op == "f" and a.data == "cos":
        i = interval(a.args[0])
        if i[0] >= 0 and i[2] <= Fraction(314159, 100000):
            return a.args[0]
    if name == "arccos" and a.op == "c":
        if a.data in (1, 0, -1):
            return mul(const({1: 0, 0: Fraction(1, 2), -1: 1}[int(a.data)]), PI)
    if name == "frac":
        i = interval(a)
        if i[0] >= 0 and (i[2] < 1 or (i[2] == 1 and i[3])):
            return a
        if a.op == "c":
            return const(a.data - math.floor(a.data))
        if a.op == "+":
            for x in a.args:
                if x.op == "c":
                    f = math.floor(x.data)
                    if f:
                        return fn("frac", sub(a, const(f)))
    if name == "floor":
        if a.op == "c":
            return const(math.floor(a.data))
        return sub(a, fn("frac", a))
    if name == "sinh":
        return mul(HALF, sub(fn("exp", a), fn("exp", neg(a))))
    if name == "cosh":
        return mul(HALF, add(fn("exp", a), fn("exp", neg(a))))
    return mk("f", name, args)


def _leading_neg(a):
    if a.op == "c":
        return a.data < 0
    if a.op == "*":
        return a.args[0].op == "c" and a.args[0].data < 0
    if a.op == "+":
        f = a.args[0]
        return f.op == "*" and f.args[0].op == "c" and f.args[0].data < 0
    return False


def mod(a, b):
    """python/jnp modulo with b > 0"""
    if a.op == "c" and b.op == "c":
        return const(a.data % b.data)
    if b is ONE:
        return fn("frac", a)
    return mul(b, fn("frac", div(a, b)))


def sign(t):
    return sel(gt0(t), ONE, sel(eq0(t), ZERO, const(-1)))


def tmin(a, b):
    if a is b:
        return a
    return sel(ge0(sub(b, a)), a, b)


def tmax(a, b):
    if a is b:
        return a
    return sel(ge0(sub(b, a)), b, a)


# ------------------------------------------------------------------ logic
def _normcmp(t):
    """divide by positive constant content of leading coefficient"""
    if t.op == "*" and t.args[0].op == "c":
        k = abs(t.args[0].data)
        if k != 1:
            return mul(const(1 / k), t)
    return t


def gt0(t):
    if t.op == "c":
        return TRUE if t.data > 0 else FALSE
    if t is INF:
        return TRUE
    if t.op == "sel":
        return sel(t.args[0], gt0(t.args[1]), gt0(t.args[2]))
    i = interval(t)
    if i[0] > 0 or (i[0] == 0 and i[1]):
        return TRUE
    if i[2] < 0 or i[2] == 0:
        return FALSE
    return mk("gt0", None, (_normcmp(t),))


def ge0(t):
    if t.op == "c":
        return TRUE if t.data >= 0 else FALSE
    if t is INF:
        return TRUE
    if t.op == "sel":
        return sel(t.args[0], ge0(t.args[1]), ge0(t.args[2]))
    i = interval(t)
    if i[0] >= 0:
        return TRUE
    if i[2] < 0 or (i[2] == 0 and i[3]):
        return FALSE
    return not_(gt0(neg(t)))


def eq0(t):
    if t.op == "c":
        return TRUE if t.data == 0 else FALSE
    if t.op == "sel":
        return sel(t.args[0], eq0(t.args[1]), eq0(t.args[2]))
    i = interval(t)
    if i[0] > 0 or i[2] < 0 or (i[0] == 0 and i[1]) or (i[2] == 0 and i[3]):
        return FALSE
    if _leading_neg(t):
        t = neg(t)
    return mk("eq0", None, (_normcmp(t),))


def lt(a, b):
    if b is INF and a is not INF:
        return TRUE if a.op != "k" or a.data != "nan" else FALSE
    return gt0(sub(b, a))


def le(a, b):
    if b is INF:
        return TRUE
    if a is INF:
        return FALSE
    return ge0(sub(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if is_key(a) or is_key(b):
        return mk("eqk", None, (a, b))
    if is_bool(a) or is_bool(b):
        a, b = as_bool(a), as_bool(b)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return eq0(sub(a, b))


def not_(t):
    if t.op == "b":
        return FALSE if t.data else TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "sel":
        return sel(t.args[0], not_(t.args[1]), not_(t.args[2]))
    return mk("not", None, (t,))


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for u in t.args if t.op == "and" else (t,):
            if u not in out:
                out.append(u)
    if not out:
        return TRUE
    for u in out:
        if not_(u) in out:
            return FALSE
    if len(out) == 1:
        return out[0]
    return mk("and", None, tuple(sorted(out, key=lambda t: t.id)))


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def is_bool(t):
    return t.op in ("b", "gt0", "eq0", "not", "and", "eqk", "bs") or (t.op == "sel" and is_bool(t.args[1]))


def is_key(t):
    return t.op in ("key", "split", "fold")


def as_bool(t):
    if is_bool(t):
        return t
    return not_(eq0(t))


def as_num(t):
    if is_bool(t):
        return sel(t, ONE, ZERO)
    return t


def boolsym(name):
    return mk("bs", name)


def sel(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return not_(and_(not_(and_(c, a)), not_(and_(not_(c), b))))
    if is_bool(a) != is_bool(b):
        a, b = as_num(a), as_num(b)
        if a is b:
            return a
    if c.op == "not":
        return sel(c.args[0], b, a)
    if a.op == "sel" and a.args[0] is c:
        a = a.args[1]
    if b.op == "sel" and b.args[0] is c:
        b = b.args[2]
    return mk("sel", None, (c, a, b))


# ----------------------------------------------- uninterpreted applications
def ufun(name, out, args, D=None):
    D = D or (0,) * len(args)
    return mk("U", (name, out, D), tuple(args))


# ------------------------------------------------------------------- diff
_dmemo: dict = {}


def diff(t, x):
    key = (t.id, x.id)
    r = _dmemo.get(key)
    if r is None:
        r = _diff(t, x)
        _dmemo[key] = r
    return r


_dep: dict = {}


def syms(t):
    r = _dep.get(t.id)
    if r is None:
        if t.op in ("s", "rnd", "key", "bs"):
            r = frozenset((t,))
            for a in t.args:
                r = r | syms(a)
        else:
            r = frozenset()
            for a in t.args:
                r = r | syms(a)
        _dep[t.id] = r
    return r


def _diff(t, x):
    op = t.op
    if t is x:
        return ONE
    if x not in syms(t):
        return ZERO
    if op == "+":
        return add(*[diff(a, x) for a in t.args])
    if op == "*":
        out = []
        for i, a in enumerate(t.args):
            d = diff(a, x)
            if d is not ZERO:
                out.append(mul(d, *(t.args[:i] + t.args[i + 1 :])))
        return add(*out) if out else ZERO
    if op == "^":
        b, e = t.args
        db, de = diff(b, x), diff(e, x)
        r = []
        if db is not ZERO:
            r.append(mul(e, pw(b, sub(e, ONE)), db))
        if de is not ZERO:
            r.append(mul(t, fn("log", b), de))
        return add(*r) if r else ZERO
    if op == "f":
        a = t.args[0]
        da = diff(a, x)
        n = t.data
        if n == "cos":
            d = neg(fn("sin", a))
        elif n == "sin":
            d = fn("cos", a)
        elif n == "exp":
            d = t
        elif n == "log":
            d = pw(a, const(-1))
        elif n == "tanh":
            d = sub(ONE, pw(t, const(2)))
        elif n == "abs":
            d = sign(a)
        elif n == "frac":
            d = ONE
        elif n == "arccos":
            d = neg(pw(sub(ONE, pw(a, const(2))), const(Fraction(-1, 2))))
        elif n == "arcsin":
            d = pw(sub(ONE, pw(a, const(2))), const(Fraction(-1, 2)))
        elif n == "arctan":
            d = pw(add(ONE, pw(a, const(2))), const(-1))
        elif n == "arctan2":
            y, xx = t.args
            r2 = add(mul(y, y), mul(xx, xx))
            return div(sub(mul(xx, diff(y, x)), mul(y, diff(xx, x))), r2)
        elif n == "sigmoid":
            d = mul(t, sub(ONE, t))
        elif n.startswith("~"):  # stop_gradient / opaque smooth function
            if n == "~stop":
                return ZERO
            d = mk("f", n + "'", t.args)
        else:
            raise NotImplementedError(f"derivative of {n}")
        return mul(d, da)
    if op == "sel":
        c, a, b = t.args
        return sel(c, diff(a, x), diff(b, x))
    if op == "U":
        name, out, D = t.data
        r = []
        for j, a in enumerate(t.args):
            da = diff(a, x)
            if da is not ZERO:
                D2 = D[:j] + (D[j] + 1,) + D[j + 1 :]
                r.append(mul(mk("U", (name, out, D2), t.args), da))
        return add(*r) if r else ZERO
    if op in ("gt0", "eq0", "and", "not", "b"):
        return ZERO
    if op == "rnd":
        return ZERO
    raise NotImplementedError(f"derivative of op {op}")


# ------------------------------------------------------------------ subst
def subst(t, m, memo=None):
    """m: {T -> T}; keys are symbols or whole subterms"""
    if memo is None:
        memo = {}
    keys = [frozenset(syms(k)) for k in m]

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t.id)
        if r is not None:
            return r
        if not any(k <= syms(t) for k in keys):
            memo[t.id] = t
            return t
        r = rebuild(t, [go(a) for a in t.args])
        memo[t.id] = r
        return r

    return go(t)


def rebuild(t, args):
    op = t.op
    if op == "+":
        return add(*args)
    if op == "*":
        return mul(*args)
    if op == "^":
        return pw(*args)
    if op == "f":
        return fn(t.data, *args)
    if op == "sel":
        return sel(*args)
    if op == "gt0":
        return gt0(args[0])
    if op == "eq0":
        return eq0(args[0])
    if op == "and":
        return and_(*args)
    if op == "not":
        return not_(args[0])
    return mk(op, t.data, tuple(args))


STOPS = []  # non-empty once stop_gradient has been met


def stop(t):
    """same value, zero derivative"""
    STOPS[:] = [True]
    return t if t.op in "ckb" or is_bool(t) or is_key(t) else mk("f", "~stop", (t,))


def unstop(t):
    return map_terms(t, lambda n: n.args[0] if n.op == "f" and n.data == "~stop" else None) if STOPS else t


def map_terms(t, f, memo=None):
    """bottom-up rewrite: f(term) -> term or None"""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        n = rebuild(t, [go(a) for a in t.args]) if t.args else t
        g = f(n)
        r = n if g is None else g
        memo[t.id] = r
        return r

    return go(t)


def subterms(*ts):
    seen = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        stack.extend(t.args)
    return list(seen.values())


# ------------------------------------------------------------- evaluation
class Undef(Exception):
    pass


def _hash01(*key):
    import hashlib

    h = hashlib.sha256(repr(key).encode()).digest()
    return mpmath.mpf(int.from_bytes(h[:8], "big")) / mpmath.mpf(2**64)


EPS = [mpmath.mpf(10) ** -30]


def evaluate(t, env, memo=None):
    """high precision evaluation of the value graph at a separating point."""
    if memo is None:
        memo = {}

    def go(t):
        if t.id in memo:
            return memo[t.id]
        r = ev(t)
        memo[t.id] = r
        return r

    def ev(t):
        op = t.op
        if op == "c":
            return mpmath.mpf(t.data.numerator) / t.data.denominator
        if op == "b":
            return t.data
        if op == "k":
            if t.data == "pi":
                return mpmath.pi + 0
            if t.data == "e":
                return mpmath.e + 0
            if t.data == "inf":
                return mpmath.inf
            raise Undef("nan")
        if op in ("s", "bs"):
            if t in env:
                return env[t]
            raise Undef(f"unassigned {t.data}")
        if op == "+":
            return mpmath.fsum(go(a) for a in t.args)
        if op == "*":
            r = mpmath.mpf(1)
            for a in t.args:
                r *= go(a)
            if mpmath.isnan(r):
                raise Undef("nan")
            return r
        if op == "^":
            b, e = go(t.args[0]), go(t.args[1])
            if t.args[1].op == "c" and t.args[1].data.denominator == 1:
                n = t.args[1].data.numerator
                if b == 0 and n < 0:
                    raise Undef("1/0")
                return b**n
            if b < 0:
                raise Undef("root of negative")
            if b == 0:
                if e > 0:
                    return mpmath.mpf(0)
                raise Undef("0^neg")
            return b**e
        if op == "f":
            a = [go(x) for x in t.args]
            n = t.data
            try:
                if n == "~stop":
                    return a[0]
                if n == "abs":
                    return abs(a[0])
                if n == "frac":
                    if abs(a[0] - mpmath.nint(a[0])) < EPS[0]:
                        return mpmath.mpf(0)
                    return a[0] - mpmath.floor(a[0])
                if n == "arccos":
                    if abs(a[0]) > 1:
                        raise Undef("acos")
                    return mpmath.acos(a[0])
                if n == "arcsin":
                    if abs(a[0]) > 1:
                        raise Undef("asin")
                    return mpmath.asin(a[0])
                if n == "arctan":
                    return mpmath.atan(a[0])
                if n == "arctan2":
                    return mpmath.atan2(a[0], a[1])
                if n == "log":
                    if a[0] <= 0:
                        raise Undef("log")
                    return mpmath.log(a[0])
                if n == "sigmoid":
                    return 1 / (1 + mpmath.exp(-a[0]))
                if n in ("cos", "sin", "exp", "tanh", "erf"):
                    return getattr(mpmath, n)(a[0])
            except (ValueError, OverflowError) as e:
                raise Undef(str(e))
            return _hash01("f", n, *[mpmath.nstr(x, 18) if not isinstance(x, bool) else x for x in a]) * 3 - mpmath.mpf(3) / 2
        if op == "sel":
            return go(t.args[1]) if go(t.args[0]) else go(t.args[2])
        if op == "gt0":
            return go(t.args[0]) > EPS[0]
        if op == "eq0":
            return abs(go(t.args[0])) <= EPS[0]
        if op == "and":
            return all(go(a) for a in t.args)
        if op == "not":
            return not go(t.args[0])
        if op == "U":
            name, out, D = t.data
            a = [go(x) for x in t.args]
            return _hash01("U", name, out, D, *[q(x) for x in a]) * 3 - mpmath.mpf(3) / 2
        if op in ("split", "fold", "key"):
            return (op, t.data) + tuple(go(a) for a in t.args)
        if op == "eqk":
            return go(t.args[0]) == go(t.args[1])
        if op == "rnd":
            if t in env:
                return env[t]
            return _hash01("rnd", t.data, tuple(go(a) for a in t.args))
        raise Undef(f"eval {op}")

    def q(x):
        if isinstance(x, (bool, tuple)):
            return x
        x = mpmath.mpf(x)
        if abs(x) < mpmath.mpf(10) ** -25:
            return "0"
        return mpmath.nstr(x, 18)

    return go(t)


# ------------------------------------------------------------------- show
def show(t, depth=12):
    op = t.op
    if depth <= 0:
        return "…"
    d = depth - 1
    if op == "c":
        return str(t.data)
    if op == "b":
        return str(t.data)
    if op in ("s", "bs", "k"):
        return str(t.data)
    if op == "+":
        return "(" + " + ".join(show(a, d) for a in t.args) + ")"
    if op == "*":
        return "*".join(show(a, d) for a in t.args)
    if op == "^":
        if t.args[1] is HALF:
            return f"sqrt({show(t.args[0], d)})"
        return f"{show(t.args[0], d)}^{show(t.args[1], d)}"
    if op == "f":
        return f"{t.data}({', '.join(show(a, d) for a in t.args)})"
    if op == "sel":
        return f"sel({', '.join(show(a, d) for a in t.args)})"
    if op == "gt0":
        return f"[{show(t.args[0], d)} > 0]"
    if op == "eq0":
        return f"[{show(t.args[0], d)} == 0]"
    if op == "not":
        return f"!{show(t.args[0], d)}"
    if op == "and":
        return "(" + " & ".join(show(a, d) for a in t.args) + ")"
    if op == "U":
        name, out, D = t.data
        s = name + (str(out) if out != () else "")
        if any(D):
            s = f"D{list(D)}{s}"
        return f"{s}({', '.join(show(a, d) for a in t.args)})"
    return f"{op}:{t.data}({', '.join(show(a, d) for a in t.args)})"
