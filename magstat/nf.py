"""Normal forms and decisions on value graphs.

Equality of two value graphs is decided by bringing their difference to a
rational normal form over atoms (symbols, uninterpreted applications, radicals,
trigonometric and exponential atoms with their defining relations), after
splitting the graph on the sign of every guard polynomial.  No solver and no
path enumeration of the program is involved: guards are part of the value.

A negative answer is only given together with a separating assignment of the
symbols, at which the two value graphs evaluate to different numbers."""
from __future__ import annotations
from fractions import Fraction
from math import gcd
import itertools
import math
import random

import mpmath

from . import terms as tm
from .terms import T, const, ZERO, ONE

mpmath.mp.dps = 40

MAXTERMS = 6000
MAXCASES = 3000


class TooBig(Exception):
    pass


class NotNF(Exception):
    pass


# ------------------------------------------------------------ expand (T level)
def linear_split(t):
    """t = sum c_i * r_i with rational c_i (r_i is a T without coefficient, ONE for constants)"""
    out = {}

    def put(t, k):
        if t.op == "c":
            out[ONE] = out.get(ONE, 0) + k * t.data
        elif t.op == "+":
            for a in t.args:
                put(a, k)
        elif t.op == "*":
            k2 = k
            rest = t.args
            if rest[0].op == "c":
                k2 = k * rest[0].data
                rest = rest[1:]
            sums = [i for i, r in enumerate(rest) if r.op == "+"]
            if sums:
                i = sums[0]
                others = rest[:i] + rest[i + 1 :]
                for a in rest[i].args:
                    put(tm.mul(a, *others), k2)
            else:
                r = rest[0] if len(rest) == 1 else tm.mul(*rest)
                out[r] = out.get(r, 0) + k2
        else:
            out[t] = out.get(t, 0) + k

    put(t, Fraction(1))
    return {r: c for r, c in out.items() if c != 0}


def fgcd(a, b):
    if a == 0:
        return abs(b)
    if b == 0:
        return abs(a)
    return Fraction(gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


class Atom:
    __slots__ = ("idx", "term", "kind", "rel", "q", "partner")

    def __init__(self, idx, term, kind):
        self.idx, self.term, self.kind = idx, term, kind
        self.rel = None  # polynomial equal to atom**q
        self.q = None
        self.partner = None


class Algebra:
    def __init__(self, roots=(), facts=()):
        self.facts = [f for f in facts if isinstance(f[0], T) and not isinstance(f[1], bool)]
        self._fk = None
        self.atoms: list[Atom] = []
        self.bykey: dict = {}
        self.memo: dict = {}
        self.fpoly: dict = {}
        self.trig_unit: dict = {}
        self.exp_unit: dict = {}
        for t in tm.subterms(*roots):
            if t.op == "f" and t.data in ("cos", "sin"):
                for r, c in linear_split(t.args[0]).items():
                    if r is not ONE:
                        self.trig_unit[r] = fgcd(self.trig_unit.get(r, Fraction(0)), c)
            if t.op == "f" and t.data == "exp":
                for r, c in linear_split(t.args[0]).items():
                    self.exp_unit[r] = fgcd(self.exp_unit.get(r, Fraction(0)), c)

    # -------------------------------------------------------------- atoms
    def atom(self, key, term, kind):
        a = self.bykey.get(key)
        if a is None:
            a = Atom(len(self.atoms), term, kind)
            self.atoms.append(a)
            self.bykey[key] = a
        return a

    # ---------------------------------------------------------- polynomials
    def p_const(self, c):
        c = Fraction(c)
        return {(): c} if c else {}

    def p_atom(self, a, e=1):
        return self.reduce({((a.idx, e),): Fraction(1)})

    def p_add(self, a, b, kb=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + kb * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def p_scale(self, a, k):
        return {m: c * k for m, c in a.items()} if k else {}

    @staticmethod
    def m_mul(m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        i = j = 0
        out = []
        while i < len(m1) and j < len(m2):
            a, b = m1[i], m2[j]
            if a[0] < b[0]:
                out.append(a)
                i += 1
            elif a[0] > b[0]:
                out.append(b)
                j += 1
            else:
                out.append((a[0], a[1] + b[1]))
                i += 1
                j += 1
        out.extend(m1[i:])
        out.extend(m2[j:])
        return tuple(out)

    def p_mul(self, a, b):
        if len(a) * len(b) > MAXTERMS * 40:
            raise TooBig
        r: dict = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.m_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > MAXTERMS:
            raise TooBig
        return self.reduce(r)

    def p_pow(self, a, n):
        r = self.p_const(1)
        while n:
            if n & 1:
                r = self.p_mul(r, a)
            n >>= 1
            if n:
                a = self.p_mul(a, a)
        return r

    def reduce(self, p):
        while True:
            bad = None
            for m in p:
                for (i, e) in m:
                    at = self.atoms[i]
                    if at.rel is not None and e >= at.q:
                        bad = i
                        break
                if bad is not None:
                    break
            if bad is None:
                return p
            at = self.atoms[bad]
            keep: dict = {}
            out: dict = {}
            powers = {}
            for m, c in p.items():
                e = dict(m).get(bad, 0)
                if e >= at.q:
                    k, rem = divmod(e, at.q)
                    m2 = tuple(x for x in m if x[0] != bad)
                    if rem:
                        m2 = tuple(sorted(m2 + ((bad, rem),)))
                    powers.setdefault(k, {})
                    powers[k][m2] = powers[k].get(m2, 0) + c
                else:
                    keep[m] = c
            out = keep
            for k, q in powers.items():
                rp = self.p_const(1)
                for _ in range(k):
                    rp = self._raw_mul(rp, at.rel)
                out = self.p_add(out, self._raw_mul(q, rp))
            if len(out) > MAXTERMS:
                raise TooBig
            p = out

    def _raw_mul(self, a, b):
        r: dict = {}
        if len(a) * len(b) > MAXTERMS * 40:
            raise TooBig
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.m_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def lead(self, p):
        m = max(p, key=self._mkey)
        return m, p[m]

    @staticmethod
    def _mkey(m):
        # a genuine monomial order (lex on reversed index), needed for division
        return tuple(sorted(((-i, e) for i, e in m), reverse=True))

    def p_div(self, a, b):
        """exact division or None"""
        if not b:
            return None
        lm, lc = self.lead(b)
        if len(b) == 1 and not lm:
            return self.p_scale(a, 1 / lc)
        if len(a) > 400 or len(b) > 60:
            return None
        q: dict = {}
        r = dict(a)
        steps = 0
        lmd = dict(lm)
        while r:
            steps += 1
            if steps > 600:
                return None
            m, c = self.lead(r)
            md = dict(m)
            for i, e in lmd.items():
                if md.get(i, 0) < e:
                    return None
                md[i] -= e
            mq = tuple(sorted((i, e) for i, e in md.items() if e))
            cq = c / lc
            q[mq] = q.get(mq, 0) + cq
            r = self.p_add(r, self._raw_mul({mq: cq}, b), -1)
        return {m: c for m, c in q.items() if c}

    # ------------------------------------------------- rational functions
    # nf = (num poly, den {fkey: exp})
    def fkey(self, p):
        """register monic factor; returns (coefficient, key)"""
        m, c = self.lead(p)
        q = {k: v / c for k, v in p.items()}
        key = frozenset(q.items())
        self.fpoly[key] = q
        return c, key

    def nf_const(self, c):
        return (self.p_const(c), {})

    def nf_add(self, a, b):
        if not a[0]:
            return b
        if not b[0]:
            return a
        if a[1] == b[1]:
            return self.cancel((self.p_add(a[0], b[0]), a[1]))
        L = dict(a[1])
        for k, e in b[1].items():
            L[k] = max(L.get(k, 0), e)

        def lift(n, d):
            for k, e in L.items():
                x = e - d.get(k, 0)
                for _ in range(x):
                    n = self.p_mul(n, self.fpoly[k])
            return n

        return self.cancel((self.p_add(lift(a[0], a[1]), lift(b[0], b[1])), L))

    def nf_mul(self, a, b):
        n = self.p_mul(a[0], b[0])
        d = dict(a[1])
        for k, e in b[1].items():
            d[k] = d.get(k, 0) + e
        return self.cancel((n, d))

    def cancel(self, a):
        n, d = a
        if not n:
            return ({}, {})
        if not d:
            return a
        d = dict(d)
        for k in list(d):
            f = self.fpoly[k]
            while d.get(k, 0) > 0:
                q = self.p_div(n, f)
                if q is None:
                    break
                n = q
                d[k] -= 1
            if not d[k]:
                del d[k]
        return (n, d)

    def nf_inv(self, a):
        n, d = a
        if not n:
            raise NotNF("division by zero")
        # move den to num
        num = self.p_const(1)
        for k, e in d.items():
            for _ in range(e):
                num = self.p_mul(num, self.fpoly[k])
        den = {}
        # split monomial content of n
        common = None
        for m in n:
            md = dict(m)
            if common is None:
                common = md
            else:
                common = {i: min(e, md[i]) for i, e in common.items() if i in md}
        common = {i: e for i, e in (common or {}).items() if e}
        if common:
            cm = tuple(sorted(common.items()))
            n2 = {}
            for m, c in n.items():
                md = dict(m)
                for i, e in common.items():
                    md[i] -= e
                n2[tuple(sorted((i, e) for i, e in md.items() if e))] = c
            n = n2
            for i, e in common.items():
                at = self.atoms[i]
                if at.rel is not None:
                    # 1/R^e = R^(q-e)/rel
                    num = self.p_mul(num, {((i, at.q - e),): Fraction(1)})
                    inv = self.nf_inv((dict(at.rel), {}))
                    num = self.p_mul(num, inv[0])
                    for k, x in inv[1].items():
                        den[k] = den.get(k, 0) + x
                else:
                    c, k = self.fkey({((i, 1),): Fraction(1)})
                    den[k] = den.get(k, 0) + e
        # rationalise quadratic atoms in n
        guard = 0
        while True:
            q = None
            for m in n:
                for (i, e) in m:
                    at = self.atoms[i]
                    if at.rel is not None and at.q == 2:
                        if q is None or i > q:
                            q = i
            if q is None or len(n) == 1:
                break
            guard += 1
            if guard > 8:
                break
            A, B = {}, {}
            for m, c in n.items():
                md = dict(m)
                if q in md:
                    md.pop(q)
                    B[tuple(sorted(md.items()))] = c
                else:
                    A[m] = c
            conj = self.p_add(A, self.p_mul(B, {((q, 1),): Fraction(1)}), -1)
            new = self.p_add(self.p_mul(A, A), self.p_mul(self.p_mul(B, B), self.atoms[q].rel), -1)
            if not new:
                break  # A^2 = B^2 s : cannot rationalise, keep radical
            num = self.p_mul(num, conj)
            n = new
        if len(n) == 1 and () in n:
            num = self.p_scale(num, 1 / n[()])
        else:
            # content of n may have new monomial factors; recurse once
            if guard:
                inv = self.nf_inv((n, {}))
                num = self.p_mul(num, inv[0])
                for k, x in inv[1].items():
                    den[k] = den.get(k, 0) + x
            else:
                c, k = self.fkey(n)
                den[k] = den.get(k, 0) + 1
                num = self.p_scale(num, 1 / c)
        return self.cancel((num, den))

    def nf_pow(self, a, n):
        if n < 0:
            a = self.nf_inv(a)
            n = -n
        r = self.nf_const(1)
        while n:
            if n & 1:
                r = self.nf_mul(r, a)
            n >>= 1
            if n:
                a = self.nf_mul(a, a)
        return r

    def denpoly(self, d):
        p = self.p_const(1)
        for k, e in d.items():
            for _ in range(e):
                p = self.p_mul(p, self.fpoly[k])
        return p

    def key(self, a):
        """canonical hashable key of a normal form"""
        n, d = a
        if not d:
            return (frozenset(n.items()), None)
        if len(n) < 60 and sum(len(self.fpoly[k]) for k in d) < 60:
            n, d = self.gcd_reduce(n, d)
        dp = self.denpoly(d)
        if dp:
            m, c = self.lead(dp)
            n = self.p_scale(n, 1 / c)
            dp = self.p_scale(dp, 1 / c)
        return (frozenset(n.items()), frozenset(dp.items()))

    def gcd_reduce(self, n, d):
        out_d = {}
        for k, e in d.items():
            f = self.fpoly[k]
            if len(f) == 1:
                out_d[k] = e
                continue
            g = self.p_gcd(n, f)
            if g is None or len(g) <= 1:
                out_d[k] = e
                continue
            q = self.p_div(f, g)
            n2 = self.p_div(n, g)
            if q is None or n2 is None:
                out_d[k] = e
                continue
            # f = g*q ; n/f^e -> n2/(q f^(e-1))
            n = n2
            c, kq = self.fkey(q)
            n = self.p_scale(n, 1 / c)
            if not (len(q) == 1 and () in q):
                out_d[kq] = out_d.get(kq, 0) + 1
            if e > 1:
                out_d[k] = out_d.get(k, 0) + e - 1
        return n, out_d

    def to_sympy(self, *ps):
        import sympy
        from sympy.polys.rings import ring
        from sympy import QQ

        used = sorted({i for p in ps for m in p for i, _ in m})
        if not used:
            return None
        R, *gens = ring([f"a{i}" for i in used], QQ)
        pos = {i: k for k, i in enumerate(used)}
        out = []
        for p in ps:
            d = {}
            for m, c in p.items():
                ex = [0] * len(used)
                for i, e in m:
                    ex[pos[i]] = e
                d[tuple(ex)] = QQ(c.numerator, c.denominator)
            out.append(R.from_dict(d))
        return R, used, out

    def from_sympy(self, el, used):
        p = {}
        for ex, c in el.terms():
            m = tuple((used[k], e) for k, e in enumerate(ex) if e)
            p[m] = Fraction(int(c.numerator), int(c.denominator))
        return p

    def p_gcd(self, a, b):
        s = self.to_sympy(a, b)
        if s is None:
            return None
        R, used, (x, y) = s
        if len(used) > 10:
            return None
        return self.from_sympy(x.gcd(y), used)

    def factors(self, p):
        """(coef, [(poly, mult)])"""
        if len(p) <= 1 or len(p) > 150:
            return Fraction(1), [(p, 1)]
        s = self.to_sympy(p)
        if s is None:
            return p.get((), Fraction(0)), []
        R, used, (x,) = s
        if len(used) > 9:
            return Fraction(1), [(p, 1)]
        c, fs = x.factor_list()
        return Fraction(int(c.numerator), int(c.denominator)), [(self.from_sympy(f, used), e) for f, e in fs]

    # ------------------------------------------------------------- nf(term)
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._nf(t)
            self.memo[t.id] = r
        return r

    def _nf(self, t):
        op = t.op
        if op == "c":
            return self.nf_const(t.data)
        if op == "k":
            if t is tm.NAN or t is tm.INF:
                raise NotNF("nan/inf")
            return (self.p_atom(self.atom(("k", t.data), t, "k")), {})
        if op in ("s", "rnd"):
            return (self.p_atom(self.atom((op, t.id), t, "s")), {})
        if op == "+":
            r = self.nf(t.args[0])
            for a in t.args[1:]:
                r = self.nf_add(r, self.nf(a))
            return r
        if op == "*":
            r = self.nf(t.args[0])
            for a in t.args[1:]:
                r = self.nf_mul(r, self.nf(a))
            return r
        if op == "^":
            b, e = t.args
            if e.op == "c":
                e = e.data
                if e.denominator == 1:
                    return self.nf_pow(self.nf(b), e.numerator)
                rt = self.root(self.nf(b), e.denominator, b)
                return self.nf_pow(rt, e.numerator)
            # symbolic exponent: b^(c0 + rest)
            c0 = linear_split(e).get(ONE, Fraction(0))
            rest = tm.sub(e, const(c0))
            if b is ZERO and tm.is_pos(e):
                return self.nf_const(0)
            nb = self.nf(b)
            ne = self.nf(rest)
            sgn = 1
            # sign-normalise exponent
            if ne[0] and self.lead(ne[0])[1] < 0:
                ne = (self.p_scale(ne[0], -1), ne[1])
                sgn = -1
            rt = tm.pw(b, rest if sgn == 1 else tm.neg(rest))
            a = self.atom(("pow", self.key(nb), self.key(ne)), rt, "pow")
            r = (self.p_atom(a), {})
            if sgn < 0:
                r = self.nf_inv(r)
            if c0:
                r = self.nf_mul(r, self._nf(tm.pw(b, const(c0))) if tm.pw(b, const(c0)).op == "^" else self.nf(tm.pw(b, const(c0))))
            return r
        if op == "f":
            n = t.data
            if n in ("cos", "sin"):
                c, s = self.trig(t.args[0])
                return c if n == "cos" else s
            if n == "exp":
                return self.exp(t.args[0])
            if n == "abs":
                return self.nabs(self.nf(t.args[0]), t.args[0])
            if n in ("arccos", "log"):
                t2 = tm.fn(n, self.canon(t.args[0]))
                if not (t2.op == "f" and t2.data == n):
                    return self.nf(t2)
                t = t2
            args = [self.nf(a) for a in t.args]
            if n in ("tanh", "sinh", "arctan", "arcsin", "erf") and args[0][0] and self.lead(args[0][0])[1] < 0:
                ng = self.nf(tm.neg(t.args[0]))
                a = self.atom(("f", n, self.key(ng)), tm.mk("f", n, (tm.neg(t.args[0]),)), "f")
                return (self.p_scale(self.p_atom(a), -1), {})
            if not args[0][0] and n in ("tanh", "sinh", "arctan", "arcsin", "erf"):
                return self.nf_const(0)
            if n == "frac" and not args[0][0]:
                return self.nf_const(0)
            a = self.atom(("f", n) + tuple(self.key(x) for x in args), t, "f")
            return (self.p_atom(a), {})
        if op == "U":
            args = [self.nf(a) for a in t.args]
            a = self.atom(("U", t.data) + tuple(self.key(x) for x in args), t, "U")
            return (self.p_atom(a), {})
        raise NotNF(op)

    def canon(self, t):
        """term of the normal form of t"""
        if t.op in ("s", "c", "k", "rnd", "U"):
            return t
        n, d = self.nf(t)
        r = self.term_of(n)
        for k, e in d.items():
            r = tm.mul(r, tm.pw(self.term_of(self.fpoly[k]), const(-e)))
        return r

    def canon_arg(self, arg):
        parts = linear_split(arg)
        if any(r.op in ("^", "*", "f") and any(x.op == "^" and x.args[1].op == "c" and x.args[1].data.denominator != 1 or x.op == "f" and x.data in ("arccos", "log") for x in tm.subterms(r)) for r in parts):
            return tm.add(*[tm.mul(const(k), self.canon(r)) for r, k in parts.items()])
        return arg

    def trig(self, arg):
        arg = self.canon_arg(arg)
        if arg.op == "f" and arg.data == "arccos":
            return self.nf(tm.fn("cos", arg)), self.nf(tm.fn("sin", arg))
        parts = linear_split(arg)
        c, s = self.nf_const(1), self.nf_const(0)
        for r, k in parts.items():
            if r is tm.PI and (2 * k).denominator == 1:
                q = int(2 * k) % 4
                ck, sk = self.nf_const((1, 0, -1, 0)[q]), self.nf_const((0, 1, 0, -1)[q])
            else:
                if r is ONE:
                    u, n = abs(k), (1 if k > 0 else -1)
                else:
                    u = self.trig_unit.get(r) or abs(k)
                    if (k / u).denominator != 1:
                        u = abs(k)
                    n = int(k / u)
                base = tm.mul(const(u), r)
                kb = self.key(self.nf(base))
                ca = self.atom(("cos", kb), tm.mk("f", "cos", (base,)), "cos")
                sa = self.atom(("sin", kb), tm.mk("f", "sin", (base,)), "sin")
                if sa.rel is None:
                    sa.rel = {(): Fraction(1), ((ca.idx, 2),): Fraction(-1)}
                    sa.q = 2
                C, S = (self.p_atom(ca), {}), (self.p_atom(sa), {})
                ck, sk = self.nf_const(1), self.nf_const(0)
                if abs(n) > 12:
                    raise TooBig
                for _ in range(abs(n)):
                    ck, sk = (
                        self.nf_add(self.nf_mul(ck, C), self._neg(self.nf_mul(sk, S))),
                        self.nf_add(self.nf_mul(sk, C), self.nf_mul(ck, S)),
                    )
                if n < 0:
                    sk = self._neg(sk)
            c, s = (
                self.nf_add(self.nf_mul(c, ck), self._neg(self.nf_mul(s, sk))),
                self.nf_add(self.nf_mul(s, ck), self.nf_mul(c, sk)),
            )
        return c, s

    def _neg(self, a):
        return (self.p_scale(a[0], -1), a[1])

    def exp(self, arg):
        out = self.nf_const(1)
        arg = self.canon_arg(arg)
        for r, k in linear_split(arg).items():
            u = self.exp_unit.get(r) or abs(k)
            if (k / u).denominator != 1:
                u = abs(k)
            n = int(k / u)
            if r.op == "f" and r.data == "log":
                out = self.nf_mul(out, self.nf(tm.pw(r.args[0], const(k))))
                continue
            if abs(n) > 12:
                raise TooBig
            base = tm.mul(const(u), r)
            a = self.atom(("exp", self.key(self.nf(base))), tm.mk("f", "exp", (base,)), "exp")
            out = self.nf_mul(out, self.nf_pow((self.p_atom(a), {}), n))
        return out

    # |n/d|
    def nabs(self, a, term):
        n, d = a
        num = self.p_abs(n)
        den = self.nf_const(1)
        for k, e in d.items():
            if e % 2 == 0:
                den = self.nf_mul(den, self.nf_pow((self.fpoly[k], {}), e))
            else:
                den = self.nf_mul(den, self.nf_pow((self.p_abs(self.fpoly[k]), {}), e))
        return self.nf_mul((num, {}), self.nf_inv(den))

    def p_abs(self, p):
        if not p:
            return {}
        s = self.signs(p)
        if s <= {0, 1}:
            return p
        if s <= {0, -1}:
            return self.p_scale(p, -1)
        coef, fs = self.factors(p)
        out = self.p_const(abs(coef))
        if len(p) == 1:
            ((m, c),) = p.items()
            out = self.p_const(abs(c))
            for i, e in m:
                at = self.atoms[i]
                if e % 2 == 0:
                    out = self.p_mul(out, {((i, e),): Fraction(1)})
                else:
                    sg = self.atom_signs(i)
                    if sg <= {0, 1}:
                        b = {((i, e),): Fraction(1)}
                    elif sg <= {0, -1}:
                        b = {((i, e),): Fraction(-1)}
                    else:
                        b = self.p_mul(self.abs_atom({((i, 1),): Fraction(1)}), {((i, e - 1),): Fraction(1)} if e > 1 else {(): Fraction(1)})
                    out = self.p_mul(out, b)
            return out
        for f, e in fs:
            if e % 2 == 0:
                out = self.p_mul(out, self.p_pow(f, e))
            else:
                sg = self.signs(f)
                if sg <= {0, 1}:
                    b = f
                elif sg <= {0, -1}:
                    b = self.p_scale(f, -1)
                elif len(f) == 1 and len(fs) + len(p) > 2:
                    b = self.p_abs(f)
                else:
                    b = self.abs_atom(f)
                out = self.p_mul(out, self.p_mul(b, self.p_pow(f, e - 1)))
        return out

    def abs_atom(self, f):
        m, c = self.lead(f)
        k = abs(c)
        g = {x: v / c for x, v in f.items()}
        a = self.atom(("abs", frozenset(g.items())), tm.mk("f", "abs", (self.term_of(g),)), "abs")
        if a.rel is None:
            a.rel = self.p_mul(g, g)
            a.q = 2
        return self.p_scale(self.p_atom(a), k)

    def root(self, a, q, term):
        """principal q-th root of a normal form (assumed >= 0)"""
        n, d = a
        if not n:
            return self.nf_const(0)
        # (n/d)^(1/q) = (n * d^(q-1))^(1/q) / |d|
        p = n
        den = self.nf_const(1)
        for k, e in d.items():
            whole, rem = divmod(e, q)
            ab = self.p_abs(self.fpoly[k]) if q % 2 == 0 else self.fpoly[k]
            if rem:
                for _ in range(q - rem):
                    p = self.p_mul(p, self.fpoly[k])
                whole += 1
            den = self.nf_mul(den, self.nf_pow((ab, {}), whole))
        num = self.p_root(p, q)
        return self.nf_mul((num, {}), self.nf_inv(den)) if d else (num, {})

    def p_root(self, p, q):
        coef, fs = (Fraction(1), None)
        if len(p) == 1:
            ((m, c),) = p.items()
            coef = c
            fs = [({((i, 1),): Fraction(1)}, e) for i, e in m]
        else:
            coef, fs = self.factors(p)
            coef, fs = self.join_sines(coef, fs)
        out = self.p_const(1)
        rest = self.p_const(1)
        flip = 1
        for f, e in fs:
            # normalise: known-negative factors become positive
            sg = self.signs(f)
            if sg <= {0, -1} and sg != {0}:
                f = self.p_scale(f, -1)
                if e % 2:
                    flip = -flip
                sg = {-x for x in sg}
            whole, rem = divmod(e, q)
            if whole:
                b = f if (q % 2 or sg <= {0, 1}) else self.p_abs(f)
                out = self.p_mul(out, self.p_pow(b, whole))
            if rem:
                if sg <= {0, 1}:
                    # nonneg factor: own root atom
                    if len(f) == 1 and list(f.values())[0] == 1 and len(list(f)[0]) == 1 and list(f)[0][0][1] == 1 and self.atoms[list(f)[0][0][0]].kind == "root":
                        out = self.p_mul(out, self.p_pow(self.nested_root(list(f)[0][0][0], q), rem))
                    else:
                        out = self.p_mul(out, self.p_pow(self.root_atom(f, q), rem))
                else:
                    rest = self.p_mul(rest, self.p_pow(f, rem))
        coef = coef * flip
        # numeric coefficient
        k = abs(coef)
        num, den = k.numerator, k.denominator
        num = num * den ** (q - 1)
        o, i = 1, 1
        for pr, e in _factorint(num).items():
            w, r = divmod(e, q)
            o *= pr**w
            i *= pr**r
        out = self.p_scale(out, Fraction(o, den))
        sgn = 1 if coef > 0 else -1
        if len(rest) == 1 and () in rest and sgn > 0:
            for pr, e in _factorint(i).items():
                at = self.root_atom(self.p_const(pr), q)
                out = self.p_mul(out, self.p_pow(at, e))
            return out
        rest = self.p_scale(rest, sgn)
        for pr, e in _factorint(i).items():
            at = self.root_atom(self.p_const(pr), q)
            out = self.p_mul(out, self.p_pow(at, e))
        return self.p_mul(out, self.root_atom(rest, q))

    def join_sines(self, coef, fs):
        """(1 - cos)(1 + cos) -> sin^2 among factors"""
        for i, at in enumerate(self.atoms):
            if at.kind != "sin" or at.rel is None or at.q != 2:
                continue
            cs = [m[0][0] for m in at.rel if m]
            if len(cs) != 1 or len(at.rel) != 2:
                continue
            ci = cs[0]
            pos = {(): 1, ((ci, 1),): 1}
            neg = {(): 1, ((ci, 1),): -1}
            pk = nk = None
            for k, (f, e) in enumerate(fs):
                if f == pos:
                    pk = (k, 1)
                elif f == {m: -v for m, v in pos.items()}:
                    pk = (k, -1)
                elif f == neg:
                    nk = (k, 1)
                elif f == {m: -v for m, v in neg.items()}:
                    nk = (k, -1)
            if pk and nk and fs[pk[0]][1] == fs[nk[0]][1]:
                e = fs[pk[0]][1]
                coef = coef * Fraction(pk[1] * nk[1]) ** e
                fs = [x for k, x in enumerate(fs) if k not in (pk[0], nk[0])] + [({((i, 1),): Fraction(1)}, 2 * e)]
        return coef, fs

    def nested_root(self, idx, q):
        at = self.atoms[idx]
        # root_q(root_p(x)) = root_{pq}(x)
        a2 = self.root_atom(at.rel, at.q * q)
        return a2

    def root_atom(self, f, q):
        m, c = self.lead(f)
        a = self.atom(("root", q, frozenset(f.items())), tm.mk("^", None, (self.term_of(f), const(Fraction(1, q)))), "root")
        if a.rel is None:
            a.rel = dict(f)
            a.q = q
        return self.p_atom(a)

    def term_of(self, p):
        out = []
        for m, c in sorted(p.items(), key=lambda kv: str(kv[0])):
            out.append(tm.mul(const(c), *[tm.pw(self.atoms[i].term, const(e)) for i, e in m]))
        return tm.add(*out) if out else ZERO

    # ----------------------------------------------------------------- signs
    def atom_signs(self, i):
        at = self.atoms[i]
        if at.kind == "root" or at.kind == "abs":
            if at.rel is not None:
                s = self.signs(at.rel) if len(at.rel) < 40 else {0, 1}
                if s == {1}:
                    return frozenset({1})
            return frozenset({0, 1})
        if at.kind == "exp":
            return frozenset({1})
        if at.kind == "pow":
            return frozenset({0, 1})
        iv = tm.interval(at.term)
        r = _iv_signs(iv)
        if self.facts and len(r) > 1:
            fk = self.fact_keys()
            k = frozenset({((i, 1),): Fraction(1)}.items())
            if k in fk:
                r = r & fk[k]
            if len(r) > 1 and any(at.term in linear_split(f[0]) for f in self.facts):
                r2 = frozenset(s for s in r if feasible(self.facts + [(at.term, s)]))
                r = r2 or r
        return r

    def atom_iv(self, i):
        at = self.atoms[i]
        if at.kind in ("root", "abs", "pow"):
            s = self.atom_signs(i)
            return (Fraction(0), 0 not in s, math.inf, True)
        return tm.interval(at.term)

    def signs(self, p, depth=0):
        if not p:
            return frozenset({0})
        key = frozenset(p.items())
        memo = self.__dict__.setdefault("_sm", {})
        r = memo.get(key)
        if r is not None:
            return r
        memo[key] = frozenset({-1, 0, 1})
        r = self._signs(p, depth)
        if self.facts and len(r) > 1:
            r = self.with_facts(p, r)
        memo[key] = r
        return r

    def fact_keys(self):
        """monic fact polynomials -> admissible signs"""
        if self._fk is None:
            self._fk = {}
            facts, self.facts_saved = self.facts, self.facts
            self.facts = []
            try:
                for t, s in facts:
                    try:
                        k, fl, p = self.guard_key(t)
                    except (NotNF, TooBig):
                        continue
                    if k is None:
                        continue
                    ss = {0, 1} if s == ">=0" else {s}
                    ss = frozenset(fl * x for x in ss)
                    self._fk[k] = self._fk.get(k, frozenset({-1, 0, 1})) & ss
            finally:
                self.facts = facts
                self.__dict__.pop("_sm", None)
        return self._fk

    def with_facts(self, p, r):
        fk = self.fact_keys()
        m, c = self.lead(p)
        k = frozenset((mm, v / c) for mm, v in p.items())
        if k in fk:
            fl = 1 if c > 0 else -1
            r = r & frozenset(fl * x for x in fk[k])
        if len(r) > 1 and len(p) <= 10:
            t = self.term_of(p)
            r2 = frozenset(s for s in r if feasible(self.facts + [(t, s)]))
            if r2:
                r = r2
        return r

    def m_signs(self, m, c):
        s = frozenset({1 if c > 0 else -1})
        for i, e in m:
            a = self.atom_signs(i)
            if e % 2 == 0:
                a = frozenset(x * x for x in a)
            s = frozenset(x * y for x in s for y in a)
        return s

    def _signs(self, p, depth):
        ms = [self.m_signs(m, c) for m, c in p.items()]
        if len(ms) == 1:
            return ms[0]
        if all(s <= {0, 1} for s in ms):
            return frozenset({1}) if any(s == {1} for s in ms) else frozenset({0, 1})
        if all(s <= {0, -1} for s in ms):
            return frozenset({-1}) if any(s == {-1} for s in ms) else frozenset({0, -1})
        # interval
        iv = None
        for m, c in p.items():
            x = (c, False, c, False)
            for i, e in m:
                x = tm.iv_mul(x, tm.iv_pow(self.atom_iv(i), e))
            iv = x if iv is None else tm.iv_add(iv, x)
        if not (isinstance(iv[0], float) and math.isnan(iv[0])) and not (isinstance(iv[2], float) and math.isnan(iv[2])):
            s = _iv_signs(iv)
            if len(s) < 3:
                return s
        if depth > 3 or len(p) > 120:
            return frozenset({-1, 0, 1})
        # range substitution certificate
        s = self.range_cert(p)
        if s is not None:
            return s
        coef, fs = self.factors(p)
        if len(fs) > 1 or (len(fs) == 1 and fs[0][1] > 1):
            r = frozenset({1 if coef > 0 else -1})
            for f, e in fs:
                a = self.signs(f, depth + 1)
                if e % 2 == 0:
                    a = frozenset(x * x for x in a)
                r = frozenset(x * y for x in r for y in a)
            return r
        # single radical A + B R
        s = self.radical_signs(p, depth)
        if s is not None:
            return s
        s = self.quadform_signs(p)
        if s is not None:
            return s
        return frozenset({-1, 0, 1})

    def range_cert(self, p):
        """substitute bounded variables u=(lo+hi*w)/(1+w), half-bounded u=lo+w; all coefficients one sign"""
        used = sorted({i for m in p for i, _ in m})
        if len(used) > 6:
            return None
        deg = {}
        for m in p:
            for i, e in m:
                deg[i] = max(deg.get(i, 0), e)
        q = {m: c for m, c in p.items()}
        # process each variable
        strict = {}
        for i in used:
            lo, lo_o, hi, hi_o = self.atom_iv(i)
            if lo == -math.inf and hi == math.inf:
                if any(dict(m).get(i, 0) % 2 for m in p):
                    return None
                continue
            D = deg[i]
            new: dict = {}
            for m, c in q.items():
                md = dict(m)
                e = md.pop(i, 0)
                base = tuple(sorted(md.items()))
                if hi == math.inf:
                    poly = _binpow(lo, 1, e)  # (lo + w)^e
                elif lo == -math.inf:
                    poly = _binpow(hi, -1, e)
                else:
                    poly = _pmul1(_binpow(lo, hi, e), _binpow(1, 1, D - e))
                for k, v in enumerate(poly):
                    if v:
                        mm = tuple(sorted(base + (((i, k),) if k else ())))
                        new[mm] = new.get(mm, 0) + c * v
            q = {m: c for m, c in new.items() if c}
            if len(q) > 3000:
                return None
            # is w strictly positive?
            strict[i] = (lo_o if lo != -math.inf else hi_o) and (hi == math.inf or lo == -math.inf or lo_o)
        if all(c > 0 for c in q.values()):
            for m in q:
                if all(strict.get(i, False) for i, _ in m):
                    return frozenset({1})
            return frozenset({0, 1})
        if all(c < 0 for c in q.values()):
            for m in q:
                if all(strict.get(i, False) for i, _ in m):
                    return frozenset({-1})
            return frozenset({0, -1})
        return None

    def radical_signs(self, p, depth):
        rad = None
        for m in p:
            for i, e in m:
                at = self.atoms[i]
                if at.rel is not None and at.kind in ("root", "abs") and not (len(at.rel) == 1 and () in at.rel):
                    if rad is None or i > rad:
                        rad = i
        if rad is None:
            return None
        at = self.atoms[rad]
        A, B = {}, {}
        for m, c in p.items():
            md = dict(m)
            if rad in md:
                if md[rad] != 1:
                    return None
                md.pop(rad)
                B[tuple(sorted(md.items()))] = c
            else:
                A[m] = c
        q = at.q
        if q % 2:
            return None
        sA, sB = self.signs(A, depth + 1), self.signs(B, depth + 1)
        # A + B R : compare |A|^q with |B|^q s
        disc = self.p_add(self.p_pow(A, q), self.p_mul(self.p_pow(B, q), at.rel), -1)
        sD = self.signs(disc, depth + 1)
        sR = self.atom_signs(rad)
        out = set()
        for a in sA:
            sDa = sD
            if len(sD) > 1 and len(sA) > 1 and depth <= 1 and len(disc) <= 12:
                tA, tD = self.term_of(A), self.term_of(disc)
                try:
                    sub = Algebra([tA, tD], facts=self.facts + [(tA, a)])
                    n, d_ = sub.nf(tD)
                    if not d_:
                        sDa = sD & sub.signs(n, depth + 1)
                except (NotNF, TooBig):
                    pass
            for b in sB:
                for r in sR:
                    br = b * r
                    for d in sDa:
                        if d > 0 and a == 0 or d < 0 and br == 0 or d == 0 and (a == 0) != (br == 0):
                            continue
                        if a >= 0 and br >= 0:
                            out.add(1 if a or br else 0)
                        elif a <= 0 and br <= 0:
                            out.add(-1)
                        else:
                            out.add(a if d > 0 else (0 if d == 0 else br))
        return frozenset(out) if out else None

    def quadform_signs(self, p):
        """univariate or homogeneous bivariate: Sturm"""
        used = sorted({i for m in p for i, _ in m})
        try:
            import sympy
        except Exception:
            return None
        x = sympy.Symbol("x")
        if len(used) == 1:
            i = used[0]
            if self.atoms[i].kind not in ("s", "U", "f", "cos", "k"):
                return None
            pol = sympy.Poly(sum(sympy.Rational(c.numerator, c.denominator) * x ** dict(m).get(i, 0) for m, c in p.items()), x)
            lo, lo_o, hi, hi_o = self.atom_iv(i)
            a = None if lo == -math.inf else sympy.Rational(lo.numerator, lo.denominator)
            b = None if hi == math.inf else sympy.Rational(hi.numerator, hi.denominator)
            n = pol.count_roots(a, b)
            bad = 0
            if a is not None and lo_o and pol.eval(a) == 0:
                n -= 1
            if b is not None and hi_o and pol.eval(b) == 0:
                n -= 1
            if n == 0:
                if a is not None and b is not None:
                    mid = (a + b) / 2
                elif a is not None:
                    mid = a + 1
                elif b is not None:
                    mid = b - 1
                else:
                    mid = 0
                return frozenset({1 if pol.eval(mid) > 0 else -1})
            return None
        if len(used) == 2:
            degs = {sum(e for _, e in m) for m in p}
            if len(degs) != 1:
                return None
            (d,) = degs
            i, j = used
            pol = sympy.Poly(sum(sympy.Rational(c.numerator, c.denominator) * x ** dict(m).get(i, 0) for m, c in p.items()), x)
            if d % 2 == 0 and pol.degree() == d and pol.count_roots() == 0:
                s = 1 if pol.eval(0) > 0 else -1
                both_zero = 0 in self.atom_signs(i) and 0 in self.atom_signs(j)
                return frozenset({s, 0} if both_zero else {s})
        return None

    # sign key of a guard argument
    def guard_key(self, t):
        n, d = self.nf(t)
        p = n
        for k, e in d.items():
            if e % 2:
                sg = self.signs(self.fpoly[k])
                if sg == {1} or sg == {0, 1}:
                    continue
                if sg == {-1} or sg == {0, -1}:
                    p = self.p_scale(p, -1)
                    continue
                p = self.p_mul(p, self.fpoly[k])
        if not p:
            return None, 0, p
        # drop factors of known positive sign
        if 1 < len(p) <= 60:
            coef, fs = self.factors(p)
            if len(fs) > 1 or (len(fs) == 1 and fs[0][1] > 1):
                q = self.p_const(1 if coef > 0 else -1)
                for f, e in fs:
                    sg = self.signs(f)
                    if sg == {1}:
                        continue
                    if sg == {-1}:
                        if e % 2:
                            q = self.p_scale(q, -1)
                        continue
                    q = self.p_mul(q, self.p_pow(f, 1 if e % 2 else 2))
                p = q
        elif len(p) == 1:
            ((m, c),) = p.items()
            q = {(): Fraction(1 if c > 0 else -1)}
            for i, e in m:
                sg = self.atom_signs(i)
                if sg == {1}:
                    continue
                if sg == {-1}:
                    if e % 2:
                        q = self.p_scale(q, -1)
                    continue
                q = self._raw_mul(q, {((i, 1 if e % 2 else 2),): Fraction(1)})
            p = q
        m, c = self.lead(p)
        fl = 1 if c > 0 else -1
        p = self.p_scale(p, 1 / c)
        return frozenset(p.items()), fl, p


def _iv_signs(iv):
    lo, lo_o, hi, hi_o = iv
    s = set()
    if hi > 0:
        s.add(1)
    if lo < 0:
        s.add(-1)
    if lo <= 0 <= hi and not (lo == 0 and lo_o) and not (hi == 0 and hi_o):
        s.add(0)
    return frozenset(s)


def _binpow(a, b, n):
    """coefficients of (a + b w)^n"""
    out = [Fraction(1)]
    for _ in range(n):
        new = [Fraction(0)] * (len(out) + 1)
        for k, v in enumerate(out):
            new[k] += v * a
            new[k + 1] += v * b
        out = new
    return out


def _pmul1(a, b):
    out = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def _factorint(n):
    if n <= 1:
        return {}
    if n > 10**15:
        import sympy

        return {int(k): int(v) for k, v in sympy.factorint(n, limit=10**5).items()}
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


# --------------------------------------------------------------- decisions
class Verdict:
    __slots__ = ("status", "why", "witness", "cases", "skipped")

    def __init__(self, status, why="", witness=None, cases=1, skipped=0):
        self.status, self.why, self.witness, self.cases, self.skipped = status, why, witness, cases, skipped

    def __repr__(self):
        return f"<{self.status} {self.why}>"

    ok = property(lambda s: s.status == "holds")


def guards(t):
    return [s for s in tm.subterms(t) if s.op in ("gt0", "eq0", "bs", "eqk")]


_selmemo: dict = {}


def has_sel(t):
    r = _selmemo.get(t.id)
    if r is None:
        r = t.op in ("sel", "gt0", "eq0", "not", "and", "bs", "eqk", "b") or any(has_sel(a) for a in t.args)
        _selmemo[t.id] = r
    return r


_simp: dict = {}


def _simplicity(s):
    k = _simp.get(s.id)
    if k is None:
        sub = tm.subterms(s)
        k = (sum(1 for x in sub if x.op == "^" and x.args[1].op == "c" and x.args[1].data.denominator != 1 or x.op == "f"), len(tm.syms(s)), len(sub), s.id)
        _simp[s.id] = k
    return k


SPECIAL = (tm.TRUE, True)  # marks a case on a set which sampling does not reach


def as_condition(cons):
    out = tm.TRUE
    for t, s in cons:
        if s is True or s is False:
            p = t if s else tm.not_(t)
        elif s == 1:
            p = tm.gt0(t)
        elif s == -1:
            p = tm.gt0(tm.neg(t))
        elif s == 0:
            p = tm.eq0(t)
        else:
            p = tm.ge0(t)
        out = tm.and_(out, p)
    return out


def split_cases(d, limit=MAXCASES):
    """yield (leaf term, constraints, substitution) ; constraints = [(poly key, sign)]"""
    count = [0]
    skipped = [0]

    def rec(t, cons):
        count[0] += 1
        if count[0] > limit:
            raise TooBig
        if not has_sel(t):
            yield t, cons
            return
        leaf = None
        for s in tm.subterms(t):
            if s.op in ("gt0", "eq0") and not has_sel(s.args[0]):
                k = _simplicity(s)
                if leaf is None or k < lk:
                    leaf, lk = s, k
        if leaf is None:
            for s in tm.subterms(t):
                if s.op in ("bs", "eqk"):
                    leaf = s
                    break
        if leaf is None:
            raise NotNF("no splittable guard")
        if leaf.op in ("bs", "eqk"):
            for v in (tm.TRUE, tm.FALSE):
                yield from rec(tm.map_terms(t, lambda x: v if x is leaf else None), cons + [(leaf, v.data)])
            return
        alg = Algebra([t], facts=cons)
        key, fl, p = alg.guard_key(leaf.args[0])
        if key is None:
            yield from rec(tm.map_terms(t, lambda x: (tm.FALSE if x.op == "gt0" else tm.TRUE) if x is leaf else None), cons)
            return
        possible = alg.signs(p)
        # all guards with the same polynomial
        same = {}
        for s in tm.subterms(t):
            if s.op in ("gt0", "eq0") and not has_sel(s.args[0]):
                try:
                    k2, f2, _ = alg.guard_key(s.args[0])
                except (NotNF, TooBig):
                    continue
                if k2 == key:
                    same[s] = f2
        pt = alg.term_of(p)
        for sg in (1, -1, 0):
            if sg not in possible:
                continue
            c2 = cons + [(pt, sg)]
            if not feasible(c2):
                continue

            def rep(x, sg=sg):
                if x in same:
                    v = sg * same[x]
                    if x.op == "gt0":
                        return tm.TRUE if v > 0 else tm.FALSE
                    return tm.TRUE if v == 0 else tm.FALSE
                return None

            t2 = tm.map_terms(t, rep)
            if sg == 0:
                if t2 is tm.ZERO:
                    continue
                ms = solve_zero(alg, p)
                if ms is None:
                    # boundary of the guard, not linearly solvable: is the value there independent of it?
                    if isinstance(t2, T) and not has_sel(t2):
                        try:
                            if not Algebra([t2], facts=c2).nf(t2)[0]:
                                continue
                        except (NotNF, TooBig):
                            pass
                    skipped[0] += 1
                    continue
                for m in ms:
                    try:
                        t3 = tm.subst(t2, m)
                        c3 = [(tm.subst(x, m) if isinstance(x, T) else x, s) for x, s in cons]
                    except ZeroDivisionError:
                        skipped[0] += 1
                        continue
                    if not feasible(c3) or not range_ok(m):
                        continue
                    if any(k.op == "U" for k in m) or len(ms) > 1 or len(m) > 1:
                        c3 = c3 + [SPECIAL]
                    yield from rec(t3, c3)
                continue
            yield from rec(t2, c2)

    split_cases.skipped = skipped
    split_cases.count = count
    yield from rec(d, [])


def range_ok(m):
    """the substituted value must be able to lie in the symbol's declared range"""
    for s, v in m.items():
        lo, lo_o, hi, hi_o = tm.interval(s)
        cs = []
        if lo != -math.inf:
            cs.append((tm.sub(v, const(lo)), 1 if lo_o else ">=0"))
        if hi != math.inf:
            cs.append((tm.sub(const(hi), v), 1 if hi_o else ">=0"))
        for t, k in cs:
            i = tm.interval(t)
            if i[2] < 0 or (i[2] == 0 and (k == 1 or i[3])):
                return False
    return True


def solve_zero(alg, p):
    """substitutions which together cover all solutions of p == 0, or None"""
    m = solve_linear(alg, p)
    if m is not None:
        return [m]
    if any(e < 0 for mm in p for _, e in mm):
        return None
    plain = lambda i: alg.atoms[i].term if alg.atoms[i].term.op in ("s", "rnd", "U") else None
    inside = lambda ts: any(a is not b and a in set(tm.subterms(b)) for a in ts for b in ts)
    if len(p) == 1:
        # a product vanishes when one of its factors does
        ((mm, _),) = p.items()
        ts = [plain(i) for i, _ in mm]
        return [{t: ZERO} for t in ts] if ts and None not in ts else None
    if all(c > 0 for c in p.values()) and all(e % 2 == 0 for mm in p for _, e in mm):
        # a sum of squares vanishes when every square does
        if () in p:
            return []
        if all(len(mm) == 1 for mm in p):
            ts = [plain(mm[0][0]) for mm in p]
            if None not in ts and not inside(ts):
                return [{t: ZERO for t in ts}]
    return None


def solve_linear(alg, p):
    """solve p == 0 for a symbol occurring linearly with constant coefficient"""
    best = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            i = m[0][0]
            at = alg.atoms[i]
            if at.term.op not in ("s", "rnd", "U"):
                continue
            others = [mm for mm in p if mm != m and any(at.term in set(tm.subterms(alg.atoms[j].term)) for j, _ in mm)]
            if others:
                continue
            # symbols are preferred to values of unknown functions
            if best is None or (at.term.op != "U", at.term.id) > (best[0].op != "U", best[0].id):
                rest = {mm: -cc / c for mm, cc in p.items() if mm != m}
                best = (at.term, rest)
    if best is None:
        return None
    return {best[0]: alg.term_of(best[1])}


def feasible(cons):
    """emptiness test in the (closed) polyhedra domain: Fourier-Motzkin over monomials."""
    rows = []  # (coef dict var->Fraction, const, strict): sum + const >= 0 (or > 0)
    varsT = {}
    for t, s in cons:
        if not isinstance(t, T) or isinstance(s, bool):
            continue
        if tm.is_bool(t):
            continue
        ls = linear_split(t)
        c0 = ls.pop(ONE, Fraction(0))
        for r in ls:
            varsT[r.id] = r
        row = {r.id: c for r, c in ls.items()}
        if s == 1:
            rows.append((row, c0, True))
        elif s == -1:
            rows.append(({k: -v for k, v in row.items()}, -c0, True))
        elif s == ">=0":
            rows.append((row, c0, False))
        else:
            rows.append((row, c0, False))
            rows.append(({k: -v for k, v in row.items()}, -c0, False))
    for k, r in list(varsT.items()):
        lo, lo_o, hi, hi_o = tm.interval(r)
        if lo != -math.inf:
            rows.append(({k: Fraction(1)}, -Fraction(lo), lo_o))
        if hi != math.inf:
            rows.append(({k: Fraction(-1)}, Fraction(hi), hi_o))
    vs = list(varsT)
    for v in vs:
        pos = [r for r in rows if r[0].get(v, 0) > 0]
        neg_ = [r for r in rows if r[0].get(v, 0) < 0]
        rest = [r for r in rows if r[0].get(v, 0) == 0]
        if len(pos) * len(neg_) > 400:
            return True
        for a in pos:
            for b in neg_:
                ka, kb = a[0][v], -b[0][v]
                row = {}
                for k in set(a[0]) | set(b[0]):
                    if k == v:
                        continue
                    x = a[0].get(k, 0) * kb + b[0].get(k, 0) * ka
                    if x:
                        row[k] = x
                rest.append((row, a[1] * kb + b[1] * ka, a[2] or b[2]))
        # dedupe
        seen = set()
        rows = []
        for r in rest:
            if not r[0]:
                if r[1] < 0 or (r[1] == 0 and r[2]):
                    return False
                continue
            kk = (frozenset(r[0].items()), r[1], r[2])
            if kk not in seen:
                seen.add(kk)
                rows.append(r)
        if len(rows) > 400:
            return True
    for r in rows:
        if not r[0] and (r[1] < 0 or (r[1] == 0 and r[2])):
            return False
    return True


# -------------------------------------------------------- separating points
def sample_env(symbols, rng, special=False):
    env = {}
    for s in sorted(symbols, key=lambda s: s.id):
        if s.op == "key":
            env[s] = ("key", s.data)
            continue
        if s.op == "bs":
            env[s] = bool(rng.getrandbits(1))
            continue
        if s.op not in ("s", "rnd"):
            continue
        lo, lo_o, hi, hi_o = tm.interval(s)
        isint = s.op == "s" and s.data in tm._INT
        r = rng.random()
        if isint:
            a = int(lo) if lo != -math.inf else -5
            b = int(hi) if hi != math.inf else a + 10
            env[s] = mpmath.mpf(rng.randint(a, b))
            continue
        if special and r < 0.5:
            cand = [Fraction(x) for x in (0, 1, -1, Fraction(1, 2), 2)]
            if lo != -math.inf:
                cand += [lo, lo + Fraction(1, 10**6)]
            if hi != math.inf:
                cand += [hi, hi - Fraction(1, 10**6)]
            cand = [c for c in cand if (c > lo or (c == lo and not lo_o)) and (c < hi or (c == hi and not hi_o))]
            if cand:
                c = rng.choice(cand)
                env[s] = mpmath.mpf(c.numerator) / c.denominator
                continue
        if lo != -math.inf and hi != math.inf:
            u = mpmath.mpf(rng.randint(1, 10**9 - 1)) / 10**9
            env[s] = mpmath.mpf(lo.numerator) / lo.denominator + u * (mpmath.mpf((hi - lo).numerator) / (hi - lo).denominator)
        elif lo != -math.inf:
            u = mpmath.mpf(rng.randint(1, 10**9)) / 10**9
            sc = rng.choice([0.1, 1, 3])
            env[s] = mpmath.mpf(lo.numerator) / lo.denominator + u * sc
        elif hi != math.inf:
            u = mpmath.mpf(rng.randint(1, 10**9)) / 10**9
            env[s] = mpmath.mpf(hi.numerator) / hi.denominator - u * rng.choice([0.1, 1, 3])
        else:
            u = mpmath.mpf(rng.randint(-(10**9), 10**9)) / 10**9
            env[s] = u * rng.choice([1, 2, 5, 0.2])
    return env


def in_range(s, v):
    lo, lo_o, hi, hi_o = tm.interval(s)
    if lo != -math.inf:
        l = mpmath.mpf(lo.numerator) / lo.denominator
        if v < l or (lo_o and v == l):
            return False
    if hi != math.inf:
        h = mpmath.mpf(hi.numerator) / hi.denominator
        if v > h or (hi_o and v == h):
            return False
    return True


def boundary_points(t, env, rng, guard_terms):
    """points on / next to the zero set of a guard, starting from env"""
    for g in guard_terms:
        if g.op not in ("gt0", "eq0"):
            continue
        P = g.args[0]
        ss = [s for s in tm.syms(P) if s.op in ("s", "rnd")]
        if not ss:
            continue
        s = rng.choice(sorted(ss, key=lambda x: x.id))
        x0, x1 = env[s], env[s] + mpmath.mpf("0.37")
        ok = False
        try:
            e = dict(env)
            f0 = tm.evaluate(P, {**e, s: x0})
            for _ in range(40):
                f1 = tm.evaluate(P, {**e, s: x1})
                if abs(f1) < mpmath.mpf(10) ** -33:
                    ok = True
                    break
                if f1 == f0:
                    break
                x0, x1, f0 = x1, x1 - f1 * (x1 - x0) / (f1 - f0), f1
        except (tm.Undef, ZeroDivisionError, TypeError, OverflowError):
            continue
        if ok:
            for dx in (0, mpmath.mpf("1e-3"), -mpmath.mpf("1e-3"), mpmath.mpf("1e-7"), -mpmath.mpf("1e-7"), mpmath.mpf("0.05"), -mpmath.mpf("0.05")):
                v = x1 + dx
                # snap near-rationals so that exact equalities are met
                if dx == 0:
                    for den in (1, 2, 3, 4, 6, 8, 10):
                        r = mpmath.nint(v * den) / den
                        if abs(r - v) < mpmath.mpf(10) ** -28:
                            v = r
                            break
                if in_range(s, v) and abs(v) < 10**6:
                    yield {**env, s: v}


def scaled(env, lam):
    """env with every freely ranging number multiplied by lam"""
    return {s: v * lam if s.op == "s" and s.data not in tm._INT and not isinstance(v, (bool, tuple)) and in_range(s, v * lam) else v for s, v in env.items()}


SCALES = [mpmath.mpf(10) ** k for k in (0, -1, -2, -3, -4, -5, -6, -8, -10, -12, 1, 2, 3, 5)]


def scale_points(env, guard_terms):
    """points on both sides of a guard that is met only when all inputs are small (or large) together"""
    for g in guard_terms:
        if g.op != "gt0":
            continue
        P = g.args[0]
        for grid in (SCALES[:10], [SCALES[0]] + SCALES[10:]):
            prev = None
            for lam in grid:
                try:
                    v = tm.evaluate(P, scaled(env, lam)) > 0
                except (tm.Undef, ZeroDivisionError, TypeError, OverflowError):
                    prev = None
                    continue
                if prev is not None and v != prev[1]:
                    a, b = prev[0], lam
                    for _ in range(12):
                        m = mpmath.sqrt(a * b)
                        try:
                            vm = tm.evaluate(P, scaled(env, m)) > 0
                        except (tm.Undef, ZeroDivisionError, TypeError, OverflowError):
                            break
                        if vm == prev[1]:
                            a = m
                        else:
                            b = m
                    for m in (a, b, b * b / a, mpmath.sqrt(b * lam) if b != lam else lam, lam):
                        yield scaled(env, m)
                    break
                prev = (lam, v)


def find_witness(a, b, assume=tm.TRUE, seed=0, n=40, extra_env=None, nan_violates=False):
    """point where assume holds and a != b (numbers or truth values)"""
    rng = random.Random(20240 + seed)
    ss = tm.syms(a) | tm.syms(b) | tm.syms(assume)
    gs = list({g.id: g for g in guards(a) + guards(b) + guards(assume)}.values())
    tested = 0

    def test(env):
        w = test1(env)
        if w:
            # the separation must not depend on the working precision
            with mpmath.workdps(80):
                w = test1(env)
                if w:
                    # nor on the tolerance used for comparisons with zero
                    tm.EPS[0] = mpmath.mpf(10) ** -70
                    try:
                        w = test1(env)
                    finally:
                        tm.EPS[0] = mpmath.mpf(10) ** -30
        return w

    def test1(env):
        nonlocal tested
        memo = {}
        try:
            if not tm.evaluate(assume, env, memo):
                return None
            vb = tm.evaluate(b, env, memo)
        except (tm.Undef, OverflowError, TypeError):
            return None
        try:
            va = tm.evaluate(a, env, memo)
        except tm.Undef as e:
            if nan_violates:
                tested += 1
                return ("undefined: " + str(e), vb)
            return None
        except (OverflowError, TypeError):
            return None
        tested += 1
        if isinstance(va, bool) or isinstance(vb, bool):
            if bool(va) != bool(vb):
                return (va, vb)
            return None
        if isinstance(va, tuple) or isinstance(vb, tuple):
            return (va, vb) if va != vb else None
        if mpmath.isinf(va) and mpmath.isinf(vb):
            return None if va == vb else (va, vb)
        if abs(va - vb) > mpmath.mpf(10) ** -14 * (1 + abs(va) + abs(vb)):
            return (va, vb)
        return None

    for k in range(n):
        env = sample_env(ss, rng, special=(k % 3 == 2))
        w = test(env)
        if w:
            return _wit(env, w), tested
        if k % 4 == 3:
            env2 = scaled(env, rng.choice(SCALES[1:]))
            w = test(env2)
            if w:
                return _wit(env2, w), tested
        if gs:
            pick = gs if len(gs) <= 12 else rng.sample(gs, 12)
            if k % 8 == 0:
                for env2 in scale_points(env, pick):
                    w = test(env2)
                    if w:
                        return _wit(env2, w), tested
            for env2 in boundary_points(a, env, rng, pick):
                w = test(env2)
                if w:
                    return _wit(env2, w), tested
    return None, tested


def _wit(env, w):
    return dict(
        at={str(s.data): (v if isinstance(v, (bool, tuple)) else mpmath.nstr(v, 12)) for s, v in sorted(env.items(), key=lambda kv: kv[0].id)},
        got=str(w[0]) if isinstance(w[0], (bool, str, tuple)) else mpmath.nstr(w[0], 12),
        expected=str(w[1]) if isinstance(w[1], (bool, str, tuple)) else mpmath.nstr(w[1], 12),
    )


def literals(assume):
    """{atom -> truth value} implied syntactically by a conjunction"""
    out = {}

    def put(t, v):
        if t in out:
            return
        out[t] = v
        if t.op == "gt0" and v:
            put(tm.gt0(tm.neg(t.args[0])), False)
            put(tm.eq0(t.args[0]), False)
        elif t.op == "eq0" and v:
            put(tm.gt0(t.args[0]), False)
            put(tm.gt0(tm.neg(t.args[0])), False)

    def go(t, v):
        if t.op == "not":
            go(t.args[0], not v)
        elif t.op == "and" and v:
            put(t, True)
            for x in t.args:
                go(x, True)
        else:
            put(t, v)

    go(assume, True)
    return {k: v for k, v in out.items() if k.op not in ("c", "b") and k not in (tm.TRUE, tm.FALSE)}


def under(t, assume):
    """t with every guard resolved that the assumption decides syntactically (repeated until stable)"""
    lits = literals(assume)
    # a disjunction all but one of whose members are decided decides the last one
    for _ in range(4):
        new = {}
        for k, v in lits.items():
            if k.op == "and" and not v:
                rest = tm.map_terms(k, lambda x: None if x is k else (tm.TRUE if lits[x] else tm.FALSE) if x in lits else None)
                if rest is not k and rest not in (tm.TRUE, tm.FALSE):
                    for k2, v2 in literals(tm.not_(rest)).items():
                        if k2 not in lits:
                            new[k2] = v2
        if not new:
            break
        lits.update(new)
    if not lits:
        return t
    return tm.map_terms(t, lambda x: (tm.TRUE if lits[x] else tm.FALSE) if x in lits else None)


def _cond_atom(t):
    """innermost atom of the condition of a top-level join"""
    if t.op == "sel":
        return _cond_atom(t.args[0])
    if t.op in ("and", "not"):
        return _cond_atom(t.args[0])
    if t.op in ("gt0", "eq0") and has_sel(t.args[0]):
        for s in tm.subterms(t.args[0]):
            if s.op == "sel":
                return _cond_atom(s)
    return t if t.op in ("gt0", "eq0", "bs", "eqk") else None


def same_gated(a, b, budget=600):
    """equal after resolving the guards of joins atom by atom (purely syntactic)"""
    left = [budget]

    def rec(a, b):
        if a is b:
            return True
        left[0] -= 1
        if left[0] < 0:
            return False
        g = None
        for t in (a, b):
            if t.op in ("sel", "and", "not", "gt0", "eq0"):
                g = _cond_atom(t)
                if g is not None:
                    break
        if g is None:
            if a.op == b.op and a.data == b.data and len(a.args) == len(b.args) and a.args and (has_sel(a) or has_sel(b)):
                return all(rec(x, y) for x, y in zip(a.args, b.args))
            return False
        for lit in (g, tm.not_(g)):
            x, y = under(a, lit), under(b, lit)
            if x is a and y is b:
                return False
            if not rec(x, y):
                return False
        return True

    try:
        return rec(a, b)
    except RecursionError:
        return False


def decide_eq(a, b, assume=tm.TRUE, nan_violates=False):
    if tm.STOPS:
        a, b, assume = tm.unstop(a), tm.unstop(b), tm.unstop(assume)
    if a is b:
        return Verdict("holds", "identical value numbers")
    if assume is tm.FALSE:
        return Verdict("holds", "unreachable")
    if assume is not tm.TRUE:
        a, b = under(a, assume), under(b, assume)
        if a is b:
            return Verdict("holds", "identical value numbers under the assumption")
    if (has_sel(a) or has_sel(b)) and same_gated(a, b):
        return Verdict("holds", "identical value numbers on every path through the joins")
    abool, bbool = tm.is_bool(a), tm.is_bool(b)
    if abool != bbool:
        a, b = tm.as_num(a), tm.as_num(b)
        abool = bbool = False
    n = 16 if not (has_sel(a) or has_sel(b) or has_sel(assume)) else 60
    w, tested = find_witness(a, b, assume, n=n, nan_violates=nan_violates)
    if w:
        return Verdict("violated", "value graphs differ", w)
    if abool:
        d = tm.not_(tm.eq(a, b))
        if assume is not tm.TRUE:
            d = tm.and_(assume, d)
        d = tm.sel(d, ONE, ZERO)
    else:
        if tm.is_key(a) or tm.is_key(b):
            return Verdict("undecided", "keys")
        d = tm.sub(a, b)
        if assume is not tm.TRUE:
            d = tm.sel(assume, d, ZERO)
    try:
        ncase = 0
        pending = None
        for leaf, cons in split_cases(d):
            ncase += 1
            if leaf is ZERO:
                continue
            alg = Algebra([leaf], facts=cons)
            if alg.nf(leaf)[0]:
                pending = Verdict("undecided", "normal forms differ, no separating point found: " + tm.show(leaf, 6)[:300])
                if SPECIAL in cons and not abool:
                    w, _ = find_witness(leaf, ZERO, as_condition(cons), seed=2, n=60)
                    if w:
                        return Verdict("violated", "value graphs differ on the set where a guard holds with equality", w)
                break
        if pending is None:
            return Verdict("holds", "equal normal forms", cases=max(ncase, 1), skipped=split_cases.skipped[0])
    except (TooBig, NotNF, RecursionError, NotImplementedError) as e:
        pending = Verdict("undecided", f"normal form not computable ({type(e).__name__} {e})")
    w, t2 = find_witness(a, b, assume, seed=1, n=150, nan_violates=nan_violates)
    if w:
        return Verdict("violated", "value graphs differ", w)
    pending.why += f" [agree at {tested + t2} points]"
    return pending


def decide_true(p, assume=tm.TRUE):
    """truth value p holds whenever assume does"""
    if p is tm.TRUE:
        return Verdict("holds", "constant true")
    return decide_eq(p, tm.TRUE, assume)


def common_factor(t):
    """c1*S + c2*S + ... with constant (possibly irrational) ci and one symbolic cofactor S: sign of the constant times S"""
    if t.op != "+":
        return t
    S, cs = None, []
    for a in t.args:
        fs = a.args if a.op == "*" else (a,)
        sy = tm.mul(*[f for f in fs if tm.syms(f)])
        if S is not None and sy is not S:
            return t
        S = sy
        cs.append(tm.mul(*[f for f in fs if not tm.syms(f)]))
    try:
        v = tm.evaluate(tm.add(*cs), {})
    except Exception:
        return t
    try:
        if abs(v) < 1e-30:
            return t
    except TypeError:
        return t
    return tm.mul(S, const(1 if v > 0 else -1))


def decide_sign(t, rel, assume=tm.TRUE):
    """rel in '>0','>=0','<0','<=0','==0'"""
    if tm.STOPS:
        t, assume = tm.unstop(t), tm.unstop(assume)
    if rel in ("<0", "<=0"):
        return decide_sign(tm.neg(t), rel.replace("<", ">"), assume)
    if rel == "==0":
        return decide_eq(t, ZERO, assume)
    t = common_factor(t)
    cond = tm.gt0(t) if rel == ">0" else tm.ge0(t)
    if cond is tm.TRUE:
        return Verdict("holds", "interval domain")
    return decide_true(cond, assume)
