"""Obligations: what a property demands of the value graph derived from the source."""
from __future__ import annotations
from fractions import Fraction
import signal
import sys
import time
import traceback

import numpy as np

from . import terms as tm, nf
from .terms import T, const
from .values import *
from . import values as V
from .interp import Interp, MappingV
from . import lib_jax as lj, lib_arr as la

sys.setrecursionlimit(20000)

REG = []


class Ob:
    def __init__(self, pid, name, fn, anchors, tier, timeout):
        self.pid, self.name, self.fn, self.anchors, self.tier, self.timeout = pid, name, fn, anchors, tier, timeout


def ob(pid, name, *anchors, tier="quick", timeout=60, args=()):
    def deco(f):
        REG.append(Ob(pid, name, (lambda c: f(c, *args)) if args else f, ["magpi." + a for a in anchors], tier, timeout))
        return f

    return deco


class Result:
    __slots__ = ("status", "label", "why", "witness", "got", "want", "loc", "cases")

    def __init__(self, status, label, why="", witness=None, got=None, want=None, loc=None, cases=1):
        self.status, self.label, self.why, self.witness = status, label, why, witness
        self.got, self.want, self.loc, self.cases = got, want, loc, cases


class Vanished(Exception):
    pass


class Skip(Exception):
    """the rest of the obligation cannot be evaluated (already recorded)"""


class Ctx:
    def __init__(self, repo, obn):
        self.repo, self.ob = repo, obn
        self.I = Interp(repo)
        self.res = []
        self.whole = False

    # ---------------------------------------------------------------- access
    def get(self, name):
        qual = "magpi." + name
        parts = name.split(".")
        try:
            v = self.I.get("magpi." + ".".join(parts[:2]))
        except (KeyError, FileNotFoundError):
            raise Vanished(qual)
        for p in parts[2:]:
            try:
                v = self.I.getattr(v, p)
            except InterpRaise:
                raise Vanished(qual)
        return v

    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = self.get(f)
        return self.I.call(f, list(a), k)

    def attr(self, o, n):
        return self.I.getattr(o, n)

    # ---------------------------------------------------------------- values
    def sym(self, name, *a, **k):
        return tm.sym(name, *a, **k)

    def s(self, name, *a, **k):
        return Arr(tm.sym(name, *a, **k), "f")

    def vec(self, name, n, lo=None, hi=None, lo_open=False, hi_open=False):
        return Arr(np.array([tm.sym(f"{name}{i}", lo, hi, lo_open, hi_open) for i in range(n)], dtype=object).reshape(n), "f")

    def arr(self, name, shape, lo=None, hi=None, lo_open=False, hi_open=False):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = tm.sym(name + "_".join(map(str, i)), lo, hi, lo_open, hi_open)
        return Arr(la.box(a), "f")

    def mat(self, rows):
        return as_arr([[num_(x) for x in r] for r in rows])

    def A(self, x, kind="f"):
        """array from nested python lists of terms / numbers"""
        a = as_arr(_lift(x))
        return Arr(a.a, kind) if a.kind != kind else a

    def key(self, name="K"):
        return Arr(tm.mk("key", name), "k")

    # --------------------------------------------------------------- results
    def add(self, *a, **k):
        self.res.append(Result(*a, **k))

    def fact(self, label, ok, why=""):
        self.add("holds" if ok else "violated", label, why if not ok else "structural")
        return ok

    def undecided(self, label, why):
        self.add("undecided", label, why)

    def eq(self, label, got, want, assume=tm.TRUE, nan_violates=False):
        """got and want denote the same value for every input satisfying assume"""
        try:
            gl, gs = lj.flatten(self.I, norm_tree(got))
            wl, ws = lj.flatten(self.I, norm_tree(want))
        except Unsupported as e:
            self.add("undecided", label, str(e))
            return
        if gs != ws:
            self.add("violated", label, f"structure differs: {_spec(gs)} instead of {_spec(ws)}")
            return
        for k, (g, w) in enumerate(zip(gl, wl)):
            lab = label if len(gl) == 1 else f"{label}#{k}"
            if isinstance(g, (Opaque, Choice)):
                self.add("undecided", lab, f"value is {g}")
                continue
            if isinstance(w, str) or isinstance(g, str) or not isinstance(g, lj.NUMLIKE):
                self.add("holds" if g is w or (isinstance(g, str) and g == w) else "violated", lab, "identity", got=repr(g), want=repr(w))
                continue
            ga, wa = as_arr(g), as_arr(w)
            if ga.shape != wa.shape:
                self.add("violated", lab, f"shape {ga.shape} instead of {wa.shape}", got=repr(ga), want=repr(wa))
                continue
            seen = {}
            for i in np.ndindex(*ga.shape):
                a, b = ga.a[i], wa.a[i]
                if (a, b) in seen:
                    continue
                seen[a, b] = 1
                if tm.is_key(a) or tm.is_key(b):
                    self.add("holds" if a is b else "violated", f"{lab}{list(i) if i else ''}", "PRNG key", got=tm.show(a), want=tm.show(b))
                    continue
                v = nf.decide_eq(a, b, assume, nan_violates=nan_violates)
                self.add(v.status, f"{lab}{list(i) if i else ''}", v.why, v.witness, tm.show(a, 7)[:600], tm.show(b, 7)[:600], cases=getattr(v, "cases", 1) or 1)

    def true(self, label, p, assume=tm.TRUE):
        if isinstance(p, bool):
            p = const(p)
        if isinstance(p, Arr):
            for i in np.ndindex(*p.shape):
                self.true(f"{label}{list(i) if i else ''}", p.a[i], assume)
            return
        v = nf.decide_true(tm.as_bool(p), assume)
        self.add(v.status, label, v.why, v.witness, tm.show(p, 7)[:600], "True", cases=getattr(v, "cases", 1) or 1)

    def sign(self, label, t, rel, assume=tm.TRUE):
        if isinstance(t, Arr):
            t = t.item()
        v = nf.decide_sign(t, rel, assume)
        self.add(v.status, label, v.why, v.witness, tm.show(t, 7)[:600], rel, cases=getattr(v, "cases", 1) or 1)

    def raises(self, label, thunk, names=None):
        n0 = len(self.I.events)
        try:
            r = thunk()
        except InterpRaise as e:
            if names and e.name not in names:
                self.add("violated", label, f"raises {e.name} instead of {'/'.join(names)}", loc=e.loc)
            else:
                self.add("holds", label, f"raises {e.name}")
            return
        except Unsupported as e:
            self.add("undecided", label, str(e))
            return
        self.add("violated", label, f"no exception raised, returns {str(r)[:200]}")

    def part(self, label, thunk):
        """run a sub-obligation; exceptions of the analysed program are violations of that part"""
        try:
            return thunk()
        except InterpRaise as e:
            self.add("violated", label, f"the program raises {e.exc} ", loc=e.loc)
        except Unsupported as e:
            self.add("undecided", label, f"outside the abstract semantics: {e}")
        except Vanished as e:
            self.add("undecided", label, f"anchor {e} not found")

    def raise_conditions(self):
        """conditions under which a raise / failing assert was met on the way"""
        return [e for e in self.I.events if e.kind in ("raise-when", "assert")]


def num_(x):
    return x


def _lift(x):
    if isinstance(x, (list, tuple)):
        return [_lift(y) for y in x]
    if isinstance(x, float):
        return Fraction(x)
    return x


def norm_tree(t):
    """python scalars and 0-d arrays are the same value"""
    return t


def _spec(s):
    if s[0] in ("leaf", "none"):
        return s[0]
    if s[0] in ("tuple", "list"):
        return f"{s[0]}[{', '.join(_spec(x) for x in s[1])}]"
    if s[0] == "dict":
        return "{" + ", ".join(f"{k}: {_spec(x)}" for k, x in zip(s[1], s[2])) + "}"
    return f"{s[1].name}[{', '.join(_spec(x) for x in s[2])}]"


class _Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise _Timeout()


def run(obn, repo="/repo", scale=1.0):
    """evaluate one obligation; returns (ctx, seconds)"""
    c = Ctx(repo, obn)
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, obn.timeout * scale)
    try:
        obn.fn(c)
    except InterpRaise as e:
        c.add("violated", "evaluation", f"the program raises {e.exc}", loc=e.loc)
    except Unsupported as e:
        c.add("undecided", "evaluation", f"outside the abstract semantics: {e}", loc=c.I.loc())
    except Vanished as e:
        c.add("undecided", "anchor", f"anchor {e} not found")
        c.vanished = str(e)
    except Skip:
        pass
    except _Timeout:
        c.add("undecided", "evaluation", "time limit")
    except (RecursionError, MemoryError) as e:
        c.add("undecided", "evaluation", f"analysis limit {type(e).__name__}")
    except Exception as e:  # analysis error: no verdict
        c.add("undecided", "evaluation", "analysis error: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:200] + " / " + traceback.format_exc().strip().splitlines()[-3].strip()[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return c, time.time() - t0
