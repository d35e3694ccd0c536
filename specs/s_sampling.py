"""C23 rejection sampling, C24 batching, C25 random key discipline."""
import ast
import os

from .common import *
from .s_tr import B, leafs, like


# ------------------------------------------------------------------ keys
def parents(k):
    while k.args and tm.is_key(k.args[0]):
        k = k.args[0]
        yield k


def keys_in(t):
    """outermost key terms occurring in t (the keys handed to a routine)"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if tm.is_key(x):
            out.append(x)
            continue
        st.extend(a for a in x.args if isinstance(a, T))
    return out


def independent(c, label, ks):
    """pairwise different keys, none derived from another"""
    s = set()
    for k in ks:
        if k in s:
            c.fact(label, False, f"key {tm.show(k)} occurs twice")
            return
        s.add(k)
    for k in ks:
        for p in parents(k):
            if p in s:
                c.fact(label, False, f"key {tm.show(k)} is derived from {tm.show(p)}, which is itself consumed")
                return
    c.fact(label, True)


def rnds(t, kind=None):
    return [x for x in tm.subterms(t) if x.op == "rnd" and (kind is None or x.data[0] == kind)]


def is_call(x, name):
    return x.op == "U" and x.data[0] == name


# ------------------------------------------------------------------------------------------------ C23
def proposal(c, layout):
    """sample generator of an unknown law: component i of the proposal for key k is S_i(k)"""

    def S(I, key):
        k = lj.use_key(I, key, "proposal")
        s = lambda i: tm.ufun(f"S{i}", (), [k])
        if layout == "scalar":
            return Arr(s(0), "f")
        if layout == "vector":
            return Arr(np.array([s(0), s(1)], dtype=object), "f")
        return {"a": Arr(s(0), "f"), "b": (Arr(np.array([s(1), s(2)], dtype=object), "f"),)}

    n = {"scalar": 1, "vector": 2, "pytree": 3}[layout]
    pdf = lambda xs: tm.ufun("pdf", (), xs)
    return B(S), B(lambda I, x: A(pdf(leafs(c, x)))), pdf, n


def steps(ts):
    """gated chains of the components -> [(condition to take this branch, [component])]; None for havoc"""
    out = []
    guard = tm.TRUE

    def is_final(ts):
        return all(t.op != "sel" for t in ts)

    def depth(t):
        return 1 + max(depth(t.args[1]), depth(t.args[2])) if t.op == "sel" else 0

    while True:
        if is_final(ts):
            out.append((guard, ts))
            return out
        cs = {t.args[0] if t.op == "sel" else None for t in ts}
        if len(cs) != 1:
            return None
        cnd = ts[0].args[0]
        a, b = [t.args[1] for t in ts], [t.args[2] for t in ts]
        if is_final(a) and not is_final(b) or is_final(b) and any(map(havocs, b)):
            out.append((cnd, a))
            ts = b
        elif is_final(b):
            out.append((tm.not_(cnd), b))
            ts = a
        else:
            return None
        guard = tm.TRUE


def havocs(t):
    return any(x.op == "s" and str(x.data).startswith("havoc") or "havoc" in str(x.data) for x in tm.subterms(t))


def _rejection(c, layout, n, unroll):
    c.I.while_bound = unroll
    S, P, pdf, dim = proposal(c, layout)
    m = c.s("m", 0, None, True)
    r = c.call("sampling.rejection_sampling", c.key(), P, S, n, m)
    ls, spec = lj.flatten(c.I, r)
    _, want = lj.flatten(c.I, c.I.call(S, [c.key("Z")], {}))
    c.fact("samples have the structure of one proposal", spec == want, f"{spec}")
    c.fact("one leading axis of exactly the requested length", all(as_arr(x).shape[:1] == (n,) for x in ls) and sum(as_arr(x).size for x in ls) == n * dim, f"{[as_arr(x).shape for x in ls]}")
    used = []
    for j in range(n):
        comp = [t for x in ls for t in as_arr(x).a[j].reshape(-1)] if all(as_arr(x).ndim > 1 for x in ls) else [t for x in ls for t in np.asarray(as_arr(x).a[j], dtype=object).reshape(-1)]
        st = steps(comp)
        lab = f"sample {j}"
        if st is None:
            c.undecided(lab, "result is not a chain of tested proposals")
            continue
        k = 0
        for guard, ts in st:
            if any(havocs(t) for t in ts):
                continue
            here = f"{lab}, after {k} rejections"
            k += 1
            ok = all(is_call(t, f"S{i}") for i, t in enumerate(ts)) and len({t.args for t in ts}) == 1
            if not c.fact(f"{here}: the returned sample is one proposal", ok, f"components {[tm.show(t, 5) for t in ts]}"):
                continue
            key = ts[0].args[0]
            us = rnds(guard)
            if guard is tm.TRUE or len(us) != 1:
                c.fact(f"{here}: decided by one random draw of its own", False, f"acceptance condition {tm.show(guard, 7)} depends on {len(us)} draws")
                continue
            u = us[0]
            c.fact(f"{here}: the draw is uniform on [0,1)", u.data[0] == "uniform", f"draw is {u.data[0]}")
            x = tm.div(pdf(ts), m.item())
            c.true(f"{here}: accepted only if the draw does not exceed the scaled density at this proposal", tm.le(u, x), assume=guard)
            c.true(f"{here}: rejected only if it is not below it", tm.le(x, u), assume=tm.not_(guard))
            c.true(f"{here}: a proposal of zero density is never accepted", tm.not_(tm.subst(guard, {pdf(ts): ZERO})))
            used += [key] + list(u.args)
        c.fact(f"{lab}: every number of rejections up to {unroll} is covered", k >= unroll, f"{k} levels")
    independent(c, "all proposals and draws use independent keys", used)


for _l in ("scalar", "vector", "pytree"):
    for _n, _u, _t in ((1, 3, "quick"), (2, 2, "quick"), (3, 3, "thorough"), (2, 6, "thorough")):
        ob("C23", f"{_l} n={_n} up to {_u} rejections", "sampling.rejection_sampling", tier=_t, timeout=120, args=(_l, _n, _u))(_rejection)


@ob("C23", "many-samples", "sampling.rejection_sampling", timeout=120)
def _(c):
    """the samples of a large request are pairwise independent"""
    for n in [7, 40, 130] + sizes(c, ["sampling"], 130, 2100):
        def go():
            c.I.while_bound = 0
            S, P, pdf, dim = proposal(c, "scalar")
            r = as_arr(c.call("sampling.rejection_sampling", c.key(), P, S, n, c.s("m", 0, None, True)))
            if not c.fact(f"{n} samples", r.shape == (n,), f"shape {r.shape}"):
                return
            used = []
            for t in r.flat():
                ks = keys_in(t)
                own = {x.args[0] for x in tm.subterms(t) if is_call(x, "S0")}
                own |= {u.args[0] for u in rnds(t)}
                used += sorted(own, key=lambda k: k.id)
            independent(c, f"{n} samples: all proposals and draws use independent keys", used)

        c.part(f"{n} samples", go)


@ob("C23", "step-independent-of-history", "sampling.rejection_sampling")
def _(c):
    """the loop body maps a state to a fresh proposal, a fresh draw and a fresh key, whatever the state was (this extends the unrolled levels to every number of rejections)"""
    S, P, pdf, dim = proposal(c, "vector")
    c.I.while_bound = 1
    c.call("sampling.rejection_sampling", c.key(), P, S, 1, c.s("m", 0, None, True))
    loops = [e for e in c.I.events if e.kind == "loop"]
    if not loops:
        c.undecided("loop", "no loop found")
        return
    cond, body, state = loops[0].data[:3]
    ls, spec = lj.flatten(c.I, state)
    arb = []
    for i, x in enumerate(ls):
        a = np.empty(x.a.shape, dtype=object)
        for ix in np.ndindex(*x.a.shape):
            a[ix] = tm.mk("key", f"K{i}_{ix}") if x.kind == "k" else tm.boolsym(f"z{i}_{ix}") if x.kind == "b" else tm.sym(f"z{i}_{ix}")
        arb.append(Arr(a, x.kind))
    n0 = len(c.I.events)
    new = c.I.call(body, [lj.unflatten(c.I, spec, arb)], {})
    nl, nspec = lj.flatten(c.I, new)
    c.fact("structure of the loop state is kept", nspec == spec and all(x.shape == y.shape and x.kind == y.kind for x, y in zip(map(as_arr, nl), ls)))
    again = c.I.truth(c.I.call(cond, [new], {}))
    if not isinstance(again, T):
        c.fact("the test depends on the new state", False, f"constant {again}")
        return
    us = rnds(again)
    sk = {t.args[0] for t in tm.subterms(*[t for x in nl for t in fl(x)]) if is_call(t, "S0") or is_call(t, "S1")}
    c.fact("one fresh proposal per iteration", len(sk) == 1, f"{len(sk)}")
    c.fact("one fresh uniform draw per iteration", len(us) == 1 and us[0].data[0] == "uniform", f"{len(us)}")
    carried = [x.item() for x in map(as_arr, nl) if x.kind == "k" and x.shape == ()]
    if len(sk) == 1 and len(us) == 1:
        k = sk.pop()
        x = tm.div(pdf([tm.ufun("S0", (), [k]), tm.ufun("S1", (), [k])]), tm.sym("m", 0, None, True))
        c.true("continues only if the draw is not below the scaled density at the new proposal", tm.le(x, us[0]), assume=again)
        c.true("stops only if the draw does not exceed the scaled density at the new proposal", tm.le(us[0], x), assume=tm.not_(again))
        c.true("never stops at a proposal of zero density", tm.subst(again, {pdf([tm.ufun("S0", (), [k]), tm.ufun("S1", (), [k])]): ZERO}))
        independent(c, "proposal, draw and the key carried on are independent", [k, us[0].args[0]] + carried)
        c.fact("the state's own key is not carried on", all(not (q.op == "key" and str(q.data).startswith("K")) for q in carried), "the old key survives the iteration")


# ------------------------------------------------------------------------------------------------ C24
def data(c, layout, n):
    """rows of every leaf are distinct symbols"""
    if layout == "vector":
        return c.arr("x", (n,))
    if layout == "matrix":
        return c.arr("x", (n, 2))
    return {"a": c.arr("x", (n, 2)), "b": [c.arr("y", (n,)), c.arr("z", (n, 1, 2))]}


def row_index(c, tree_in, tree_out, b, i):
    """the single random row index used for entry (b, i) of every leaf, or a message"""
    li, si = lj.flatten(c.I, tree_in)
    lo, so = lj.flatten(c.I, tree_out)
    if si != so:
        return f"structure {so} instead of {si}"
    idx = None
    for x, y in zip(map(as_arr, li), map(as_arr, lo)):
        got = np.asarray(y.a[b, i], dtype=object).reshape(-1)
        rows = x.a.reshape(x.shape[0], -1)
        if len(got) != rows.shape[1]:
            return "row size differs"
        for col, t in enumerate(got):
            us = rnds(t)
            if len(us) != 1:
                return f"entry {tm.show(t, 6)} uses {len(us)} random indices"
            if idx is None:
                idx = us[0]
            if us[0] is not idx:
                return f"leaves or columns use different row indices: {tm.show(us[0], 6)} and {tm.show(idx, 6)}"
            want = la.take(c.I, Arr(rows[:, col].copy(), x.kind), Arr(np.array([idx], dtype=object), "i"), axis=0).item()
            if t is not want:
                v = nf.decide_eq(t, want)
                if v.status != "holds":
                    return f"entry {tm.show(t, 6)} is not the row selected by {tm.show(idx, 6)}"
    return idx


def table(c, lab, X, r, nb, bs):
    shapes = [as_arr(y).shape[:2] for y in lj.flatten(c.I, r)[0]]
    if not c.fact(f"{lab}: {nb} batches of {bs} rows", all(s == (nb, bs) for s in shapes), f"{shapes}"):
        return None
    out = []
    for b in range(nb):
        row = []
        for i in range(bs):
            v = row_index(c, X, r, b, i)
            if not c.fact(f"{lab}: batch {b} entry {i} is one whole row in every leaf", not isinstance(v, str), v if isinstance(v, str) else ""):
                return None
            row.append(v)
        out.append(row)
    return out


@ob("C24", "without-replacement", "opt.batches_without_replacement")
def _(c):
    for layout in ("vector", "matrix", "pytree"):
        for n, bs in ((4, 2), (5, 2), (3, 3), (3, 1), (5, 4), (2, 3)):
            lab = f"{layout} {n} rows, batches of {bs}"

            def go():
                X = data(c, layout, n)
                if n // bs == 0:
                    r = c.call("opt.batches_without_replacement", c.key(), X, bs)
                    c.fact(f"{lab}: no batch", all(as_arr(y).shape[0] == 0 for y in lj.flatten(c.I, r)[0]), "not empty")
                    return
                t = table(c, lab, X, c.call("opt.batches_without_replacement", c.key(), X, bs), n // bs, bs)
                if t is None:
                    return
                al = [u for row in t for u in row]
                ok = all(u.data[0] == "perm" and u.data[2] == n for u in al)
                c.fact(f"{lab}: rows are entries of a random permutation of all rows", ok, f"{[tm.show(u, 5) for u in al[:2]]}")
                c.fact(f"{lab}: no row is used twice", len(set(al)) == len(al) and len({u.args for u in al}) == 1, "entries repeat or come from different permutations")

            c.part(lab, go)


def quick_rows(c, lab, n, r, nb, bs):
    """the random row index of every entry of a table of batches drawn from n scalar rows; the entries are instances of one
    selection of a row, so that only the first one is compared with it in full"""
    r = as_arr(r)
    if not c.fact(f"{lab}: {nb} batches of {bs} rows", r.shape == (nb, bs), f"{r.shape}"):
        return None
    out = []
    for t in r.flat():
        us = rnds(t)
        if len(us) != 1:
            c.fact(f"{lab}: every entry is one randomly selected row", False, f"an entry uses {len(us)} random indices")
            return None
        out.append(us[0])
    X = c.arr("x", (n,))
    t = r.a[0, 0]
    c.fact(f"{lab}: first entry is the selected row", t is la.take(c.I, X, Arr(np.array([out[0]], dtype=object), "i"), axis=0).item() or row_index(c, X, r, 0, 0) is out[0], tm.show(t, 5))
    return [out[b * bs:(b + 1) * bs] for b in range(nb)]


@ob("C24", "large-without-replacement", "opt.batches_without_replacement", timeout=120)
def _(c):
    for n in [40, 130] + sizes(c, ["opt"], 130, 1100):
        for bs in sorted({1, 7, n // 2, n} | {k for k in sizes(c, ["opt"], 7, n)}):
            lab = f"{n} rows, batches of {bs}"

            def go():
                t = quick_rows(c, lab, n, c.call("opt.batches_without_replacement", c.key(), c.arr("x", (n,)), bs), n // bs, bs)
                if t is None:
                    return
                al = [u for row in t for u in row]
                c.fact(f"{lab}: rows are entries of a random permutation of all rows", all(u.data[0] == "perm" and u.data[2] == n for u in al), f"{[tm.show(u, 5) for u in al[:2]]}")
                c.fact(f"{lab}: no row is used twice", len(set(al)) == len(al) and len({u.args for u in al}) == 1, "entries repeat or come from different permutations")

            c.part(lab, go)


@ob("C24", "large-with-replacement", "opt.batches_with_replacement", timeout=120)
def _(c):
    for n, nb, bs in [(40, 3, 5), (130, 2, 3), (3, 130, 1), (3, 1, 130)] + [z for k in sizes(c, ["opt"], 130, 1100) for z in ((k, 2, 3), (3, k, 1), (3, 1, k))]:
        for rep in (True, False):
            if not rep and bs > n:
                continue
            lab = f"{n} rows, {nb} batches of {bs}, replace={rep}"

            def go():
                t = quick_rows(c, lab, n, c.call("opt.batches_with_replacement", c.key(), c.arr("x", (n,)), nb, bs, rep), nb, bs)
                if t is None:
                    return
                c.fact(f"{lab}: drawn from all rows", all(u.data[0] == ("choice" if rep else "perm") and u.data[2] == n for row in t for u in row), f"{t[0][0].data}")
                c.fact(f"{lab}: one draw per batch with different entries", all(len(set(row)) == len(row) and len({u.args for u in row}) == 1 for row in t), "an entry is used twice")
                independent(c, f"{lab}: every batch has its own key", [row[0].args[0] for row in t])

            c.part(lab, go)


@ob("C24", "long-iteration", "opt.make_iterator", timeout=120)
def _(c):
    """many epochs and many batches per epoch"""
    more = sizes(c, ["opt"], 40, 1100)
    for e, nb in [(40, 1), (2, 40), (12, 3), (130, 1), (1, 130)] + [z for k in more for z in ((k, 1), (1, k))]:
        for rng in (False, True):
            lab = f"{e} epochs of {nb} batches, add_rng={rng}"

            def go():
                asked = []

                def fn(I, key):
                    k = lj.use_key(I, key, "batch_fn")
                    asked.append(k)
                    return Arr(np.array([tm.ufun(f"X{i}", (), [k]) for i in range(nb)], dtype=object), "f")

                items = c.I.iterate(c.call("opt.make_iterator", c.key(), e, B(fn), add_rng=rng))
                keys = []
                if rng:
                    pr = [c.I.iterate(it) for it in items]
                    keys, items = [as_arr(p[0]).item() for p in pr], [p[1] for p in pr]
                want = [tm.ufun(f"X{i}", (), [k]) for k in asked for i in range(nb)]
                got = [as_arr(x).item() for x in items]
                c.fact(f"{lab}: one table per epoch", len(asked) == e, f"{len(asked)}")
                c.fact(f"{lab}: every batch of every epoch, in order", len(got) == len(want) and all(x is y for x, y in zip(got, want)), f"{len(got)} batches delivered")
                independent(c, f"{lab}: fresh randomness for every epoch and every delivered key", asked + keys)

            c.part(lab, go)


@ob("C24", "with-replacement", "opt.batches_with_replacement")
def _(c):
    for layout in ("matrix", "pytree"):
        for n, nb, bs in ((4, 2, 3), (3, 1, 3), (3, 3, 1), (2, 2, 4)):
            for rep in (None, True, False):
                if rep is False and bs > n:
                    c.raises(f"{layout} {n} rows: more rows than available refused without repetition", lambda: c.call("opt.batches_with_replacement", c.key(), data(c, layout, n), nb, bs, False))
                    continue
                lab = f"{layout} {n} rows, {nb} batches of {bs}, replace={rep}"

                def go():
                    X = data(c, layout, n)
                    kw = {} if rep is None else {"replace_within_batch": rep}
                    t = table(c, lab, X, c.call("opt.batches_with_replacement", c.key(), X, nb, bs, **kw), nb, bs)
                    if t is None:
                        return
                    ks = []
                    for b, row in enumerate(t):
                        want = "perm" if rep is False else "choice"
                        c.fact(f"{lab}: batch {b} drawn {'without' if rep is False else 'with'} repetition from all rows", all(u.data[0] == want and u.data[2] == n for u in row), f"{[u.data for u in row]}")
                        c.fact(f"{lab}: batch {b} uses one draw with different entries", len(set(row)) == len(row) and len({u.args for u in row}) == 1, "an entry is used twice")
                        ks.append(row[0].args[0])
                    independent(c, f"{lab}: every batch has its own key", ks)

                c.part(lab, go)


@ob("C24", "unequal-rows-refused", "opt.axis_size")
def _(c):
    X = lambda: {"a": c.arr("x", (4, 2)), "b": c.arr("y", (3,))}
    Y = lambda: (c.arr("x", (2, 2)), c.arr("y", (2,)), c.arr("z", (4, 2)))
    for nm, t in (("first leaf larger", X), ("last leaf differs", Y)):
        c.raises(f"{nm}: without replacement", lambda: c.call("opt.batches_without_replacement", c.key(), t(), 2), ["AssertionError", "ValueError"])
        c.raises(f"{nm}: with replacement", lambda: c.call("opt.batches_with_replacement", c.key(), t(), 2, 2), ["AssertionError", "ValueError"])
        c.raises(f"{nm}: axis_size", lambda: c.call("opt.axis_size", t()), ["AssertionError", "ValueError"])
        c.part(nm, lambda: c.fact(f"{nm}: check_axis_size is false", c.I.truth(c.call("opt.check_axis_size", t())) is False, "true"))
    for t, ax, want in ((c.arr("x", (3, 2)), 0, 3), (c.arr("x", (3, 2)), 1, 2), ({"a": c.arr("x", (3, 2)), "b": c.arr("y", (1, 2))}, 1, 2)):
        c.part(f"axis {ax}", lambda: c.fact(f"common size along axis {ax}", c.I.int_(c.call("opt.axis_size", t, ax)) == want and c.I.truth(c.call("opt.check_axis_size", t, ax)) is True, "wrong size"))
    c.raises("second axis compared when asked for", lambda: c.call("opt.axis_size", (c.arr("x", (3, 2)), c.arr("y", (3, 1))), 1), ["AssertionError", "ValueError"])


def _iterate(c, epochs, add_rng, layout, nb):
    asked = []

    def fn(I, key):
        k = lj.use_key(I, key, "batch_fn")
        asked.append(k)
        leaf = lambda nm, sh: Arr(np.array([tm.ufun(f"{nm}{i}", (), [k]) for i in range(int(np.prod(sh)))], dtype=object).reshape(sh), "f")
        return leaf("X", (nb, 2)) if layout == "array" else {"a": leaf("X", (nb, 2)), "b": leaf("Y", (nb, 1, 2))}

    kw = {} if add_rng is None else {"add_rng": add_rng}
    items = c.I.iterate(c.call("opt.make_iterator", c.key(), epochs, B(fn), **kw))
    lab = f"{epochs} epochs of {nb} batches, add_rng={add_rng}, {layout}"
    c.fact(f"{lab}: one batch table per epoch", len(asked) == epochs, f"{len(asked)}")
    if not c.fact(f"{lab}: every batch of every epoch is delivered", len(items) == epochs * nb, f"{len(items)} items"):
        return
    ks = list(asked)
    n = 0
    for e in range(epochs):
        leaf = lambda nm, sh, e=e: Arr(np.array([tm.ufun(f"{nm}{i}", (), [asked[e]]) for i in range(int(np.prod(sh)))], dtype=object).reshape(sh), "f")
        full = leaf("X", (nb, 2)) if layout == "array" else {"a": leaf("X", (nb, 2)), "b": leaf("Y", (nb, 1, 2))}
        for b in range(nb):
            it = items[n]
            n += 1
            if add_rng:
                pr = c.I.iterate(it)
                if not c.fact(f"{lab}: epoch {e} batch {b} comes with a key", len(pr) == 2 and isinstance(pr[0], Arr) and pr[0].kind == "k", f"{str(it)[:80]}"):
                    continue
                ks.append(pr[0].item())
                it = pr[1]
            want = lj.hmap(c.I, lambda x: Arr(la.box(x.a[b]), x.kind), full)
            c.eq(f"{lab}: epoch {e} batch {b}", it, want)
    independent(c, f"{lab}: fresh randomness for every epoch{' and every delivered key' if add_rng else ''}", ks)


for _e, _nb, _t in ((2, 2, "quick"), (1, 3, "quick"), (0, 2, "quick"), (3, 3, "thorough")):
    for _a in (None, False, True):
        for _l in ("array", "pytree"):
            ob("C24", f"iterator epochs={_e} batches={_nb} add_rng={_a} {_l}", "opt.make_iterator", tier=_t, args=(_e, _a, _l, _nb))(_iterate)


# ------------------------------------------------------------------------------------------------ C25
def exclusive(p, q):
    """the two program points cannot both be reached"""
    d = {}
    for t, b in p:
        d[t] = b
    return any(d.get(t, b) != b for t, b in q)


def folded_apart(a, b):
    """two fold_in of one key with different numbers give independent keys"""
    return a is not None and b is not None and a.op == "c" and b.op == "c" and a.data != b.data


def linear(c, lab, extra=()):
    """every key is consumed at most once on every path"""
    by = {}
    for e in c.I.events:
        if e.kind == "key-use":
            by.setdefault(e.data[0], []).append((e.data[1], e.loc, e.path, e.data[2] if len(e.data) > 2 else None))
    for k, what in extra:
        by.setdefault(k, []).append((what, "result", (), None))
    bad = None
    for k, us in by.items():
        for i in range(len(us)):
            for j in range(i):
                if not exclusive(us[i][2], us[j][2]) and not folded_apart(us[i][3], us[j][3]):
                    bad = bad or (k, us[j], us[i])
    n = sum(len(u) for u in by.values())
    if bad:
        k, u, w = bad
        c.add("violated", f"{lab}: keys consumed once", f"key {tm.show(k)} is consumed by {u[0]} at {u[1]} and again by {w[0]} at {w[1]}", loc=w[1])
    else:
        c.add("holds", f"{lab}: keys consumed once", f"{n} uses of {len(by)} keys", cases=n or 1)
    c.fact(f"{lab}: the analysed run consumes keys", n > 0, "no key is consumed")
    return by


def loop_linear(c, lab):
    """loop bodies: keys carried into the next iteration were not consumed in this one"""
    for e in [e for e in c.I.events if e.kind == "loop"]:
        cond, body, state = e.data[:3]
        ls, spec = lj.flatten(c.I, state)
        arb = []
        for i, x in enumerate(ls):
            a = np.empty(x.a.shape, dtype=object)
            for ix in np.ndindex(*x.a.shape):
                a[ix] = tm.mk("key", f"loop{i}_{ix}") if x.kind == "k" else tm.boolsym(f"z{i}_{ix}") if x.kind == "b" else tm.sym(f"z{i}_{ix}")
            arb.append(Arr(a, x.kind))
        n0 = len(c.I.events)
        st = lj.unflatten(c.I, spec, arb)
        c.I.call(cond, [st], {})
        new = c.I.call(body, [st], {})
        ev = [x for x in c.I.events[n0:] if x.kind == "key-use"]
        used = {}
        for x in ev:
            used.setdefault(x.data[0], []).append(x.data[2] if len(x.data) > 2 else None)
        carried = [t for y in lj.flatten(c.I, new)[0] if isinstance(y, Arr) and y.kind == "k" for t in y.flat()]
        rep = [k for k, u in used.items() if any(not folded_apart(p, q) for p, q in itertools.combinations(u, 2))]
        c.fact(f"{lab}: one iteration consumes each key once", not rep, f"{[tm.show(k) for k in rep]}")
        both = [k for k in carried if k in used]
        c.fact(f"{lab}: keys carried to the next iteration are unused", not both, f"{[tm.show(k) for k in both]} consumed and carried on")
        c.fact(f"{lab}: carried keys are different", len(set(carried)) == len(carried), "the same key is carried twice")


@ob("C25", "rejection-sampling", "sampling.rejection_sampling")
def _(c):
    for layout in ("vector", "pytree"):
        for n in (1, 3):
            c.I.events.clear()
            S, P, pdf, dim = proposal(c, layout)
            c.call("sampling.rejection_sampling", c.key(), P, S, n, c.s("m", 0, None, True))
            linear(c, f"{layout} n={n}")
            c.part("loop", lambda: loop_linear(c, f"{layout} n={n}"))


@ob("C25", "batches", "opt.batches_without_replacement", "opt.batches_with_replacement")
def _(c):
    for layout in ("matrix", "pytree"):
        c.I.events.clear()
        c.call("opt.batches_without_replacement", c.key(), data(c, layout, 5), 2)
        linear(c, f"without replacement, {layout}")
        for rep in (True, False):
            c.I.events.clear()
            c.call("opt.batches_with_replacement", c.key(), data(c, layout, 5), 3, 2, rep)
            linear(c, f"with replacement={rep}, {layout}")


@ob("C25", "iterator", "opt.make_iterator")
def _(c):
    for rng in (False, True):
        for e, nb in [(2, 3), (3, 1), (1, 1), (4, 2), (2, 33), (40, 1)] + [z for k in sizes(c, ["opt"], 40, 600) for z in ((k, 1), (1, k))]:
            c.I.events.clear()

            def fn(I, key):
                k = lj.use_key(I, key, "batch_fn")
                return Arr(np.array([tm.ufun(f"X{i}", (), [k]) for i in range(nb)], dtype=object), "f")

            items = c.I.iterate(c.call("opt.make_iterator", c.key(), e, B(fn), rng))
            extra = []
            if rng:
                for it in items:
                    extra.append((as_arr(c.I.iterate(it)[0]).item(), "delivered to the caller"))
            linear(c, f"add_rng={rng} {e} epochs of {nb}", extra)


@ob("C25", "network-initialisation", "model.mlp")
def _(c):
    for layers in ([2, 3, 1], [1, 2], [2, 2, 2, 3]):
        c.I.events.clear()
        c.part(str(layers), lambda: (c.call("model.mlp", c.key(), layers), linear(c, f"mlp {layers}")))


KEY_NAMES = {"split", "fold_in", "PRNGKey", "key", "uniform", "normal", "permutation", "choice", "randint", "bernoulli", "shuffle", "ball", "truncated_normal", "categorical", "exponential", "multivariate_normal", "rademacher", "gumbel", "laplace", "beta", "gamma", "dirichlet", "orthogonal", "bits"}
COVERED = {"sampling.rejection_sampling", "opt.batches_without_replacement", "opt.batches_with_replacement", "opt.make_iterator", "model.mlp"}


@ob("C25", "census-of-key-consumers")
def _(c):
    """every function whose text touches the random module is one of the analysed ones, calls no sampling routine with a literal seed, or is listed"""
    root = os.path.join(c.repo, "magpi")
    seen = 0
    for fn in sorted(os.listdir(root)):
        if not fn.endswith(".py"):
            continue
        tree = ast.parse(open(os.path.join(root, fn)).read())
        mod = fn[:-3]
        for top in tree.body:
            name = getattr(top, "name", None)
            hits = [n for n in ast.walk(top) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in KEY_NAMES and _is_random(n.func.value)]
            # a literal seed handed to a sampling routine makes every call return the same numbers
            for n in hits:
                if n.func.attr in ("PRNGKey", "key"):
                    continue
                for a in n.args[:1]:
                    if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ("PRNGKey", "key") and a.args and isinstance(a.args[0], ast.Constant):
                        c.add("violated", f"{mod}.{name}: randomness comes from the caller's key", "a sampling routine is given a key with a literal seed", loc=f"{fn}:{n.lineno}")
            if not hits:
                continue
            seen += 1
            kinds = {n.func.attr for n in hits}
            if kinds <= {"PRNGKey", "key"}:
                c.fact(f"{mod}.{name}: creates a key only", True)
            elif f"{mod}.{name}" in COVERED or name is not None and any(cv.startswith(mod + ".") and _reaches(tree, cv.split(".")[1], name) for cv in COVERED):
                c.fact(f"{mod}.{name}: analysed", True)
            else:
                c.undecided(f"{mod}.{name}", "consumes random keys but is reached by no analysed entry point")
    c.fact("key consumers were found", seen > 0)


def _is_random(e):
    return isinstance(e, ast.Name) and e.id in ("random", "jrandom", "jr") or isinstance(e, ast.Attribute) and e.attr == "random" and isinstance(e.value, ast.Name) and e.value.id == "jax"


def _reaches(tree, entry, target):
    defs = {n.name: n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    todo, seen = [entry], set()
    while todo:
        f = todo.pop()
        if f in seen or f not in defs:
            continue
        seen.add(f)
        todo += [n.id for n in ast.walk(defs[f]) if isinstance(n, ast.Name)]
    return target in seen
