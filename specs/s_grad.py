"""C32: nothing lies between inputs and results that derivatives cannot pass.

The value graphs of the other obligations are functions of all inputs, so their derivatives are the right ones wherever
automatic differentiation sees the same graph.  What it does not see is recorded on the way: stop_gradient, loops
without a reverse mode, host callbacks and functions with a derivative rule of their own (which is compared with the
derivative of the body)."""
from .common import *
from magstat import oblig
from .s_trace import HEAVY, dependent

VALUE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"}
HEAVY = HEAVY | {("C10", "box-rows"), ("C09", "independent-rows")}


def touches(I, v):
    if v is None:
        return True
    return any(dependent(as_arr(x), frozenset()) for x in lj.flatten(I, v)[0] if isinstance(x, lj.NUMLIKE))


def again(c, o):
    d = oblig.Ctx(c.repo, o)
    err = None
    try:
        o.fn(d)
    except (InterpRaise, Unsupported, oblig.Vanished, oblig.Skip) as e:
        err = e
    c.I.visited = d.I.visited
    c.I.visited_lines = d.I.visited_lines
    seen = set()
    for e in d.I.events:
        if e.kind in ("cut", "rule") and e.data[2] and (e.loc, e.data[0]) not in seen and touches(d.I, e.data[1]):
            seen.add((e.loc, e.data[0]))
            lab = f"{o.name}: derivatives pass from inputs to results"
            c.res.append(oblig.Result("violated" if e.kind == "cut" else "undecided", lab, f"{e.data[0]} in {' > '.join(e.data[2])}", got=e.data[0], want="differentiable operations", loc=e.loc))
    if seen:
        return
    if isinstance(err, oblig.Vanished):
        raise err
    if isinstance(err, Unsupported):
        c.undecided(o.name, f"outside the abstract semantics: {err}")
        return
    n = sum(r.status == "holds" for r in d.res)
    for r in d.res:
        if r.status == "undecided":
            c.undecided(r.label, r.why)
    if n:
        c.add("holds", f"{o.name}: derivatives pass from inputs to results", f"{n} results", cases=n)


for _o in list(oblig.REG):
    if _o.tier == "quick" and _o.pid in VALUE:
        oblig.REG.append(oblig.Ob("C32", f"{_o.pid} {_o.name}", (lambda c, o=_o: again(c, o)), _o.anchors, "thorough" if (_o.pid, _o.name) in HEAVY else "quick", _o.timeout))
