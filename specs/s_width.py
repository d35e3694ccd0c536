"""C33: no routine falls back to a fixed lower precision.

Every place where the evaluated code names a floating point type of less than 64 bits or an integer type of less than 32
bits (as the type of a work array, a cast, a constant, or the source of a tolerance) is recorded during the evaluation of
the other obligations."""
from .common import *
from magstat import oblig
from .s_trace import HEAVY

SKIP = {"C25", "C26", "C27", "C34", "C31", "C32"}


def again(c, o):
    d = oblig.Ctx(c.repo, o)
    err = None
    try:
        o.fn(d)
    except (InterpRaise, Unsupported, oblig.Vanished, oblig.Skip) as e:
        err = e
    c.I.visited = d.I.visited
    c.I.visited_lines = d.I.visited_lines
    seen = {}
    for e in d.I.events:
        if e.kind == "narrow" and e.data[1]:
            seen.setdefault((e.loc, e.data[0]), e.data[1])
    for (loc, name), path in seen.items():
        c.res.append(oblig.Result("violated", f"{o.name}: the precision is that of the inputs", f"{name} in {' > '.join(path)}", got=name, want="the type of the inputs or the default type", loc=loc))
    if seen:
        return
    if isinstance(err, oblig.Vanished):
        raise err
    if isinstance(err, Unsupported):
        c.undecided(o.name, f"outside the abstract semantics: {err}")
        return
    c.add("holds", f"{o.name}: the precision is that of the inputs", "no fixed narrow type")


for _o in list(oblig.REG):
    if _o.tier == "quick" and _o.pid not in SKIP:
        oblig.REG.append(oblig.Ob("C33", f"{_o.pid} {_o.name}", (lambda c, o=_o: again(c, o)), _o.anchors, "thorough" if (_o.pid, _o.name) in HEAVY else "quick", _o.timeout))
