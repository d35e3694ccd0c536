#!/usr/bin/env python3-vt
"""check.py PID [--tier quick|thorough] [--jobs N]

Decides one property from the current source text of /repo/magpi.  No code of the repository is imported or run.
exit 0: every decided obligation holds; exit 1: VIOLATION line(s); exit 2: nothing could be decided.
"""
import argparse
import ast
import collections
import functools
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from magstat import oblig  # noqa: E402
import specs  # noqa: E402,F401
from specs.meta import META, COMMON_TRUST  # noqa: E402

DEADLINE = {"quick": 700.0, "thorough": 6000.0}


def definition_sites(repo):
    """qualified name -> file:line of every module, class and function of the package"""
    out = {}
    base = os.path.join(repo, "magpi")
    for d, _, files in os.walk(base):
        for f in files:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, repo)
            mod = rel[:-3].replace(os.sep, ".")
            mod = mod[: -len(".__init__")] if mod.endswith(".__init__") else mod
            out[mod] = f"{rel}:1"
            try:
                tree = ast.parse(open(p, encoding="utf8").read())
            except SyntaxError as e:
                out[mod] = f"{rel}:{e.lineno}"
                continue

            def walk(n, q):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        out[f"{q}.{c.name}"] = f"{rel}:{c.lineno}"
                        walk(c, f"{q}.{c.name}")
                    elif isinstance(c, (ast.If, ast.Try, ast.With)):
                        walk(c, q)

            walk(tree, mod)
    return out


def work(k, repo, scale):
    o = oblig.REG[k]
    c, t = oblig.run(o, repo, scale)
    res = [
        dict(
            obligation=o.name, label=r.label, status=r.status, why=str(r.why)[:400], witness=_s(r.witness, 400), got=_s(r.got, 600),
            want=_s(r.want, 600), loc=r.loc, cases=r.cases or 1,
        )
        for r in c.res
    ]
    return k, t, res, {f"{m}.{q}": n for (m, q), n in c.I.visited.items()}, len(c.I.visited_lines), getattr(c, "vanished", None)


def _s(x, n):
    return None if x is None else str(x)[:n]


def load_findings():
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p, encoding="utf8"):
            line = line.strip()
            if line.startswith("known:"):
                d = json.loads(line[len("known:"):])
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 2))
    ap.add_argument("--repo", default=os.environ.get("MAGPI_REPO", "/repo"))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sites = definition_sites(a.repo)
    tiers = ("quick",) if a.tier == "quick" else ("quick", "thorough")
    todo = [k for k, o in enumerate(oblig.REG) if o.pid == a.pid and o.tier in tiers]
    if not todo:
        print(f"no obligations for {a.pid}")
        return 2
    todo.sort(key=lambda k: -oblig.REG[k].timeout)
    done = {}
    scale = 3.0
    ctx = mp.get_context("fork")
    pool = ctx.Pool(max(1, min(a.jobs, len(todo))))
    it = pool.imap_unordered(functools.partial(work, repo=a.repo, scale=scale), todo)
    try:
        while len(done) < len(todo):
            r = it.next(timeout=max(1.0, DEADLINE[a.tier] - (time.time() - t0)))
            done[r[0]] = r
    except mp.TimeoutError:
        pass
    pool.terminate()
    for k in todo:
        if k not in done:
            done[k] = (k, DEADLINE[a.tier], [dict(obligation=oblig.REG[k].name, label="evaluation", status="undecided", why="overall time limit", witness=None, got=None, want=None, loc=None, cases=1)], {}, 0, None)

    cnt = collections.Counter()
    visited = collections.Counter()
    nlines = 0
    perob = []
    viol, und = [], []
    for k in sorted(done):
        _, t, res, vis, ln, _ = done[k]
        o = oblig.REG[k]
        c = collections.Counter(r["status"] for r in res)
        cnt.update(c)
        visited.update(vis)
        nlines = max(nlines, ln)
        perob.append(dict(obligation=o.name, anchors=o.anchors, seconds=round(t, 2), **{s: c.get(s, 0) for s in ("holds", "violated", "undecided")}))
        for r in res:
            r["anchors"] = {q: sites.get(q, "not defined") for q in o.anchors}
            r["path"] = [f"{q} ({sites[q]})" for q in vis if q in sites]
            if r["status"] == "violated":
                viol.append(r)
            elif r["status"] == "undecided":
                und.append(r)

    known = [d for d in load_findings() if d["property"] == a.pid]
    new, old = [], []
    for r in viol:
        hit = next((d for d in known if d["obligation"] == r["obligation"] and d["label"] == r["label"] and d["witness"] in (r["got"] or "") + (r["why"] or "")), None)
        (old if hit else new).append(r)
    for r in old:
        print(f"KNOWN-FINDING: property={a.pid} {r['obligation']}: {r['label']}: {r['why']}")

    decided = cnt["holds"] + cnt["violated"]
    lines = sorted({f"{q} {sites[q]}" for q in visited if q in sites})
    samples = []
    for k in sorted(done):
        for r in done[k][2]:
            if r["status"] == "holds" and r["got"] and len(samples) < 6 and (not samples or samples[-1]["obligation"] != r["obligation"]):
                samples.append({x: r[x] for x in ("obligation", "label", "status", "why", "got", "want")})
    m = META.get(a.pid, {})
    ev = dict(
        property=a.pid, tier=a.tier, seed=seed, level="other",
        coverage=dict(
            explanation=m.get("how", "") + " Every obligation is an identity (or a sign, order, reachability or effect fact) over symbolic inputs, decided on the value graph derived from the current syntax tree by abstract interpretation; nothing of the repository is executed.",
            rule=m.get("rule", ""),
            obligations=cnt["holds"] + cnt["violated"] + cnt["undecided"], discharged=cnt["holds"],
            violated=cnt["violated"], undecided=cnt["undecided"],
            case_splits=sum(r["cases"] for k in done for r in done[k][2]),
            functions_analysed=len(lines), functions=lines, function_activations=sum(visited.values()),
            per_obligation=perob, samples=samples,
            undecided_list=[{x: r[x] for x in ("obligation", "label", "why", "loc")} for r in und[:40]],
            trusted_base=COMMON_TRUST,
        ),
        assumptions=m.get("assume", []), wall_s=round(time.time() - t0, 2), violations=len(new),
    )
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{a.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print(f"{a.pid} {a.tier}: {cnt['holds']} hold, {cnt['violated']} violated, {cnt['undecided']} undecided in {len(done)} obligations; {len(lines)} functions analysed; {time.time()-t0:.1f}s")
    for r in und[:8]:
        print(f"  undecided: {r['obligation']}: {r['label']}: {r['why'][:200]} {r['loc'] or ''}")
    rc = 0
    if new:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", f"{a.pid}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=a.pid, violations=new[:50], total=len(new), rerun=f"python3-vt check.py {a.pid} --tier {a.tier}"), fh, indent=1)
        for r in new[:6]:
            at = r["loc"] or "; ".join(f"{v} in {q}" for q, v in r["anchors"].items())
            print(f"  violated: {r['obligation']}: {r['label']}: {r['why'][:240]} at {at}")
            if r["got"] is not None:
                print(f"     source computes {r['got'][:240]}")
                print(f"     required         {str(r['want'])[:240]}")
                if r["witness"]:
                    print(f"     they differ at   {r['witness'][:240]}")
        print(f"VIOLATION property={a.pid} replay={path}")
        rc = 1
    elif not decided:
        print(f"{a.pid}: nothing decided")
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
