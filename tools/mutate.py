"""Developer tool: python3-vt tools/mutate.py OUT.jsonl [file.py ...] [--every K] [--offset J]

Systematic mutants of /repo/magpi (operators, comparisons, constants, arguments, names, statements, branches).  For each one
the obligations that evaluate the mutated line are run, cheapest first, until one reports a violation; the surviving mutants
are then run against the repository's tests.  OUT.jsonl: one record per mutant.
"""
import ast, copy, json, multiprocessing as mp, os, pickle, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from magstat import oblig  # noqa: E402
import specs  # noqa: E402,F401

REPO = "/repo"
MAXT = 45.0


def base_one(k):
    c, t = oblig.run(oblig.REG[k], REPO, 3.0)
    return k, t, set(c.I.visited_lines), [(r.label, r.status) for r in c.res if r.status != "holds"]


def baseline(path):
    ks = [k for k, o in enumerate(oblig.REG) if o.tier == "quick" and o.pid != "C31"]
    names = {k: (oblig.REG[k].pid, oblig.REG[k].name) for k in ks}
    if os.path.exists(path):
        old = pickle.load(open(path, "rb"))
        if set(old) == set(names.values()):
            return {k: old[names[k]] for k in ks}
    with mp.get_context("fork").Pool(8) as p:
        out = {r[0]: r[1:] for r in p.imap_unordered(base_one, ks)}
    pickle.dump({names[k]: v for k, v in out.items()}, open(path, "wb"))
    return out


BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult], ast.Pow: [ast.Mult], ast.MatMult: [], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
NAMES = dict(sin="cos", cos="sin", sum="mean", prod="sum", argmax="argmin", minimum="maximum", maximum="minimum", cumsum="cumprod", zeros="ones", ones="zeros", zeros_like="ones_like", ones_like="zeros_like", jacfwd="grad", stack="concatenate", sqrt="square", floor="ceil", exp="expm1", log="log1p", norm="sum", any="all", all="any", isclose="less", abs="square", vstack="hstack", hstack="vstack", dot="multiply", cross="multiply", split="array_split", tanh="sin")


def variants(n):
    """replacement nodes of one node"""
    if isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op), []):
            m = copy.deepcopy(n); m.op = o(); yield m
        if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult, ast.Pow)):
            m = copy.deepcopy(n); m.left, m.right = m.right, m.left; yield m
        yield n.left
        yield n.right
    elif isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            m = copy.deepcopy(n); m.ops = [o()]; yield m
    elif isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield m
        for v in n.values:
            yield v
    elif isinstance(n, ast.UnaryOp):
        yield n.operand
    elif isinstance(n, ast.Constant):
        v = n.value
        if v is True or v is False:
            yield ast.Constant(not v)
        elif isinstance(v, (int, float)):
            for w in ({0: [1], 1: [0, 2], -1: [0, 1]}.get(v, [v + 1, v - 1, v / 2] if isinstance(v, int) and v < 1000 else [v * 1.1, v / 2, v * 10])):
                yield ast.Constant(w)
    elif isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr in NAMES:
            m = copy.deepcopy(n); m.func.attr = NAMES[n.func.attr]; yield m
        elif isinstance(n.func, ast.Name) and n.func.id in NAMES:
            m = copy.deepcopy(n); m.func.id = NAMES[n.func.id]; yield m
        if len(n.args) >= 2 and getattr(n.func, "id", "") not in ("tree_add", "maximum", "minimum") and not any(isinstance(a, ast.Starred) for a in n.args):
            for i in range(len(n.args) - 1):
                m = copy.deepcopy(n); m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]; yield m
        for i, a in enumerate(n.args):
            if len(n.args) > 1 or isinstance(a, ast.Starred):
                m = copy.deepcopy(n); del m.args[i]; yield m
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n); del m.keywords[i]; yield m
        if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            yield n.args[0]
    elif isinstance(n, ast.Subscript):
        yield n.value
    elif isinstance(n, ast.IfExp):
        yield n.body
        yield n.orelse
    elif isinstance(n, ast.Attribute) and n.attr == "T":
        yield n.value
    elif isinstance(n, ast.Tuple) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
        for i in range(len(n.elts) - 1):
            m = copy.deepcopy(n); m.elts[i], m.elts[i + 1] = m.elts[i + 1], m.elts[i]; yield m


def stmt_variants(s):
    if isinstance(s, ast.If):
        yield ast.If(ast.Constant(True), s.body, s.orelse)
        yield ast.If(ast.Constant(False), s.body, s.orelse)
    elif isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert, ast.Raise)):
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            yield ast.Pass()


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()
    tree = ast.parse(src)
    fns = []

    def walk(n, infn, st):
        for name, val in ast.iter_fields(n):
            for c in val if isinstance(val, list) else [val]:
                if not isinstance(c, ast.AST):
                    continue
                if name in ("annotation", "returns", "exc", "msg") or name == "value" and isinstance(n, ast.AnnAssign) and n.target.id[0].isupper():
                    continue
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    continue
                inner = infn or isinstance(c, (ast.FunctionDef, ast.Lambda))
                line = c.lineno if isinstance(c, ast.stmt) else st
                if isinstance(c, ast.expr) and not isinstance(n, ast.Expr):
                    fns.append((c, False, line))
                elif isinstance(c, ast.stmt) and infn:
                    fns.append((c, True, line))
                walk(c, inner, line)

    walk(tree, False, 1)
    seen = set()
    for n, st, line in fns:
        a, b = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
        old = raw[a:b].decode()
        for m in stmt_variants(n) if st else variants(n):
            if st and isinstance(n, ast.If):
                t0, t1 = n.test, m.test
                ta, tb = off[t0.lineno - 1] + t0.col_offset, off[t0.end_lineno - 1] + t0.end_col_offset
                new, aa, bb = str(t1.value), ta, tb
            else:
                try:
                    new = ast.unparse(ast.fix_missing_locations(m))
                except Exception:
                    continue
                if not st and isinstance(m, (ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.IfExp, ast.Lambda, ast.Tuple)):
                    new = "(" + new.strip("()") + ")" if isinstance(m, ast.Tuple) and False else "(" + new + ")"
                aa, bb = a, b
            txt = (raw[:aa] + new.encode() + raw[bb:]).decode()
            if txt in seen or txt == src:
                continue
            try:
                t2 = ast.parse(txt)
            except SyntaxError:
                continue
            if ast.dump(t2) == ast.dump(tree):
                continue
            seen.add(txt)
            yield line, n.end_lineno, raw[aa:bb].decode(), new, txt


BASE = {}
TESTS = {f + ".py": f"test_{f}.py" for f in ("calc", "domain", "integrate", "model", "quaternions", "r_fun", "sampling", "spline", "tr")}


def one(job):
    i, f, l0, l1, old, new, txt = job
    mod = "magpi." + f[:-3]
    names = {mod, mod.removeprefix("magpi."), f[:-3]}
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp/mut")
    r = os.path.join(d, "repo")
    try:
        os.makedirs(r)
        shutil.copytree(os.path.join(REPO, "magpi"), os.path.join(r, "magpi"))
        open(os.path.join(r, "magpi", f), "w").write(txt)
        obs = [(t, k) for k, (t, vl, _) in BASE.items() if any((m, l) in vl for m in names for l in range(l0, l1 + 1)) or oblig.REG[k].pid in ("C25", "C26", "C27") and t < 5]
        obs.sort()
        res, und, spent = None, [], 0
        for t, k in obs:
            if t > MAXT:
                continue
            o = oblig.REG[k]
            b = {x for x in BASE[k][2]}
            try:
                c, dt = oblig.run(o, r, 3.0)
            except Exception as e:
                und.append(f"{o.pid} {o.name}: {e}")
                continue
            spent += dt
            v = [x for x in c.res if x.status == "violated" and (x.label, "violated") not in b]
            if v:
                res = f"{o.pid} {o.name}: {v[0].label}"
                break
            und += [f"{o.pid} {o.name}: {x.label} {x.why}"[:160] for x in c.res if x.status == "undecided" and (x.label, "undecided") not in b][:1]
            if spent > 240:
                und.append("time")
                break
        return dict(i=i, file=f, line=l0, old=old, new=new, nobs=len(obs), caught=res, und=und[:4], spent=round(spent, 1))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tests(txt, f):
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp/mut")
    r = os.path.join(d, "repo")
    try:
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns(".git"))
        open(os.path.join(r, "magpi", f), "w").write(txt)
        env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONPATH=r)
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", *(["test/" + TESTS[f]] if f in TESTS else ["test"])], cwd=r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return "killed timeout"
        return "pass" if p.returncode == 0 else "killed"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BASE
    a = sys.argv[1:]
    every, offset = 1, 0
    if "--every" in a:
        j = a.index("--every"); every = int(a[j + 1]); del a[j:j + 2]
    if "--offset" in a:
        j = a.index("--offset"); offset = int(a[j + 1]); del a[j:j + 2]
    out, files = a[0], a[1:] or sorted(f for f in os.listdir(REPO + "/magpi") if f.endswith(".py"))
    BASE = baseline("/tmp/mut/base.pkl")
    jobs = []
    for f in files:
        for m in mutants(os.path.join(REPO, "magpi", f)):
            jobs.append((len(jobs), f, *m))
    jobs = jobs[offset::every]
    print(len(jobs), "mutants", flush=True)
    t0 = time.time()
    n = surv = 0
    with open(out, "w") as fo, mp.get_context("fork").Pool(int(os.environ.get("MUT_JOBS", "8")), maxtasksperchild=20) as p:
        recs = []
        for r in p.imap_unordered(one, jobs):
            n += 1
            if r["caught"] is None:
                surv += 1
                recs.append(r)
            else:
                fo.write(json.dumps(r) + "\n")
            if n % 50 == 0:
                print(n, "done", surv, "quiet", round(time.time() - t0), flush=True)
        by = {j[0]: j for j in jobs}
        from concurrent.futures import ThreadPoolExecutor

        with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "7"))) as ex:
            for r, t in zip(recs, ex.map(lambda r: tests(by[r["i"]][6], r["file"]), recs)):
                r["tests"] = t
        for r in recs:
            fo.write(json.dumps(r) + "\n")
            fo.flush()
            if r["tests"] == "pass":
                print("SURVIVES", r["file"], r["line"], "|", r["old"][:120].replace("\n", " "), "=>", r["new"][:120].replace("\n", " "), "| und", r["und"][:2], flush=True)


if __name__ == "__main__":
    main()
