"""rf.py EDITS.py [ID...]: apply behaviour-preserving edits (each on its own) to a copy of /repo and run the checks of the
properties concerned; a violated obligation is a false alarm, an undecided one a loss of reach."""
import os, sys, shutil, subprocess, re, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = {
    "calc": "C01 C02 C03", "integrate": "C04 C05", "surface_integral": "C06 C07", "ode": "C08", "domain": "C09 C10 C11",
    "quaternions": "C12 C13 C16", "r_fun": "C14 C15 C16", "model": "C17 C18", "spline": "C18 C19", "tr": "C20 C21", "utils": "C21 C22",
    "sampling": "C23", "opt": "C24", "prelude": "C01 C16 C21 C23",
}


def one(e):
    ident, mod, pairs = e[:3]
    pids = (e[3] if len(e) > 3 else BY[mod]).split() + ["C25", "C26", "C27", "C31"]
    d = tempfile.mkdtemp(prefix="rf_", dir="/tmp")
    try:
        shutil.copytree("/repo/magpi", d + "/magpi", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree("/repo/test", d + "/test", ignore=shutil.ignore_patterns("__pycache__"))
        for f in ("pyproject.toml", "README.md"):
            if os.path.exists("/repo/" + f):
                shutil.copy("/repo/" + f, d)
        p = f"{d}/magpi/{mod}.py"
        s = open(p).read()
        for old, new in pairs:
            if s.count(old) < 1:
                return f"{ident}: PATTERN NOT FOUND {old[:50]!r}"
            s = s.replace(old, new)
        open(p, "w").write(s)
        out = []
        if "--test" in sys.argv:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "test"], cwd=d, capture_output=True, text=True, env={**os.environ, "JAX_PLATFORMS": "cpu", "PYTHONPATH": d})
            out.append("tests[" + r.stdout.strip().splitlines()[-1] + "]")
        for pid in pids:
            r = subprocess.run(["python3-vt", HERE + "/check.py", pid, "--repo", d, "--no-evidence", "--jobs", "2"], capture_output=True, text=True)
            m = re.search(r"(\d+) hold, (\d+) violated, (\d+) undecided", r.stdout)
            if not m or m[2] != "0" or r.returncode:
                out.append(f"{pid} ALARM rc={r.returncode}\n" + "\n".join(l[:230] for l in (r.stdout + r.stderr).splitlines()[:6]))
            elif m[3] != "0":
                out.append(f"{pid} undecided {m[3]} (hold {m[1]})\n" + "\n".join(l[:200] for l in r.stdout.splitlines() if "undecided:" in l)[:500])
        return f"{ident}: " + ("; ".join(out) if out else "quiet, all decided")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    E = runpy.run_path(a[0])["E"]
    E = [e for e in E if len(a) == 1 or e[0] in a[1:]]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, E):
            print(r, flush=True)


main()
