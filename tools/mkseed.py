"""Developer tool: python3-vt tools/mkseed.py SEEDS.py [ID ...]

SEEDS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].  For each: apply to a scratch
copy, write seeded/<id>/, check demo on clean and patched copy, run the test-suite on the patched copy and the check.
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
SH = """#!/bin/bash
# run with cwd = root of the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def copy():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r)
    return d, r


def suite(r):
    # same invocation as /opt/vp/test.sh, in the copy
    d = tempfile.mkdtemp(prefix="seedt_", dir="/tmp")
    out = os.path.join(d, "j.xml")
    env = dict(ENV, PYTHONPATH=r)
    p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "--continue-on-collection-errors"], cwd=r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(d)
    return p.stdout.strip().splitlines()[-1], [l for l in p.stdout.splitlines() if l.startswith("FAILED")]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    for s in ns["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        d, r = copy()
        try:
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT does not match uniquely", f, t.count(old))
                    ok = False
                open(p, "w").write(t.replace(old, new))
            if not ok:
                continue
            diff = sh(["git", "diff"], r).stdout
            sd = os.path.join(HERE, "seeded", s["id"])
            os.makedirs(sd, exist_ok=True)
            open(os.path.join(sd, "patch.diff"), "w").write(diff)
            open(os.path.join(sd, "demo.sh"), "w").write(SH)
            os.chmod(os.path.join(sd, "demo.sh"), 0o755)
            open(os.path.join(sd, "demo.py"), "w").write(s["demo"])
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(sd, "meta.json"), "w"), indent=1)
            a = sh(["bash", os.path.join(sd, "demo.sh")], "/repo")
            b = sh(["bash", os.path.join(sd, "demo.sh")], r)
            last, failed = suite(r)
            c = sh(["python3-vt", os.path.join(HERE, "check.py"), s["prop"], "--repo", r, "--no-evidence"], HERE, 900)
            tail = [l for l in c.stdout.splitlines() if "violated:" in l or "undecided" in l][:4]
            good = a.returncode == 0 and b.returncode != 0 and not failed
            print(f"{s['id']:28s} {s['prop']} demo {a.returncode}/{b.returncode} tests[{last.strip('= ')}] {'OK' if good else 'BAD'}  check rc={c.returncode} {'CAUGHT' if c.returncode==1 else 'MISSED'}")
            if a.returncode:
                print("   clean demo:", a.stdout[-400:])
            for l in failed[:4]:
                print("   ", l[:200])
            for l in tail:
                print("   ", l[:220])
        finally:
            shutil.rmtree(d)


main()
