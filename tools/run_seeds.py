#!/usr/bin/env python3
"""run_seeds.py [ID...]: apply each planted change to a scratch copy of /repo, run its property's check, print a table"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")


def one(i):
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed")
    try:
        shutil.copytree("/repo", w + "/r", ignore=shutil.ignore_patterns(".venv", "node_modules"), symlinks=True)
        r = subprocess.run(["git", "-C", w + "/r", "apply", os.path.join(S, i, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return i, meta["property"], "does not apply", ""
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), meta["property"], "--repo", w + "/r", "--no-evidence", "--jobs", "4"], capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.strip().startswith("violated:")]
        name = v[0].strip()[len("violated:"):].split(":")[0].strip() if v else ""
        return i, meta["property"], "caught" if r.returncode == 1 else f"MISSED rc={r.returncode}", name
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(S))
    with ThreadPoolExecutor(3) as ex:
        for i, p, v, n in ex.map(one, ids):
            print(f"{i:24} {p} {v:10} {n}", flush=True)
