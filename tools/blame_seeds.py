#!/usr/bin/env python3
"""which planted changes touch only lines that later commits in /repo added"""
import os, re, subprocess, sys
R = "/repo"
root = subprocess.check_output(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], text=True).split()
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
base = subprocess.check_output(["git", "-C", R, "log", "--format=%H %s"], text=True).splitlines()
mine = {l.split()[0] for l in base if l.split(" ", 1)[1].startswith(("fix:", "hook:"))}
for d in sorted(os.listdir(S)):
    f, n, own, orig = None, 0, 0, 0
    for l in open(os.path.join(S, d, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif m := re.match(r"@@ -(\d+)", l):
            n = int(m[1])
        elif l.startswith("-") and not l.startswith("---"):
            h = subprocess.check_output(["git", "-C", R, "blame", "-l", "-s", "-L", f"{n},{n}", "HEAD", "--", f], text=True).split()[0].lstrip("^")
            if any(x.startswith(h[:12]) for x in mine):
                own += 1
            else:
                orig += 1
            n += 1
        elif l.startswith(" "):
            n += 1
    if own or not orig:
        print(d, "own", own, "orig", orig)
