"""developer driver: python3-vt run_obs.py C01 [-v]"""
import sys
sys.path.insert(0, "/verif")
from magstat import oblig
import specs
import os
repo = os.environ.get("MAGPI_REPO", "/repo")
pids = [a for a in sys.argv[1:] if a[0] == "C"]
v = "-v" in sys.argv
filt = [a[1:] for a in sys.argv[1:] if a.startswith("=")]
tot = dict(holds=0, violated=0, undecided=0)
for o in oblig.REG:
    if pids and o.pid not in pids:
        continue
    if filt and not any(f in o.name for f in filt):
        continue
    c, t = oblig.run(o, repo)
    n = dict(holds=0, violated=0, undecided=0)
    for r in c.res:
        n[r.status] += 1
        tot[r.status] += 1
    print(f"{o.pid} {o.name}: {n} {t:.2f}s")
    k = 0
    for r in c.res:
        if r.status != "holds" or v:
            k += 1
            if k > 6 and not v:
                break
            print("    ", r.status, r.label, "|", r.why[:300], "|", r.loc or "", "| wit", str(r.witness)[:250])
            if r.status == "violated" or v:
                print("        got ", str(r.got)[:300])
                print("        want", str(r.want)[:300])
print(tot)
