"""Writes MANIFEST.json from specs/meta.py (kept as a script so that the table is easy to review)."""
import json
from specs.meta import META, NA

NOTE = {}
checks = []
for pid, m in sorted(META.items()):
    checks.append(dict(
        property=pid,
        quick_cmd=f"python3-vt check.py {pid} --tier quick",
        thorough_cmd=f"python3-vt check.py {pid} --tier thorough",
        technique=m["technique"],
        level="other",
        level_note=m.get("note") or (m["how"] + " Decides for all input values at the listed shapes, in real arithmetic; trusts the abstract models of the jax routines listed in the evidence." + (" Bounds: " + "; ".join(m["assume"]) + "." if m["assume"] else "")),
    ))
M = dict(version=1, setup_cmd="python3-vt -m compileall -q magstat specs check.py", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
         notes="Static analysis only: every check parses /repo/magpi on each run and decides on value graphs or effect facts derived from the syntax tree; the package is never imported. No hooks in /repo.")
json.dump(M, open("MANIFEST.json", "w"), indent=1)
