#!/bin/bash
# developer helper: run every check; all.sh [quick|thorough] [pids...]
cd "$(dirname "$0")"
tier=${1:-quick}; shift
for p in ${@:-$(python3-vt -c "from specs.meta import META; print(*sorted(META))")}; do python3-vt check.py $p --tier $tier 2>&1 | cut -c1-240; done
