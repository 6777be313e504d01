#!/bin/bash
# tools/selftest.sh [PROP...]: the same seeds must give the same digests for other job counts and hash seeds, and when repeated
cd "$(dirname "$0")/.." || exit 2
rc=0
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18}; do
  a=$(python3 check.py --digests $p --runs 24 --jobs 8 2>/dev/null | md5sum)
  b=$(python3 check.py --digests $p --runs 24 --jobs 3 2>/dev/null | md5sum)
  c=$(SIM_HASHSEED=77 python3 check.py --digests $p --runs 24 --jobs 8 2>/dev/null | md5sum)
  if [ "$a" = "$b" ] && [ "$a" = "$c" ]; then echo "$p ok"; else echo "$p DIFFERS"; rc=1; fi
done
exit $rc
