#!/bin/bash
# Digests of runs must not depend on the number of workers or the hash seed.
cd "$(dirname "$0")/.."
n=${1:-64}
rc=0
for c in ${2:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}; do
    a=$(/opt/venv/bin/python dst/main.py $c --digests $n --jobs 8 | sha256sum)
    b=$(DST_HASHSEED=77 /opt/venv/bin/python dst/main.py $c --digests $n --jobs 3 | sha256sum)
    if [ "$a" = "$b" ]; then echo "$c deterministic"; else echo "$c DIFFERS"; rc=1; fi
done
exit $rc
