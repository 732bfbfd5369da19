#!/bin/sh
# trybug.sh BUG CHECK...: run checks against a scratch copy with a planted bug
id=$1; shift
d=$(mktemp -d /tmp/trybug.XXXXXX)
cp -a /repo "$d/repo"
(cd "$d/repo" && git apply "/verif/seeded/$id/patch.diff") || exit 2
for c in "$@"; do
    DST_REPO="$d/repo" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python \
        /verif/dst/main.py "$c" --no-min 2>&1 | grep -v Warning | tail -4
done
rm -rf "$d"
