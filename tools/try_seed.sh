#!/bin/bash
# try_seed.sh <seeded dir> [property ...]: run the checks against the change, in a private copy of /repo (mount namespace)
D=$(realpath "$1"); shift; T=$(mktemp -d /tmp/tseed.XXXXXX)
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
cp -a /repo/. "$T/"; mkdir -p "$T.verif"; cp -a /verif/. "$T.verif/"
unshare -m bash -c '
T=$1; D=$2; shift 2
mount --bind "$T" /repo && mount --bind "$T.verif" /verif || exit 9
cd /repo && git checkout -q -- . && git apply "$D/patch.diff" || exit 1
cd /verif
for p in "$@"; do s=$(date +%s); timeout 900 python3-vt check.py $p > "$T.verif/out.$p" 2>&1; r=$?
echo "$(basename $D) vs $p: exit $r ($(( $(date +%s) - s )) s)"; grep -a "^VIOLATION" "$T.verif/out.$p" | head -3; grep -a -i "msg\|what" "$T.verif/out.$p" | cut -c1-160 | head -3; done
' _ "$T" "$D" $P
rm -rf "$T" "$T.verif"
