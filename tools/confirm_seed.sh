#!/bin/bash
# confirm_seed.sh <seeded dir>: in a scratch copy of /repo (bind-mounted over /repo in a private mount namespace),
# the demo passes on the unchanged tree; with the patch the tree builds, the stable tests pass and the demo fails.
D=$(realpath "$1"); T=$(mktemp -d /tmp/cseed.XXXXXX)
cp -a /repo/. "$T/" && mkdir -p "$T.demo" && cp "$D"/* "$T.demo/" && rm -f "$T.demo"/patch.diff "$T.demo"/meta.json
unshare -m bash -c '
T=$1; D=$2
mount --bind "$T" /repo || exit 9
cd /repo && git checkout -q -- . && bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "base build failed"; exit 1; }
(cd /repo && timeout 300 bash "$T.demo/demo.sh") >"$T.demo/out0" 2>&1; a=$?
git apply --check "$D/patch.diff" && git apply "$D/patch.diff" || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >"$T.demo/build" 2>&1 || { echo "build failed"; tail -5 "$T.demo/build"; exit 1; }
bash /opt/vp/test.sh "$T.demo/o.json" >/dev/null 2>&1
m=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; o=json.load(open(\"$T.demo/o.json\"))[\"passed\"]
print(sorted(set(b)-set(o)))")
(cd /repo && timeout 300 bash "$T.demo/demo.sh") >"$T.demo/out1" 2>&1; b=$?
echo "$(basename $D): demo unchanged=$a patched=$b missing tests=$m"
tail -2 "$T.demo/out0"; tail -2 "$T.demo/out1"
[ $a = 0 ] && [ $b != 0 ] && [ "$m" = "[]" ] && echo CONFIRMED || echo NOT-CONFIRMED
' _ "$T" "$D"
rm -rf "$T" "$T.demo"
