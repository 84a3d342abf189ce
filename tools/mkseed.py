#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS BREAKS  <<< 'old\n====\nnew' : writes seeded/ID/patch.diff and meta.json (demo.c, demo.sh beside)"""
import sys, os, json, difflib
sid, prop, f, needs, breaks = sys.argv[1:6]
edits = sys.stdin.read().rstrip("\n").split("\n#####\n")
src = open("/repo/" + f).read()
new = src
for e in edits:
    a, b = e.split("\n====\n") if "\n====\n" in e else (e[:-5], "")
    assert new.count(a) == 1, (new.count(a), a)
    new = new.replace(a, b)
d = os.environ.get("SEEDDIR", "/verif/seeded") + "/" + sid
os.makedirs(d, exist_ok=True)
diff = "".join(difflib.unified_diff(src.splitlines(1), new.splitlines(1), "a/" + f, "b/" + f))
open(d + "/patch.diff", "a" if os.environ.get("APPEND") else "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$w"' EXIT
gcc -g -w -I/repo/SLIP_LU/Include -I/repo/SLIP_LU/Source -I/repo/SuiteSparse_config -I/repo/COLAMD/Include -I/repo/AMD/Include \\
    "$here/demo.c" -o "$w/demo" /repo/SLIP_LU/Lib/libsliplu.a -L/repo/lib -Wl,-rpath,/repo/lib -lcolamd -lamd -lsuitesparseconfig -lmpfr -lgmp -lm || exit 2
cd "$w" && timeout 60 ./demo
""")
    os.chmod(d + "/demo.sh", 0o755)
