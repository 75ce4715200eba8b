# mkseed.py: helper for writing seeded/<id>/ from (file, old, new) edits and a Go demonstration test.
import os, subprocess, json
ROOT = "/verif/seeded"
DEMO = '''#!/bin/bash
# runs demo.go.txt as an extra test file of %(pkg)s (through an overlay); fails when the planted change is present
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$d/demo.go.txt" "$t/demo_test.go"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$t" > "$t/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def seed(id, prop, edits, pkg, demo, needs, breaks):
    d = os.path.join(ROOT, id); os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git","-C","/repo","status","--porcelain"]), "dirty"
    root = subprocess.check_output(["git","-C","/repo","rev-list","--max-parents=0","HEAD"], text=True).strip()
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p).read(); assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        import re
        diff = subprocess.check_output(["git","-C","/repo","diff","-U0"], text=True)
        f = None; ok = False
        for l in diff.splitlines():
            m = re.match(r"--- a/(.*)", l)
            if m: bl = subprocess.check_output(["git","-C","/repo","blame","-s","-l","HEAD","--",m[1]], text=True).splitlines()
            m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
            if m:
                a, n = int(m[1]), int(m[2] or 1)
                own = [x for x in bl[a-1:a-1+n] if not x.lstrip("^").startswith(root[:38])]
                if own: print(id, "touches own lines:", own)
                if n: ok = True
        if not ok: print(id, "removes/changes no original line")
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git","-C","/repo","diff"], text=True))
    finally:
        subprocess.check_call(["git","-C","/repo","checkout","-q","--","."])
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=pkg)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.go.txt", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
