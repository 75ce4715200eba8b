#!/bin/bash
# tryseed.sh ID [full]: check a planted bug: demo on clean tree, patch, build, demo, (full: stable tests), the property's check
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 2; }
tmp=$(mktemp -d); cp "$d"/* "$tmp"/; rm -f "$tmp"/patch.diff "$tmp"/meta.json
trap 'git -C /repo checkout -q -- .; rm -rf "$tmp"' EXIT
(cd /repo && bash "$tmp/demo.sh" >"$tmp/o1" 2>&1); a=$?
git -C /repo apply "$d/patch.diff" || exit 2
bash /opt/vp/build.sh || { echo "$1 does not build"; exit 2; }
(cd /repo && bash "$tmp/demo.sh" >"$tmp/o2" 2>&1); b=$?
echo "$1 [$p] demo clean=$a patched=$b"; [ $a != 0 ] && tail -20 "$tmp/o1"; [ -n "$V" ] && tail -20 "$tmp/o2"
if [ "$2" = full ]; then bash /opt/vp/test.sh "$tmp/t.json" >/dev/null 2>&1; python3 - "$tmp/t.json" <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return set(x[k])
    return set(x)
m=names(b)-names(r); print("  stable tests broken:",len(m),list(m)[:3])
P
fi
cd /verif && timeout 900 bin/check $p quick > "$tmp/c" 2>&1; r=$?
echo "  check exit=$r $(grep -c '^VIOLATION' $tmp/c) violations: $(grep '^VIOLATION' $tmp/c | head -2 | tr '\n' ' ')"
git -C /verif status --short | head -3
