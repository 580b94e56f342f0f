#!/bin/bash
# seedtest.sh ID [PROP...]: confirms the planted bug /verif/seeded/ID in a scratch copy of /repo, then runs the checks of PROP
# (default: its own property) against it.
id=$1; shift
S=/verif/seeded/$id
W=$(mktemp -d /tmp/plant.XXXXXX)
trap 'chmod -R u+w "$W"; rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
cp -a $S "$W/seed"; rm -f "$W"/seed/*.diff "$W"/seed/meta.json
sed "s#/repo#$W/repo#g; s#CCACHE_DIR=/opt/fisx/ccache#CCACHE_DIR=/tmp/ccache2#" /opt/vp/build.sh > "$W/build.sh"
sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#" /opt/vp/test.sh > "$W/test.sh"
cd "$W/repo"
if [ -z "$NOCLEAN" ]; then
bash "$W/build.sh" >/dev/null 2>&1 || { echo "BUILD FAILS CLEAN"; exit 2; }
timeout 300 bash "$W/seed/demo.sh" >"$W/demo0.log" 2>&1 || { echo "DEMO FAILS ON CLEAN"; tail -5 "$W/demo0.log"; exit 2; }
fi
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 2; }
git diff --stat | tail -1
bash "$W/test.sh" "$W/out.json" >"$W/t.log" 2>&1
python3 - "$W/out.json" <<'P' || { echo "TESTS FAIL"; exit 2; }
import json,sys
a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); b=set(json.load(open(sys.argv[1]))['passed'])
print("missing", sorted(a-b)) if a-b else None
sys.exit(1 if a-b else 0)
P
if timeout 300 bash "$W/seed/demo.sh" >"$W/demo1.log" 2>&1; then echo "DEMO PASSES WITH BUG"; tail -3 "$W/demo1.log"; exit 2; fi
echo "demo: $(tail -1 "$W/demo1.log" | cut -c1-200)"
cd /verif
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for p in "$@"; do [ -f vfx/checks/$(echo $p | tr C c).py ] && VFX_REPO="$W/repo" ./check.py $p 2>&1 | tail -2 | cut -c1-300; done
