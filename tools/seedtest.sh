#!/bin/bash
# seedtest.sh ID [check ...]: validates one planted bug of seeded/ID in a scratch copy that is mounted over /repo in a private mount
# namespace (the real /repo is not touched): patch applies, builds, stable tests pass, demo fails; then runs the checks.
V=$(dirname "$(dirname "$(realpath "$0")")"); ID=$1; shift
S=$V/seeded/$ID; W=$(mktemp -d /tmp/seed-XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W/demo"/*.diff "$W/demo/meta.json"
git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID: DOES NOT APPLY"; exit 2; }
unshare -m bash -c '
mount --bind "$1/repo" /repo
cd /repo
bash /opt/vp/build.sh > "$1/build.log" 2>&1 || { echo "$2: DOES NOT BUILD"; tail -5 "$1/build.log"; exit 2; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh "$1/out.json" > "$1/test.log" 2>&1
python3 - "$1/out.json" "$2" <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open(sys.argv[1]))
stable=b.get("stable") or b.get("passed") or b
ok=set(r.get("passed",[]))
miss=[t for t in stable if t not in ok]
print(sys.argv[2], "stable tests:", len(stable)-len(miss), "of", len(stable), "pass", miss[:5])
P
fi
( cd /repo; timeout 300 bash "$1/demo/demo.sh" > "$1/demo.log" 2>&1; echo "$2: demo with the patch exits $?"; tail -2 "$1/demo.log" )
shift; ID=$1; shift
for c in "$@"; do ( cd '"$V"'; ./check $c > "/tmp/seedout.$ID.$c" 2>&1; echo "$ID: check $c exits $?"; grep -m1 "^VIOLATION" "/tmp/seedout.$ID.$c" ); done
' _ "$W" "$ID" "$@"
( cd /repo; timeout 300 bash "$W/demo/demo.sh" > "$W/demo.log" 2>&1; echo "$ID: demo on the unchanged tree exits $?" )
