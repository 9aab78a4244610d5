#!/bin/bash
# usage: tools/try_bug.sh [-n] DIR [property...]    development aid, not part of any check
# Confirms a planted bug in a private mount namespace (a patched copy of /repo is shown as /repo):
# the patch applies, builds and passes the stable tests (-n: skip), the demo tells both trees apart, and which checks see it.
NOTEST=; [ "$1" = -n ] && { NOTEST=1; shift; }
D=$(realpath "$1"); shift
P=$(python3 -c "import json,sys; print(json.load(open('$D/meta.json'))['property'])")
W=$(mktemp -d /tmp/bug_XXXXXX); cp -a /repo "$W/repo"
git -C "$W/repo" apply "$D/patch.diff" || { echo "$D: does not apply"; rm -rf "$W"; exit 1; }
mkdir "$W/x"; cp -a "$D/." "$W/x/"; rm -f "$W"/x/*.diff "$W"/x/meta.json; mkdir "$W/ev"
( cd /repo && timeout 300 bash "$W/x/demo.sh" > "$W/clean.log" 2>&1 ); c=$?
run() { unshare -Urm bash -c "mount --bind $W/repo /repo; mount --bind $W/ev /verif/evidence; cd $1; shift; $2"; }
run /repo "timeout 300 bash $W/x/demo.sh > $W/patched.log 2>&1"; p=$?
echo "$(basename "$D") ($P): demo clean=$c patched=$p  [$(tail -1 "$W/patched.log" | cut -c1-150)]"
[ $c != 0 ] && tail -5 "$W/clean.log"
if [ -z "$NOTEST" ]; then
    run /repo "bash /opt/vp/build.sh > $W/b.log 2>&1 && bash /opt/vp/test.sh $W/out.json > $W/t.log 2>&1"
    python3 - "$W/out.json" <<'PY'
import json, sys
try:
    got = set(json.load(open(sys.argv[1]))['passed']); want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    print('   stable tests:', 'all pass' if want <= got else f'BROKEN {sorted(want - got)}')
except OSError as e:
    print('   stable tests: no result', e)
PY
fi
for q in ${*:-$P}; do
    run /verif "/opt/venv/bin/python -B -m fxv $q > $W/c.log 2>&1"; r=$?
    echo "   check $q: exit $r  $(grep -m1 VIOLATION "$W/c.log" | cut -c1-60) $(grep -c VIOLATION "$W/c.log") $(tail -1 "$W/c.log" | cut -c1-200)"
done
rm -rf "$W"
