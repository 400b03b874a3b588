#!/bin/bash
# bash tools/bug.sh ID [notest]: confirms a planted bug in private copies of /repo and /verif
# (mount namespace), and runs the checks of its property against it.
ID=$1; W=/tmp/bug_$ID; rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"; mkdir "$W/verif"
(cd /verif; cp -a $(ls -A | grep -v '^\.git$') "$W/verif/"); cp -a /verif/seeded/$ID "$W/demo"
export ID W NOTEST=$2
unshare -Urm bash <<'X'
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount -t tmpfs none /opt/vp/reports
cd /repo
P=$(python3 -c "import json;print(json.load(open('$W/demo/meta.json'))['property'])")
timeout 300 bash $W/demo/demo.sh >$W/demo_clean.log 2>&1; a=$?
git apply $W/demo/patch.diff || echo "PATCH FAILS"
bash /opt/vp/build.sh >$W/build.log 2>&1; b=$?
timeout 300 bash $W/demo/demo.sh >$W/demo_bug.log 2>&1; c=$?
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$W/t.json'))
print(sorted(set(b['stable'])-set(t['passed']))[:5])")
fi
cd /verif
timeout 900 ./check $P quick >$W/check.log 2>&1; k=$?
echo "$ID property=$P demo_clean=$a build=$b demo_bug=$c tests_lost=$t check=$k $(grep VIOLATION $W/check.log | head -1)"
X
cp "$W"/*.log /tmp/buglogs/ 2>/dev/null
mkdir -p /tmp/buglogs/$ID; cp "$W"/*.log /tmp/buglogs/$ID/; rm -rf "/tmp/bug_$ID"
