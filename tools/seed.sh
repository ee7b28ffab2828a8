#!/bin/bash
# seed.sh ID [demo|test|check|all] - confirms a planted bug in a scratch copy and runs its property's check on it
id=$1; what=${2:-all}
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id; D=/tmp/sd/$id
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
mkdir -p /tmp/sd; rm -rf "/tmp/sd/$id"; cp -a /repo "$D"
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p /tmp/sd/demo-$id; cp "$S"/* /tmp/sd/demo-$id/; rm -f /tmp/sd/demo-$id/*.diff /tmp/sd/demo-$id/meta.json
if [ $what = demo -o $what = all ]; then
  (cd "$D" && timeout 300 bash /tmp/sd/demo-$id/demo.sh >/tmp/sd/$id.demo0 2>&1); echo "$id demo unpatched: $?"
fi
python3 - "$S/patch.diff" "$id" <<'P'
import re,subprocess,sys
f=None;own=0;orig=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m.group(1));continue
    if f and l[:1] in '- ' and not l.startswith('---'):
        if l[0]=='-':
            b=subprocess.run(['git','-C','/repo','blame','-s','-L%d,%d'%(n,n),'HEAD','--',f],capture_output=True,text=True).stdout
            if b.startswith('^'): orig+=1
            else: own+=1
        n+=1
print(sys.argv[2],'removed lines: %d original, %d of fixes'%(orig,own), '' if orig else '  << PURE ADDITION OR OWN LINES')
P
git -C "$D" apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
(cd "$D" && go build ./... >/tmp/sd/$id.build 2>&1) || echo "$id: BUILD FAILS"
if [ $what = demo -o $what = all ]; then
  (cd "$D" && timeout 300 bash /tmp/sd/demo-$id/demo.sh >/tmp/sd/$id.demo1 2>&1); echo "$id demo patched: $? $(grep -a -m1 -E 'panic:|demo_test.go:|FAIL|timed out' /tmp/sd/$id.demo1 | cut -c1-150)"
fi
if [ $what = test -o $what = all ]; then
  exec 9>/tmp/sd/test.lock; flock 9
  sed "s#cd /repo#cd $D#" /opt/vp/env.sh > /tmp/sd/env.sh
  sed "s#/opt/vp/work#/tmp/sd/work#g; s#/opt/vp/env.sh#/tmp/sd/env.sh#" /opt/vp/test.sh > /tmp/sd/test.sh
  bash /tmp/sd/test.sh /tmp/sd/$id.tests >/dev/null 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/sd/$id.tests'))
bad=[t for t in b if t not in o['passed']]
print('$id tests:', 'ok' if not bad else bad)
P
  flock -u 9
fi
if [ $what = check -o $what = all ]; then
  s=$(date +%s)
  (cd "$V" && GOSYM_REPO=$D ./check.sh $prop quick >/tmp/sd/$id.check 2>&1); rc=$?
  echo "$id check $prop: exit $rc, $(( $(date +%s)-s )) s; $(grep -m1 VIOLATION /tmp/sd/$id.check | cut -c1-120)"
  grep -B0 -A1 -m3 "violation\|VIOLATION" /tmp/sd/$id.check | cut -c1-220 | head -4
fi
rm -rf "/tmp/sd/$id" "/tmp/sd/demo-$id"
