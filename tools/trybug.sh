#!/bin/bash
# trybug.sh ID [nosuite] [check ids...]: try seeded/ID on a private copy of /repo
# (bind-mounted over /repo in a mount namespace), never on /repo itself.
ID=$1; shift
S=/verif/seeded/$ID
B=$(mktemp -d /tmp/bug.XXXXXX)
cp -a /repo $B/repo; mkdir $B/reports $B/evidence $B/replays
SUITE=1; [ "$1" = nosuite ] && { SUITE=0; shift; }
PROPS="$*"; [ -z "$PROPS" ] && PROPS=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export ID S B SUITE PROPS
unshare -m bash <<'X'
mount --bind $B/repo /repo; mount --bind $B/reports /opt/vp/reports
mount --bind $B/evidence /verif/evidence; mkdir -p /verif/replays; mount --bind $B/replays /verif/replays
cp -r $S $B/demo
cd /repo
timeout 300 bash $B/demo/demo.sh >$B/demo0.log 2>&1; echo "$ID demo unchanged rc=$?"
git apply $S/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$B/build.log 2>&1 || echo "$ID BUILD FAILS"
timeout 300 bash $B/demo/demo.sh >$B/demo1.log 2>&1; echo "$ID demo patched rc=$?  $(tail -n 1 $B/demo1.log | cut -c1-150)"
if [ $SUITE = 1 ]; then
  bash /opt/vp/test.sh $B/out.json >$B/test.log 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$B/out.json'))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: 
            v=x[k]; return set(v) if isinstance(v,list) else {t for t,r in v.items() if r in ('pass','passed',True)}
bad=passed(b)-passed(o)
print('$ID suite:', 'all pass' if not bad else f'{len(bad)} FAIL {sorted(bad)[:4]}')
P
fi
cd /verif
for p in $PROPS; do ./check check $p --tier quick 2>&1 | grep -E "VIOLATION|rc=|replay" | cut -c1-220 | sed "s/^/$ID $p: /"; done
X
rm -rf "$B"
