#!/bin/bash
# plant.sh ID "check ids": confirm the planted bug seeded/ID (patch, demo) on a scratch copy of /repo
# (bind-mounted over /repo in a private mount namespace) and run the named checks against it.
V=/verif; S=$V/seeded/$1; W=/tmp/plant.$$; R=0
cp -a /repo $W && git -C $W checkout -q -- . 
cleanup() { case $W in /tmp/plant.*) rm -rf "$W" ;; esac; }
trap cleanup EXIT
ns() { unshare -m bash -c "mount --bind $W /repo && cd /repo && $1"; }
D=$(mktemp -d); cp $S/* $D/; rm -f $D/patch.diff $D/meta.json
ns "bash /opt/vp/build.sh >/dev/null 2>&1 && bash $D/demo.sh >/dev/null 2>&1" || { echo "$1: demo fails on the unchanged tree"; R=1; }
git -C $W apply $S/patch.diff || { echo "$1: patch does not apply"; exit 1; }
ns "bash /opt/vp/test.sh /tmp/plant.$$.json >/dev/null 2>&1; bash $D/demo.sh >/tmp/plant.$$.demo 2>&1; echo \$? > /tmp/plant.$$.rc"
[ "$(cat /tmp/plant.$$.rc)" != 0 ] || { echo "$1: demo passes with the patch"; R=1; }
python3 - /tmp/plant.$$.json <<'P' || R=1
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
base=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
miss=[t for t in base if t not in r['passed']]
if miss: print('tests that no longer pass:',miss[:5]); sys.exit(1)
P
rm -rf "$D" /tmp/plant.$$.json /tmp/plant.$$.rc
[ $R = 0 ] && echo "$1: confirmed (demo: $(head -c 100 /tmp/plant.$$.demo | tr '\n' '|'))"
rm -f /tmp/plant.$$.demo
for c in $2; do
    case $c in C*) b=check_c ;; P*) b=check_p ;; A*) b=check_a ;; S*) b=check_s ;; L*) b=check_l ;; E*) b=check_e ;; G*) b=check_g ;; esac
    mkdir -p $W/vr; o=$(VP_SHRINK=5 VP_REPO=$W VP_ROOT=$W/vr $V/build/$b run $c 2>&1); rc=$?
    echo "  $c: exit $rc $(echo "$o" | grep -c '^VIOLATION property='"$c") $(echo "$o" | tail -1)"
done
exit $R
