#!/bin/bash
# tryseed.sh ID [notest]: build seeded/ID in a scratch copy bound over /repo in a private mount namespace; demo before and after, stable tests after.
id=$1; S=/verif/seeded/$id; B=/tmp/w/$id
rm -rf "/tmp/w/$id"; mkdir -p $B/verif_none; cp -a /repo $B/repo; cp -a /opt/vp $B/vp; mkdir -p $B/seed; cp -a $S/. $B/seed/; rm -f $B/seed/*.diff $B/seed/meta.json
cp $S/patch.diff $B/patch.diff
unshare -Urm bash -c "
mount --bind $B/repo /repo; mount --bind $B/vp /opt/vp; mount --bind $B/verif_none /verif
cd /repo
bash $B/seed/demo.sh >$B/demo0.log 2>&1 </dev/null; echo \"demo unchanged: \$?\"
git apply $B/patch.diff || exit 3
timeout 300 bash /opt/vp/build.sh >$B/build.log 2>&1 || { echo BUILD FAILED; tail -5 $B/build.log; exit 4; }
timeout 300 bash $B/seed/demo.sh >$B/demo1.log 2>&1 </dev/null; echo \"demo patched: \$?\"; tail -2 $B/demo1.log | cut -c1-300
if [ -z '$2' ]; then timeout 1500 bash /opt/vp/test.sh $B/out.json >$B/test.log 2>&1; python3 - $B/out.json <<P
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json')); s=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
m=sorted(set(s)-set(o['passed'])); print('tests lost:', len(m), m[:4])
P
fi
" 2>&1 | sed "s/^/[$id] /"
rm -rf "/tmp/w/$id"
