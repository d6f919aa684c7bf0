#!/bin/bash
# try.sh NAME : verify /verif/seeded/NAME (build, tests, demo both ways) and run its check, all in a private copy of /repo
n=$1; W=/var/tmp/seed/w_$n; rm -rf "$W"; cp -a "${R:=/repo}" "$W"
S=${SEED_DEST:-/verif/seeded/}$n
cp -r $S /var/tmp/seed/d_$n
( cd $W && git apply $S/patch.diff ) || { echo "$n: patch does not apply"; exit 1; }
flock /var/tmp/seed/lock unshare -Urm bash -c "mount -t tmpfs none /tmp && mount --bind $W /repo && cd /repo && bash /opt/vp/test.sh /var/tmp/seed/t_$n.json >/dev/null 2>&1; cd /repo; timeout 300 bash /var/tmp/seed/d_$n/demo.sh > /var/tmp/seed/demo_$n.out 2>&1; echo \$? > /var/tmp/seed/rc_$n"
miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/var/tmp/seed/t_$n.json'))
s=set(b['stable'] if 'stable' in b else b['passed']); print(len(s-set(t['passed'])), sorted(s-set(t['passed']))[:5])")
rm -rf "$W/_build/results.lines"
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
res=""
for q in $p ${@:2}; do
VERIF_REPO=$W VERIF_BUILD=/var/tmp/seed/b_$n VERIF_SEED=1 timeout 900 python3 ${V:-/verif}/checks/$q.py quick > /var/tmp/seed/c_${n}_$q.out 2>&1; r=$?
res="$res $q:$r$(grep -c ^VIOLATION /var/tmp/seed/c_${n}_$q.out)"
done
# the demo on the unchanged tree
( cd ${R:-/repo} && timeout 300 bash /var/tmp/seed/d_$n/demo.sh > /var/tmp/seed/demo0_$n.out 2>&1 ); r0=$?
echo "$n: missing tests $miss ; demo unchanged=$r0 patched=$(cat /var/tmp/seed/rc_$n) ; check (exit,violations)$res"
rm -rf $W /var/tmp/seed/b_$n /var/tmp/seed/d_$n
