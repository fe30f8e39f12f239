#!/bin/bash
# tryseed.sh <seeded-id> [check ids...]: validates a planted bug in a private copy of /repo (mount namespace) and runs checks on it
D=/verif/seeded/$1; shift; id=$(basename $D); P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); S=/tmp/sc/$id.$$; mkdir -p /tmp/sc; cp -a /repo $S
CH="${*:-$P}"; [ -n "$NOTEST" ] && T=1
unshare -Urm bash -c "mount --bind $S /repo; cd /repo; git apply $D/patch.diff || { echo '$id APPLY FAILED'; exit; }
 bash /opt/vp/build.sh > /tmp/sc/$id.build.log 2>&1 || { echo '$id BUILD FAILED'; tail -20 /tmp/sc/$id.build.log; exit; }
 if [ -z '$NOTEST' ]; then bash /opt/vp/test.sh /tmp/sc/$id.json > /tmp/sc/$id.test.log 2>&1; python3 -c \"
import json; b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=json.load(open('/tmp/sc/$id.json'))['passed']; m=[x for x in b if x not in p]; print('$id tests', 'OK' if not m else 'FAIL %s' % m)\"; fi
 timeout 300 bash $D/demo.sh > /tmp/sc/$id.demo.log 2>&1; echo \"$id demo with patch rc=\$? (want nonzero): \$(tail -1 /tmp/sc/$id.demo.log)\"
 cd /verif; for c in $CH; do timeout 900 python3 bin/check.py \$c > /tmp/sc/$id.\$c.log 2>&1; rc=\$?; echo \"$id check \$c rc=\$rc \$(grep -m1 'violated:' /tmp/sc/$id.\$c.log | cut -c1-200) \$(tail -1 /tmp/sc/$id.\$c.log | cut -c1-150)\"; done"
(cd /repo; timeout 300 bash $D/demo.sh > /tmp/sc/$id.demo0.log 2>&1; echo "$id demo unchanged rc=$? (want 0) $(tail -1 /tmp/sc/$id.demo0.log)")
rm -rf $S
