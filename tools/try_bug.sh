#!/bin/bash
# dev tool: try_bug.sh ID [nocheck|notest]: demo clean/patched, tests and check, in a private mount namespace over a copy
id=$1; S=/verif/seeded/$id; R=/tmp/bug/r_$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf $R; cp -a /repo $R
(cd /repo && bash $S/demo.sh >/tmp/bug/$id.demo0 2>&1); a=$?
unshare -m bash -c "mount --make-rprivate /; mount --bind $R /repo; cd /repo; git apply $S/patch.diff || exit 1
bash $S/demo.sh >/tmp/bug/$id.demo1 2>&1; echo \"$id $prop demo clean=$a patched=\$?\"
if [ \"$2\" != nocheck ]; then cd /verif; timeout 900 python3 check.py $prop > /tmp/bug/$id.check 2>&1; echo \"$id check rc=\$? \$(grep -m1 VIOLATION /tmp/bug/$id.check)\"; fi
if [ \"$2\" != notest ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/bug/$id.json >/dev/null 2>&1; python3 -c \"
import json;d=json.load(open('/tmp/bug/$id.json'));print('$id tests passed',len(d['passed']),'failed',d['failed'])\"; fi"
rm -rf $R
