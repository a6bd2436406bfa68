#!/bin/bash
# trybug.sh ID [PROPERTY] [extra check.py args]: the check against a scratch copy of /repo with the bug in it
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; shift; shift
t=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo/src $t/src
(cd $t && git init -q . && git apply /verif/seeded/$id/patch.diff) || { echo "$id DOES NOT APPLY"; rm -rf $t; exit 3; }
cd /verif; s=$(date +%s)
FEDSIM_REPO_SRC=$t/src FEDSIM_EVIDENCE=$t timeout 900 /opt/venv/bin/python check.py $prop --tier quick "$@" > $t/out 2>&1; rc=$?
echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -m1 ^VIOLATION $t/out)"; [ $rc = 1 ] || tail -5 $t/out
rm -rf $t
