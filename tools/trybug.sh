#!/bin/bash
# trybug.sh ID...: each planted change in a scratch copy of /repo, its property's quick check against this copy
cd /verif
for b in "$@"; do p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
W=$(mktemp -d /tmp/tryXXXX); cp -a /repo/lib $W/; (cd $W && git init -q && git apply /verif/seeded/$b/patch.diff) || { echo "$b does not apply"; rm -rf $W; continue; }
s=$(date +%s); out=$(CE_REPO=$W ./check $p 2>&1); rc=$?; rm -rf $W
echo "$b $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION)"; [ -n "$V" ] && echo "$out" | cut -c1-200 | head -20; done
