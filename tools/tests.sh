#!/bin/bash
# tests.sh REPO OUT: the stable tests against a copy
repo=$(realpath $1); out=$2; R=$(mktemp -d /tmp/rpXXXX)
sed -e "s#/repo#$repo#g" -e "s#^R=.*#R=$R#" /opt/vp/test.sh > $R.sh
bash $R.sh $out >/dev/null 2>&1; rm -rf $R $R.sh
python3 - $out <<'P'
import json,sys
t=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(t['passed'])
print("tests: all stable pass" if not m else f"tests: {len(m)} FAIL {sorted(m)[:5]}")
P
