#!/bin/bash
# run every property's check (or those named) against the copy of the repository given: bash tools/quiet.sh DIR [ID...]
R=$1; shift
cd /verif
ids=${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
one() {
  t=$(mktemp -d /tmp/quiet_XXXX); mkdir $t/v
  cp -r check.py lumver lumver_summary.py concrete contracts specs known_findings.json properties.jsonl MANIFEST.json $t/v/
  (cd $t/v; LUMVER_REPO=$2 timeout 900 python3 check.py $1 --tier quick > $t/out 2>&1; r=$?; echo "$1: exit $r $(grep VIOLATION $t/out | tail -1)"; [ $r != 0 ] && cp $t/out /tmp/quiet_$1.out)
  rm -r $t
}
export -f one
printf '%s\n' $ids | xargs -P ${P:-2} -I{} bash -c "one {} $R"
