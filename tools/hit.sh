#!/bin/bash
# run the check of each planted bug's property on a scratch copy of /repo with the bug applied
cd /verif
one() {
  t=$(mktemp -d /tmp/hit_XXXX); cp -a /repo $t/r; git -C $t/r apply /verif/seeded/$1/patch.diff || echo "$1: does not apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
  mkdir $t/v; cp -r check.py lumver lumver_summary.py concrete contracts specs known_findings.json properties.jsonl MANIFEST.json $t/v/
  (cd $t/v; LUMVER_REPO=$t/r timeout 900 python3 check.py $p --tier quick > $t/out 2>&1; echo "$1: exit $? $(grep VIOLATION $t/out | tail -1)")
  [ -n "$KEEP" ] && cp $t/out /tmp/hit_$1.out
  rm -r $t
}
export -f one
printf '%s\n' "$@" | xargs -P ${P:-3} -I{} bash -c 'one {}'
