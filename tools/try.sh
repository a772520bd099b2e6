#!/bin/bash
# try.sh [ID..]: runs the check of each planted change's property on a scratch copy of /repo
for d in /verif/seeded/*/; do
  i=$(basename $d); [ $# -gt 0 ] && ! [[ " $* " == *" $i "* ]] && continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/try-XXXX); cp -a /repo $w/repo; (cd $w/repo && git apply $d/patch.diff) || echo "NO APPLY"
  o=$(cd /verif && CFGV_REPO=$w/repo python3 check.py $p 2>&1); rc=$?
  echo "$i $p rc=$rc $(echo "$o" | grep -c 'obligation of') obligations; $(echo "$o" | grep VIOLATION | grep -o 'no-failing-input-found'); $(echo "$o" | grep '^C.*unit' | cut -c1-230 | tr '\n' '|')"
  [ -n "$VERBOSE" ] && echo "$o"
  rm -rf $w
done
