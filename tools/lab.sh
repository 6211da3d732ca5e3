# lab.sh CMD...: seeds and checks in scratch copies (/tmp/lab) while /repo must not be touched
#   lab.sh sync            copy /verif (not /repo) anew
#   lab.sh catch ID...     apply each seed to the scratch copy of /repo, run its check there, undo
#   lab.sh check ID [...]  run a check against the scratch copy
L=${LAB:-/tmp/lab}
sync() { mkdir -p $L/verif; [ -d $L/repo ] || cp -a /repo $L/repo
  for f in bin spec harness tools KNOWN_FINDINGS.txt properties.jsonl; do rm -rf "$L/verif/$f"; cp -a /verif/$f $L/verif/; done
  sed -i "s#\"/repo\"#\"$L/repo\"#" $L/verif/harness/Cargo.toml; }
c=$1; shift
case $c in
sync) sync ;;
check) sync; LEX_REPO=$L/repo $L/verif/bin/check "$@" ;;
catch) sync; for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C $L/repo apply /verif/seeded/$i/patch.diff || exit 9
  LEX_REPO=$L/repo $L/verif/bin/check $p > /tmp/catch.$i.log 2>&1; rc=$?
  echo "$i $p rc=$rc $(grep -c ^VIOLATION /tmp/catch.$i.log) $(grep ^VIOLATION /tmp/catch.$i.log | head -1 | cut -c1-300)"
  git -C $L/repo checkout -- .
  done ;;
esac
