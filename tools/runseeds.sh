#!/bin/bash
# runseeds.sh [-j N] [-d SEEDDIR] [ID...]: run each planted change's own check against a private copy of /repo and
# of /verif (bind-mounted over both in a user namespace), N at a time; prints caught / MISSED.
# CHECKS="C01 C02" overrides the property whose check is run.
J=4; DIR=/verif/seeded
while getopts j:d: o; do case $o in j) J=$OPTARG;; d) DIR=$OPTARG;; esac; done; shift $((OPTIND-1))
W=/tmp/rs; mkdir -p $W
one() {
  id=$1; DIR=$2; W=/tmp/rs; s=$W/$id; mkdir -p $s
  git clone -q --no-hardlinks /repo $s/repo && cp /repo/Cargo.lock $s/repo/ 2>/dev/null
  mkdir $s/verif && (cd /verif && tar cf - --exclude=./seeded --exclude=./.git --exclude=./replays . ) | tar xf - -C $s/verif
  if [ -f "$DIR/$id/patch.diff" ]; then git -C $s/repo apply "$DIR/$id/patch.diff" || { echo "$id: does not apply"; return; }; fi
  for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('$DIR/$id/meta.json'))['property'])")}; do
  t0=$(date +%s)
  unshare -Urm bash -c "mount --bind $s/repo /repo && mount --bind $s/verif /verif && cd /verif && python3 check.py $p --tier ${TIER:-quick}" > $W/$id.$p.log 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" $W/$id.$p.log; then r=caught; elif [ $rc = 0 ]; then r=QUIET; else r="ERROR rc=$rc"; fi
  echo "$id $p $r $(( $(date +%s)-t0 ))s"
  done
  rm -rf /tmp/rs/"$id"
}
export -f one; export CHECKS TIER
printf '%s\n' ${@:-$(ls $DIR)} | xargs -P $J -I{} bash -c "one {} $DIR"
