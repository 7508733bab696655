#!/bin/bash
# regress.sh [commit...]: undo each fix commit of /repo in a scratch copy; its property's check must report it again. (development aid)
D=${SCREEN_DIR:-/tmp/regress}; mkdir -p $D
V=${VERIF_DIR:-/verif}
grep '^fixed:' $V/known-findings.txt | while read -r _ prop h what; do
  p=${prop#property=}
  if [ $# -gt 0 ]; then case " $* " in *" $h "*) ;; *) continue;; esac; fi
  rm -rf $D/repo; git clone -q /repo $D/repo
  if ! git -C $D/repo revert -n $h >/dev/null 2>&1; then echo "$h $p CONFLICT | $what"; continue; fi
  out=$(cd $V && DST_REPO=$D/repo DST_BUILD=$D/build DST_GOCACHE=/verif/.build/gocache VERIF_SEED=${VERIF_SEED:-1} bash check.sh $p quick 2>&1); rc=$?
  echo "$h $p rc=$rc | $what | $(echo "$out" | grep -B1 '^VIOLATION' | head -1 | cut -c1-90)"
done
rm -rf $D
