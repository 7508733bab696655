#!/bin/bash
# detect.sh [-p PROPS] [ids...]: run each planted bug, in a scratch copy of /repo, against the check of its
# property (development aid). -p: other properties, comma-separated.
cd /verif; PR=; [ "$1" = -p ] && { PR=${2//,/ }; shift 2; }
ids=(); for a in "${@:-}"; do for d in seeded/$a*; do ids+=("${d#seeded/}"); done; done
W=$(mktemp -d /tmp/detect.XXXX); trap 'rm -rf "$W"' EXIT
git clone -q /repo $W/repo
export DST_REPO=$W/repo DST_BUILD=$W/build DST_GOCACHE=/verif/.build/gocache
for id in "${ids[@]}"; do
  ps=${PR:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C $W/repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; continue; }
  for p in $ps; do
  s=$(date +%s.%N); o=$(VERIF_SEED=${VERIF_SEED:-1} bash check.sh $p quick 2>&1); rc=$?; e=$(date +%s.%N)
  printf '%s %s rc=%d %.1fs %s | %s\n' $id $p $rc $(echo "$e-$s"|bc) "$(echo "$o" | grep -c '^VIOLATION')" "$(echo "$o" | grep -B1 '^VIOLATION' | head -1 | cut -c1-200)"
  [ $rc = 3 ] && echo "$o" | tail -5
  done
  git -C $W/repo checkout -q -- .
done
