#!/bin/bash
# refactor.sh [-p PROPS] [names]: apply each behaviour-preserving rewrite to a scratch copy and run the checks on it; they must stay quiet
cd /verif; PR=; [ "$1" = -p ] && { PR=${2//,/ }; shift 2; }
names=("$@"); [ $# = 0 ] && names=($(python3 -c "import sys;sys.path.insert(0,'tools');import refactors;print(*refactors.R)"))
W=$(mktemp -d /tmp/refac.XXXX); trap 'rm -rf "$W"' EXIT
git clone -q /repo $W/repo
export DST_REPO=$W/repo DST_BUILD=$W/build DST_GOCACHE=/verif/.build/gocache
for n in "${names[@]}"; do
  python3 - $n $W/repo <<'P' || { echo "$n: APPLY FAILED"; continue; }
import sys; sys.path.insert(0,'tools'); import refactors
for f,o,w in refactors.R[sys.argv[1]]:
    p=sys.argv[2]+'/'+f
    if not o: open(p,'w').write(w); continue
    s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o)); open(p,'w').write(s.replace(o,w))
P
  (cd $W/repo && GOFLAGS=-mod=mod go vet -unreachable=false ./sql/... >/dev/null 2>$W/vet) || { echo "$n: VET"; head -5 $W/vet; }
  for p in ${PR:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17}; do
    o=$(bash check.sh $p quick 2>&1); rc=$?
    echo "$n $p rc=$rc $(echo "$o" | grep -o 'determinism.*')"
    [ $rc = 0 ] || echo "$o" | grep -B1 VIOLATION
    [ $rc = 3 ] && echo "$o" | tail
  done
  grep 'not instrumented' $W/build/build.log
  git -C $W/repo checkout -q -- . ; git -C $W/repo clean -qfd
done
