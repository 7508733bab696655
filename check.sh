#!/bin/bash
# check.sh build            build the simulation binary for /repo's current tree
# check.sh ID quick|thorough
# check.sh replay FILE      exit 1 when the recorded violation is reproduced
# check.sh dst ARGS...      run the binary directly
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${DST_GOCACHE:-$V/.build/gocache}"
export GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
unset GOROOT
# development only: another tree and build folder; the registered commands set neither
R="${DST_REPO:-/repo}"
B="${DST_BUILD:-$V/.build}"
mkdir -p "$B" "$GOCACHE"

build() {
  local key dir
  key=$( (cd "$R" && git ls-files -z --cached --others --exclude-standard -- sql go.mod go.sum | sort -z | xargs -0 -r sha256sum 2>/dev/null; cd "$V/sim" && find . -type f -print0 | sort -z | xargs -0 sha256sum; go version) | sha256sum | cut -c1-20)
  dir="$B/$key"
  DST="$dir/dst"
  [ -x "$DST" ] && return 0
  (
    flock 9
    [ -x "$DST" ] && exit 0
    for old in "$B"/????????????????????; do [ -d "$old" ] && rm -rf -- "$old"; done
    mkdir -p "$dir"
    cd "$V/sim" || exit 3
    go build -o "$dir/instrument" ./cmd/instrument || exit 3
    mod=()
    if [ "$R" != /repo ]; then
      sed "s#=> /repo#=> $R#" go.mod >"$dir/go.mod"; cp go.sum "$dir/go.sum"; mod=("-modfile=$dir/go.mod")
    fi
    plain=()
    for try in 1 2 3 4 5 6; do
      (cd "$R" && "$dir/instrument" "$R" "$dir" "${plain[@]}") || exit 3
      GOEXPERIMENT=nosizespecializedmalloc go build "${mod[@]}" -race "-gcflags=verif.local/sim/...=-race=false -l" "-gcflags=github.com/antlr4-go/antlr/...=-race=false" -overlay "$dir/overlay.json" -o "$dir/dst.tmp" ./cmd/dst 2>"$dir/err" && break
      cat "$dir/err"
      # a rewritten file that does not compile is used as it is, without scheduling points
      mapfile -t more < <(grep -oE '(\.\./)*[A-Za-z0-9_./-]*\bsql/[A-Za-z0-9_/.-]+\.go:' "$dir/err" | sed -E "s/:\$//; s#^$R/##; s#^.*/(sql/)#\1#; s#^(\.\./)+##" | sort -u)
      [ ${#more[@]} -gt 0 ] || exit 3
      echo "check.sh: not instrumented: ${more[*]}"
      plain+=("${more[@]}")
    done
    [ -f "$dir/dst.tmp" ] || exit 3
    mv "$dir/dst.tmp" "$DST"
  ) 9>"$B/lock" >"$B/build.log" 2>&1 || { cat "$B/build.log" >&2; echo "check.sh: build failed" >&2; exit 3; }
}

case "$1" in
  build) build; echo "built $DST" ;;
  replay) build; exec env GOMAXPROCS=1 "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0" "$DST" run -replay "$2" ;;
  dst) build; shift; GORACE="atexit_sleep_ms=0" exec "$DST" "$@" ;;
  C*) build; GORACE="atexit_sleep_ms=0" exec "$DST" check -p "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -verif "$V" ;;
  *) echo "usage: check.sh build | ID quick|thorough | replay FILE" >&2; exit 3 ;;
esac
