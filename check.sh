#!/bin/bash
# check.sh <property>|build|replay <file>: builds what the check needs from /repo's working tree, and runs it.
cd "$(dirname "$0")" || exit 2
VERIF_ROOT=$PWD
export VERIF_ROOT
export VERIF_REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
unset GOOS GOARCH GOEXPERIMENT GODEBUG GORACE GOGC GOMAXPROCS
mkdir -p build

harness() { # name package flags...
  local out=$1 pkg=$2
  shift 2
  (cd mc && go build "$@" -o "../build/$out" "$pkg") >build/log.$out 2>&1 || { cat build/log.$out >&2; return 1; }
}
program() { # name package flags...
  local out=$1 pkg=$2
  shift 2
  (cd "$VERIF_REPO" && go build "$@" -o "$VERIF_ROOT/build/$out" "$pkg") >build/log.$out 2>&1 || { cat build/log.$out >&2; return 1; }
}
conc() {
  rm -rf build/ov
  mkdir -p build/ov
  unset MC_FREE
  if harness instrument ./cmd/instrument && build/instrument "$VERIF_REPO" "$VERIF_ROOT/build/ov" && harness conc ./cmd/conc -race -overlay "$VERIF_ROOT/build/ov/overlay.json"; then
    return 0
  fi
  echo "cannot instrument the code; its schedules are not controlled" >&2
  export MC_FREE=1
  harness conc ./cmd/conc -race
}
order() {
  rm -rf build/mo
  mkdir -p build/mo
  local o=
  if harness maporder ./cmd/maporder && build/maporder build/mo; then
    o="-overlay $VERIF_ROOT/build/mo/overlay.json -ldflags=-checklinkname=0"
    if harness order ./cmd/order $o && program jargon-order ./cmd/jargon $o && program web-order ./web $o; then
      return 0
    fi
  fi
  echo "cannot control the iteration over maps; it stays random" >&2
  harness order ./cmd/order && program jargon-order ./cmd/jargon && program web-order ./web
}
cost() {
  rm -rf build/ovc
  mkdir -p build/ovc
  program jargon ./cmd/jargon && program web ./web || return 1
  if harness instrument ./cmd/instrument && build/instrument "$VERIF_REPO" "$VERIF_ROOT/build/ovc" vcount && harness cost ./cmd/cost -overlay "$VERIF_ROOT/build/ovc/overlay.json"; then
    return 0
  fi
  echo "cannot instrument the code; its statements are not counted" >&2
  harness cost ./cmd/cost
}
need() {
  case $1 in
    C11) conc && bin=conc ;;
    C20) harness queue ./cmd/queue && bin=queue ;;
    C26) harness trie ./cmd/trie && bin=trie ;;
    C21|C22) program jargon ./cmd/jargon && harness cli ./cmd/cli && bin=cli ;;
    C30) order && bin=order ;;
    C33) cost && bin=cost ;;
    C32) program gen-contractions ./filters/contractions/generate && program gen-stackoverflow ./filters/stackoverflow/generate && program gen-nba ./filters/nba/generate && harness gen ./cmd/gen && bin=gen ;;
    C23) program web ./web && program web-race ./web -race && harness webcheck ./cmd/web && bin=webcheck ;;
    *) harness lib ./cmd/lib && bin=lib ;;
  esac
}

case $1 in
  build)
    for p in C01 C11 C20 C21 C23 C26 C30 C32 C33; do need $p || exit 2; done
    exit 0 ;;
  replay)
    id=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)
    f=$(realpath "$2")
    need "$id" || exit 2
    exec build/$bin replay "$f" ;;
  C[0-9][0-9])
    need "$1" || exit 2
    build/$bin "$1"
    code=$?
    [ $code = 0 ] || [ $code = 1 ] || code=2
    exit $code ;;
  *) echo "usage: check.sh <property>|build|replay <file>" >&2; exit 2 ;;
esac
