#!/bin/bash
# Builds the model checker against /repo's working tree and runs it.
#   run.sh -prop P04 [-tier thorough]      run.sh -replay FILE      run.sh -build
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=${GOPATH:-/root/go} GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOFLAGS="-mod=mod -buildvcs=false"
ROOT=$PWD
mkdir -p build evidence
exec 9>build/.lock
flock 9
build() {
  (cd mc && go build -o ../build/instrument ./cmd/instrument) || return 2
  rm -rf "$ROOT/build/ov" "$ROOT/build/ovd"
  if ./build/instrument -src /repo/parser -out "$ROOT/build/ov" &&
     (cd mc && go build -tags verifinstr -overlay "$ROOT/build/ov/overlay.json" -o ../build/mc ./cmd/mc); then :
  else
    echo "instrumented build failed, using the plain one" >&2
    (cd mc && go build -o ../build/mc ./cmd/mc) || return 2
  fi
  if [ -n "$DENSE" ]; then # P13: ticks before every statement, and the race detector
    if ./build/instrument -dense -src /repo/parser -out "$ROOT/build/ovd" &&
       (cd mc && go build -tags verifinstr -overlay "$ROOT/build/ovd/overlay.json" -o ../build/mcd ./cmd/mc); then :
    else
      echo "dense build failed, using the plain one" >&2
      cp build/mc build/mcd
    fi
    (cd mc && go build -race -o ../build/racer ./cmd/racer) || { echo "no race detector" >&2; rm -f "$ROOT/build/racer"; }
  fi
  (cd /repo && GOFLAGS="-mod=readonly -buildvcs=false" go build -o "$ROOT/build/cli" .) || return 2
  return 0
}
DENSE= BIN=mc
case " $* " in
  *" P13 "*) DENSE=1 BIN=mcd ;;
  *" -replay "*) for a; do [ -f "$a" ] && grep -q '"P13"' "$a" && DENSE=1 BIN=mcd; done ;;
  *" -build "*) DENSE=1 ;;
esac
build || { echo "build failed"; exit 2; }
[ "$1" = -build ] && { shift; [ $# -eq 0 ] && exit 0; }
flock -u 9
exec ./build/$BIN -root "$ROOT" "$@"
