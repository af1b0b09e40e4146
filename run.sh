#!/bin/bash
# run.sh ID quick|thorough   check one property against /repo's working tree
# run.sh replay FILE         re-execute a recorded counterexample
# run.sh build               only build (used by setup_cmd)
export HOME=/root GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod \
    GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
DIR=$(cd "$(dirname "$0")" && pwd)
export MC_ROOT=$DIR
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
python3 "$DIR/mc/mkoverlay.py" "$GOROOT" "$W/ov" || exit 3
cp "$DIR/mc/go.mod" "$W/go.mod" && cp "$DIR/mc/go.sum" "$W/go.sum" || exit 3
[ "$1" = replay ] && set -- replay "$(realpath "$2")"
cd "$DIR/mc" || exit 3
mk() { # mk FLAGS...: build the checker from /repo's working tree
    if ! go build -modfile="$W/go.mod" -overlay "$W/ov/overlay.json" "$@" -o "$W/mc" . 2> "$W/err"; then
        cat "$W/err" >&2
        exit 3
    fi
}
race() { # C31 runs under the race detector
    export CGO_ENABLED=1 GORACE="log_path=$W/race exitcode=0 atexit_sleep_ms=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0"
    mk -race
}
case "$1" in
build) mk; race; exit 0 ;;
C31) race ;;
replay) if grep -q '"property": "C31"' "$2"; then race; else mk; fi ;;
*) mk ;;
esac
"$W/mc" "$@"
