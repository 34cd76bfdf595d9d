#!/bin/bash
# check.sh ID [--replay FILE | --index N | --cases N]
# Builds the monitors and qiniu/uip from /repo's current tree and runs the
# check of one property. VERIF_TIER=quick|thorough, VERIF_SEED=<n>.
# Exit 0: held on everything explored; 1: VIOLATION; 3: the check itself failed.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
export LC_ALL=C.UTF-8
id="$1"
[ -n "$id" ] || { echo "usage: check.sh ID [--replay FILE | --index N]"; exit 3; }
mkdir -p .build out evidence
bin=$(mktemp -d "$PWD/.build/run.XXXXXX") || exit 3
trap 'rm -rf "$bin"' EXIT
trap 'exit 3' TERM INT
export VERIF_BIN="$bin"
fail() { echo "ERROR of the check: $*"; exit 3; }
race=
case "$id" in C04) race=-race ;; esac
(cd harness && go build $race -o "$bin/uipcheck" .) || fail "building the harness failed"
case "$id" in
C23) (cd harness && go build -race -o "$bin/server" github.com/qiniu/uip/cmd/server) || fail "building cmd/server failed" ;;
C24) (cd harness && go build -o "$bin/converter" github.com/qiniu/uip/cmd/converter && go build -o "$bin/simple" github.com/qiniu/uip/cmd/simple) || fail "building the commands failed" ;;
esac
case "$id" in
C25|C27|C30|C33|C35) CARGO_NET_OFFLINE=true cargo build -q --offline --manifest-path rustdrv/Cargo.toml --target-dir "$bin/rust" 2>"$bin/cargo.log" || { cat "$bin/cargo.log"; fail "building the Rust library failed"; } ;;
esac
case "$id" in
C26|C27|C30|C31|C33) mkdir -p "$bin/java" && javac -encoding UTF-8 -nowarn --add-exports java.base/sun.net.util=ALL-UNNAMED -d "$bin/java" \
    $(find /repo/java/src/main/java -name '*.java') $(find javadrv -name '*.java') 2>"$bin/javac.log" || { cat "$bin/javac.log"; fail "building the Java library failed"; } ;;
esac
case "$id" in
C37)
    (cd harness && CGO_ENABLED=0 go build -gcflags=all='-N -l -d=checkptr=1' -o "$bin/drvraw" ./godrv && CGO_ENABLED=1 go build -asan -o "$bin/drvasan" ./godrv) || fail "building the drivers failed"
    (cd harness && CGO_ENABLED=0 GOARCH=386 go build -o "$bin/drv386" ./godrv) >out/C37-build.log 2>&1 || { cat out/C37-build.log
        grep -q 'qiniu/uip' out/C37-build.log || fail "building the 32 bit driver failed"
        echo "the module does not build for a 32 bit platform"; echo "VIOLATION property=C37 replay=$PWD/out/C37-build.log"; exit 1; } ;;
esac
"$bin/uipcheck" "$@" &
pid=$!
trap 'kill -TERM $pid 2>/dev/null; wait $pid; exit 3' TERM INT
wait $pid
exit $?
