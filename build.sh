#!/bin/bash
# build.sh SCRATCH [REPO] [ID]: copies the fab sources into SCRATCH, puts them on the simulator
# (instrumented copy of the current working tree) and builds SCRATCH/harness there.
# With ID, only what the check of that property needs is built.
# P20, or FABSIM_RACE=1: with the race detector.
set -e
D=$1; R=${2:-/repo}; ID=$3
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$D/bin" "$D/src"
S=$D/src
(cd "$R" && tar cf - --exclude=./.git --exclude=_testdata --exclude=./_fab --exclude=./fab.yaml --exclude='*_test.go' .) | tar xf - -C "$S"
cp -a "$V/sim" "$S/zsim"; mv "$S/zsim/harness" "$D/harness.src"
cp "$(cd "$S" && go list -m -f '{{.Dir}}' github.com/mattn/go-sqlite3)/sqlite3-binding.h" "$S/zsim/vfs/"
G=$(cd "$S" && go list -m -f '{{.Dir}}' github.com/bobg/go-generics/v2)
cp -a "$G" "$S/zgen"; chmod -R u+w "$S/zgen"
find "$S/zgen" -name '*_test.go' -delete
(cd "$S" && go mod edit -replace github.com/bobg/go-generics/v2=./zgen)
(cd "$V/tools/instr" && GOFLAGS=-mod=mod GO111MODULE=off go build -o "$D/bin/instr" main.go)
next=$("$D/bin/instr" -dir "$S")
mv "$D/harness.src" "$S/zsim/harness"
RACE=
if [ -n "$FABSIM_RACE" -o "$ID" = P20 ]; then
	cp "$V/tools/nopool.go.txt" "$D/nopool.go"
	echo "{\"Replace\": {\"$(go env GOROOT)/src/sync/pool.go\": \"$D/nopool.go\"}}" > "$D/overlay.json"
	RACE="-race -overlay $D/overlay.json"
fi
(cd "$S" && go build $RACE -o "$D/bin/harness" ./zsim/harness)
case $ID in P01|P02|P03|P04|P05|P11|P12|P15|P16|P19|P20|P30) ;; *)
	# second stage: the main function of the driver that the code under test generates
	"$D/bin/harness" -gendriver "$S/zsim/harness/driver.txt"
	(cd "$V/tools/mkdriver" && GO111MODULE=off go build -o "$D/bin/mkdriver" main.go)
	mkdir -p "$S/zdriver"
	"$D/bin/mkdriver" "$S/zsim/harness/driver.txt" "$S/zdriver/driver.go"
	"$D/bin/instr" -dir "$S" -driver zdriver -nopoints -sitefile "" -start "$next" >/dev/null
	(cd "$S" && go build $RACE -tags clidriver -o "$D/bin/harness" ./zsim/harness)
esac
