#!/bin/bash
# Usage: check.sh <property> [quick|thorough]          decide a property
#        check.sh <property> --replay FILE [-trace]    replay a violation
# Rebuilds the instrumented copy of /repo's working tree and runs the simulator.
set -u
cd "$(dirname "$0")" || exit 3
V=$PWD
REPO=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GONOSUMDB=* GONOSUMCHECK=1
unset GOWORK
prop=$1; shift
B=$V/.build/${VERIF_BUILD:-$prop}
mkdir -p "$B" || exit 3
exec 9>"$B/.lock"; flock 9
rm -rf "$B/tru"
(cd sim && GOWORK=off go build -o "$B/rewrite" ./rewrite) || { echo "build of the rewriter failed" >&2; exit 3; }
"$B/rewrite" -repo "$REPO" -out "$B/tru" || { echo "instrumentation failed" >&2; exit 3; }
printf 'go 1.25\n\nuse (\n\t./tru\n\t%s/sim\n)\n' "$V" > "$B/go.work"
race=()
if [ "$prop" = C22 ]; then
  # The race detector watches the code under test only: not the simulator. Its
  # happens-before edges are to be those of the library, so pools keep nothing.
  # (specialised allocation skips the hooks of the detector in code built without it)
  export GOEXPERIMENT=nosizespecializedmalloc CGO_ENABLED=1
  printf 'package sync\n\ntype Pool struct {\n\tnoCopy noCopy\n\tNew func() any\n}\n\nfunc (p *Pool) Get() any {\n\tif p.New != nil {\n\t\treturn p.New()\n\t}\n\treturn nil\n}\n\nfunc (p *Pool) Put(x any) {}\n' > "$B/pool.go"
  printf '{"Replace":{"%s/src/sync/pool.go":"%s/pool.go"}}\n' "$(go env GOROOT)" "$B" > "$B/overlay.json"
  race=(-race -overlay "$B/overlay.json" "-gcflags=verifsim/simrt=-race=false -l" "-gcflags=verifsim/simcheck=-race=false -l")
fi
(cd "$B/tru" && GOWORK=$B/go.work go build "${race[@]}" -o "$B/simcheck" verifsim/simcheck) || { echo "build of the simulation failed" >&2; exit 3; }
exec 9>&-
if [ "${1:-}" = "--replay" ]; then
  shift
  exec "$B/simcheck" -replay "$@"
fi
tier=${1:-${VERIF_TIER:-quick}}
[ $# -gt 0 ] && shift
exec "$B/simcheck" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -evidence "$V/evidence" \
  -replays "$V/replays" -known "$V/known_findings.txt" "$@"
