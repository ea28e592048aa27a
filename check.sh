#!/bin/bash
# check.sh PROPERTY TIER [engine options]: decide one property of /repo's current tree.
# Builds the engine, the harnesses and the native replay binary from the current sources, then runs.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"; shift; shift
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export HOME="${HOME:-/root}"
work="$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX")"
trap 'rm -rf -- "$work"' EXIT
python3 "$here/tools/gen_registry.py" >/dev/null || exit 2
(cd "$here/harness" && python3 "$here/tools/gen_overlay.py" "$work") || { echo "no overlay"; exit 2; }
(cd "$here/engine" && go build -o "$work/engine" .) || { echo "engine does not build"; exit 2; }
(cd "$here/harness" && go build -overlay "$work/overlay.json" -o "$work/replay" ./cmd/replay) || { echo "harness does not build against /repo"; exit 2; }
cd "$here/harness"
"$work/engine" -prop "$prop" -tier "$tier" -verif "$here" -replay "$work/replay" -seed "${VERIF_SEED:-1}" "$@"
