#!/bin/bash
# Warms the build cache: builds the engine and the harness once.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOWORK=off
work="$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX")"
trap 'rm -rf -- "$work"' EXIT
(cd "$here/harness" && python3 "$here/tools/gen_overlay.py" "$work") || exit 1
(cd "$here/engine" && go build -o "$work/engine" .) && (cd "$here/harness" && go build -overlay "$work/overlay.json" -o "$work/replay" ./cmd/replay)
