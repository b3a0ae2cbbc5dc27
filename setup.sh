#!/bin/bash
# Build everything once, offline (warms the build cache; run.sh rebuilds from
# /repo's working tree every time).
set -eu
cd "$(dirname "$0")"
. ./env.sh
W=$(mktemp -d "${TMPDIR:-/tmp}/zkverif.XXXXXX")
trap 'rm -rf "$W"' EXIT
for m in "" yield io; do
  go -C sim run ./cmd/zkgen -repo /repo -work "$W" -sim "$PWD/sim" -mode "$m"
  go -C sim build -tags "${m:+verif$m}" -overlay "$W/overlay.json" -o "$W/zkcheck" ./cmd/zkcheck
done
echo built
