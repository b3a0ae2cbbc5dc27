#!/bin/bash
# run.sh PROPERTY [extra flags]: build the simulator against /repo's working
# tree and run the seeded batch of one property.
# run.sh --replay FILE: re-execute a recorded violation.
set -u
cd "$(dirname "$0")" || exit 2
. ./env.sh
export GOFLAGS="-mod=mod" GOGC=400
VERIF=$PWD
REPLAY=""
if [ "${1:-}" = --replay ]; then
  REPLAY=$(realpath "$2")
  PROP=$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$REPLAY" | head -1)
else
  PROP=$1; shift
fi
# which seams the property needs (see sim/cmd/zkgen)
case "$PROP" in
  C20|C21) MODE=yield ;;
  C23|C24|C25|C29) MODE=io ;;
  *) MODE="" ;;
esac
WORK=$(mktemp -d "${TMPDIR:-/tmp}/zkverif.XXXXXX") || exit 2
trap 'rm -rf "$WORK"' EXIT
build() { # build MODE
  go -C sim run ./cmd/zkgen -repo /repo -work "$WORK" -sim "$VERIF/sim" -mode "$1" >"$WORK/gen.log" 2>&1 || { cat "$WORK/gen.log" >&2; return 1; }
  go -C sim build -tags "${1:+verif${1%plain}}" -overlay "$WORK/overlay.json" -o "$WORK/zkcheck" ./cmd/zkcheck >"$WORK/build.log" 2>&1 || { head -40 "$WORK/build.log" >&2; return 1; }
}
if ! build "$MODE"; then
  # yield points are added by rewriting; code that cannot be rewritten is
  # still run, interleaved between whole calls only
  case "$MODE" in
    yield) build "" || exit 2 ;;
    io) build ioplain || exit 2 ;;
    *) exit 2 ;;
  esac
fi
# the kernel must not have to pick a victim if the code under test runs away
ulimit -v 24000000
if [ -n "$REPLAY" ]; then
  "$WORK/zkcheck" -replay "$REPLAY"; exit $?
fi
"$WORK/zkcheck" -prop "$PROP" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" \
  -evidence "$VERIF/evidence/$PROP.json" -out "$VERIF/replays" "$@"
