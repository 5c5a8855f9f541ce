#!/bin/bash
# run.sh <property>: build the harness from /repo's working tree, then decide one property.
# run.sh --replay <file>: evaluate a replay file again (exit 1 if it still fails).
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough). Exit 0 held, 1 violated, anything else: no answer.
set -u
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR TRIANGULATE_SVG_OUTPUT_PATH
. "$VERIF_ROOT/build.sh"
if [ "${1:-}" = --replay ]; then
  F="$(realpath "${2:?usage: run.sh --replay <file>}")"
  ID="$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$F" | head -1)"
else
  ID="${1:?usage: run.sh <property>}" F=
fi
build_for "$ID" || { echo "the harness does not build against /repo" >&2; exit 2; }
if [ -n "$F" ]; then exec "$VERIF_BIN_RELEASE" replay "$F"; else exec "$VERIF_BIN_RELEASE" check "$ID"; fi
