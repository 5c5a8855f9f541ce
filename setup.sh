#!/bin/bash
# Build everything once from the committed files (each check builds what it needs itself, too).
set -u
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
. "$VERIF_ROOT/build.sh"
for id in C01 C04 C08 C09 C10 C13 C15 C12 C16 C17 C18 C19; do build_for $id || exit 1; done
build_for C02 && echo "setup: all harness binaries built"
