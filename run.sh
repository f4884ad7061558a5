#!/bin/bash
# bash run.sh <PROPERTY> quick|thorough    or    bash run.sh replay <file>
# Rebuilds the harness against /repo's working tree and runs one check.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p work
build() { # profile
  local log="work/build-$1.$$.log"
  if ! cargo build --offline --locked --manifest-path harness/Cargo.toml --profile "$1" >"$log" 2>&1; then
    tail -40 "$log"; echo "ERROR: the harness does not build against /repo"; exit 2
  fi
  rm -f "$log"
}
case "${1:-}" in
  replay)
    prof=$(sed -n 's/^build //p' "$2" | head -1); [ -n "$prof" ] || prof=hrel
    build "$prof"
    exec "$CARGO_TARGET_DIR/$prof/harness" replay "$(readlink -f "$2")" ;;
  setup)
    build hrel; build hdbg; echo "harness built" ;;
  C[0-9][0-9])
    build hrel
    if [ "$1" = C01 ]; then
      build hdbg
      export HARNESS_DEBUG_BIN="$CARGO_TARGET_DIR/hdbg/harness"
    fi
    exec "$CARGO_TARGET_DIR/hrel/harness" check "$1" "${2:-quick}" ;;
  *) echo "usage: run.sh PROPERTY quick|thorough | replay FILE"; exit 2 ;;
esac
