#!/bin/bash
# Build everything that the checks build, so that they need not start from nothing.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
log=$PWD/build.setup.log
quiet() { # print what a command says only if it fails
  "$@" >"$log" 2>&1 || { cat "$log" >&2; rm -f "$log"; exit 2; }
  rm -f "$log"
}
(cd harness && quiet cargo build --offline --quiet --bins) || exit 2
(cd macrocheck && quiet cargo build --offline --quiet) || exit 2
./variants/build.sh
