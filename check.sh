#!/bin/bash
# check.sh ID: build the harness against /repo's working tree and run one check.
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
log=$PWD/../build.$1.log
bin=target/debug
if ! cargo build --offline --quiet --bins 2>"$log"; then
  cat "$log" >&2
  # where only the functions with the attribute do not compile, C24 says so and C27 decides anyhow
  bin=target/plain/debug
  if ! { [ "$1" = C24 ] || [ "$1" = C27 ]; } ||
    ! cargo build --offline --quiet --bins --no-default-features --target-dir target/plain 2>"$log"; then
    rm -f "$log"
    echo "check $1: the build failed" >&2
    exit 2
  fi
fi
rm -f "$log"
if [ "$1" = C26 ] && ! ../variants/build.sh; then
  echo "check $1: building the variants failed" >&2
  exit 2
fi
exec "$bin/harness" run "$1"
