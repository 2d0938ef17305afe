#!/bin/sh
# usage: run.sh <ID> [thorough]   -- rebuild the explorer against /repo's working tree and run one check
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
if ! (cd mc && cargo build --offline --locked -q) 2>evidence.build.log; then
  cat evidence.build.log >&2; rm -f evidence.build.log
  echo "build of the harness failed" >&2
  exit 3
fi
rm -f evidence.build.log
[ "$1" = setup ] && exit 0
exec ./mc/target/debug/mc check "$@"
