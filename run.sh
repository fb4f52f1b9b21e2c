#!/bin/bash
# usage: run.sh <property>            build from /repo's working tree and run one check
#        run.sh replay <file>         re-run a saved counterexample
#        run.sh build                 build only
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target" VERIF_DIR="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
( cd "$here/pbt" && cargo build --offline --locked -q ) >"$here/target.build.log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  grep -A15 "^error" "$here/target.build.log" | head -100 >&2
  echo "the harness does not build against /repo" >&2
  exit 3
fi
[ "${1:-}" = build ] && exit 0
exec "$here/target/debug/pbt" "$@"
