#!/bin/bash
# run.sh build            builds the simulator from /repo's current working tree
# run.sh C01 [options]    builds it if needed, then runs the check of that property (options: see sim/src/main.rs)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
V=$PWD
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$V/sim/tools/rustc-wrap.sh" CARGO_TARGET_DIR="$V/.build" RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p .build
exec 9>.build/lock
flock 9
# what the binary is made of (contents, not times)
h=$( (find /repo/src /repo/rules /repo/Cargo.toml sim/src sim/tools sim/Cargo.toml sim/Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum; rustc --version) | sha256sum)
if [ ! -x .build/debug/rphsim ] || [ "$h" != "$(cat .build/stamp 2>/dev/null)" ]; then
  rm -f .build/stamp
  for d in .build/debug/.fingerprint/rphonetic-* .build/debug/.fingerprint/rphsim-*; do
    [ -d "$d" ] && rm -rf "$V/${d}"
  done
  if ! (cd sim && cargo build --offline) >.build/build.log 2>&1; then
    cat .build/build.log >&2
    echo "the simulator does not build against /repo" >&2
    exit 2
  fi
  echo "$h" >.build/stamp
fi
flock -u 9
exec 9>&-
[ "$1" = build ] && exit 0
exec .build/debug/rphsim "$@"
