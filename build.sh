#!/bin/bash
# Build the simulator and the code under test from /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
export CARGO_TARGET_DIR=$here/target
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=0
export CARGO_PROFILE_DEV_OPT_LEVEL=1
export CARGO_PROFILE_DEV_BUILD_OVERRIDE_OPT_LEVEL=0
export CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true
unset RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p target
log=target/build.log
(
  # the random circuits that are built into the simulator library
  rustc --edition 2021 -A warnings -O -o target/hclgen dst/src/hclgen.rs &&
  ./target/hclgen ${DST_CIRCUITS:-48} > target/circuits.new || exit 2
  cmp -s target/circuits.new target/circuits.rs || mv target/circuits.new target/circuits.rs
  rm -f target/circuits.new
  export Y86_DST_CIRCUITS=$here/target/circuits.rs
  # cargo goes by modification times; make sure by content
  stamp=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.pest' -o -name '*.toml' -o -name Cargo.lock \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$stamp" != "$(cat target/repo.stamp 2>/dev/null)" ]; then
    rm -f target/repo.stamp
    for d in target target/bins; do
      if [ -d $d/debug ]; then
        CARGO_TARGET_DIR=$d cargo clean --offline --manifest-path /repo/Cargo.toml -p y86-sim -p y86-dbg -p sim_macro -p binutils
      fi
    done
  fi
  # the tools, as they are shipped except for the guarded hooks
  RUSTFLAGS="--cfg y86_dst" CARGO_TARGET_DIR=$here/target/bins \
    cargo build --offline --manifest-path /repo/Cargo.toml --bins > target/bins.log 2>&1 &
  bins=$!
  export RUSTFLAGS="--cfg y86_dst --cfg y86_dst_circuits"
  if ! cargo build --offline --manifest-path dst/Cargo.toml > target/circuits.log 2>&1; then
    cat target/circuits.log
    # refused by the compiler, and not for want of memory: only C16 needs them
    grep -q '^error' target/circuits.log && ! grep -q 'signal: ' target/circuits.log || { wait; exit 2; }
    export RUSTFLAGS="--cfg y86_dst"
    cargo build --offline --manifest-path dst/Cargo.toml || exit 2
  fi
  wait $bins || { cat target/bins.log; exit 2; }
  cp -f target/bins/debug/{yas,yis,ysim,ydb} target/debug/ || exit 2
  echo "$stamp" > target/repo.stamp
) > "$log" 2>&1 || { tail -n 40 "$log" >&2; echo "build failed" >&2; exit 2; }
