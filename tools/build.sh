#!/bin/bash
# Builds what the checks run, from /repo's working tree and the committed files here, offline.
# Sets NAT, PKG (empty if that build failed) and ORCH. Sourced by check.sh, replay.sh and setup.sh.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export RUSTUP_TOOLCHAIN="${SIM_TOOLCHAIN:-1.98.0}" CARGO_NET_OFFLINE=true RUSTFLAGS=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
export CARGO_INCREMENTAL=0
T="$V/target"
mkdir -p "$T" "$V/evidence" "$V/replays"
WBG=/opt/vp/wbg/bin/wasm-bindgen
[ -x "$WBG" ] || WBG="$(command -v wasm-bindgen || true)"

(
  flock 9
  # never trust a time stamp for the code under test
  rm -rf "$T"/nat/release/.fingerprint/bq2cst-* "$T"/wasm/wasm32-unknown-unknown/release/.fingerprint/bq2cst-*
  rm -f "$T"/nat.ok "$T"/wasm.ok "$T"/orch.ok
  (cd "$V/orch" && CARGO_TARGET_DIR="$T/orch" cargo build --release --locked >"$T/orch.log" 2>&1 && touch "$T/orch.ok") &
  (cd "$V/nat" && RUSTC_WRAPPER="$V/tools/rustc-sim.sh" CARGO_TARGET_DIR="$T/nat" cargo build --release --locked >"$T/nat.log" 2>&1 && touch "$T/nat.ok") &
  (cd "$V/simwasm" && SIM_WASM=1 RUSTFLAGS="-Clink-arg=--export=__stack_pointer -Clink-arg=--export=__wasm_call_ctors" RUSTC_WRAPPER="$V/tools/rustc-sim.sh" CARGO_TARGET_DIR="$T/wasm" \
      cargo build --release --locked --target wasm32-unknown-unknown >"$T/wasm.log" 2>&1 \
    && "$WBG" --target nodejs --no-typescript --out-dir "$T/wasm/pkg" "$T/wasm/wasm32-unknown-unknown/release/simwasm.wasm" >>"$T/wasm.log" 2>&1 \
    && touch "$T/wasm.ok") &
  wait
) 9>"$T/lock"
ORCH="$T/orch/release/orch"
NAT=""; PKG=""
[ -e "$T/nat.ok" ] && NAT="$T/nat/release/nat"
[ -e "$T/wasm.ok" ] && PKG="$T/wasm/pkg"
if [ ! -e "$T/orch.ok" ]; then tail -20 "$T/orch.log" >&2; echo "cannot build the simulator" >&2; exit 2; fi
if [ -z "$NAT$PKG" ]; then tail -30 "$T/nat.log" "$T/wasm.log" >&2; echo "cannot build the code under test" >&2; exit 2; fi
[ -n "$NAT" ] || { echo "note: no native build; see $T/nat.log" >&2; tail -15 "$T/nat.log" >&2; }
[ -n "$PKG" ] || { echo "note: no WebAssembly build; see $T/wasm.log" >&2; tail -15 "$T/wasm.log" >&2; }
ARGS=(--worker "$V/node/worker.js" --corpus "$V/corpus/seed.json")
[ -n "$NAT" ] && ARGS+=(--nat "$NAT")
[ -n "$PKG" ] && ARGS+=(--pkg "$PKG")
