#!/bin/bash
# Rebuild the extractor if needed and dump the MIR of /repo's current tree to $1 (default build/dump.json).
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=${1:-$V/build/dump.json}
SRC=${2:-/repo}
NB=${3:-$V/build/nb}
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= 
mkdir -p "$V/build"
( flock 9
cd "$V/mirdump" && cargo +nightly build --release --offline --target-dir "$V/build/mirdump" >"$V/build/mirdump.log" 2>&1 || { cat "$V/build/mirdump.log"; exit 3; }
NR=$(rustup which rustc --toolchain nightly); SR=$(rustc +nightly --print sysroot)
cd "$SRC"
rm -rf "$NB"/debug/.fingerprint/magicblock-delegation-program-*
LD_LIBRARY_PATH=$SR/lib RUSTUP_TOOLCHAIN=1.84.1 RUSTC=$NR RUSTC_WORKSPACE_WRAPPER=$V/build/mirdump/release/mirdump CARGO_TARGET_DIR="$NB" RUSTFLAGS="-Zalways-encode-mir" MIRDUMP_OUT="$OUT" MIRDUMP_CRATE=dlp MIRDUMP_STOP=$V/mirdump/stop.txt cargo check --lib --offline --locked >"$V/build/dump.log" 2>&1 || { cat "$V/build/dump.log"; exit 3; }
) 9>"$V/build/.lock"
