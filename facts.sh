#!/bin/bash
# Build the MIR fact extractor and dump facts for the crates of /repo.
# Usage: facts.sh <outdir> [repo]
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="$1"; REPO="${2:-/repo}"
CACHE="${VERIF_CACHE:-$HERE/.cache}"
mkdir -p "$OUT" "$CACHE"; OUT="$(realpath "$OUT")"; CACHE="$(realpath "$CACHE")"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
(cd "$HERE/driver" && cargo +nightly build --offline --locked -q --target-dir "$CACHE/driver") >"$CACHE/driver.log" 2>&1 || { cat "$CACHE/driver.log" >&2; exit 3; }
SYS="$(rustc +nightly --print sysroot)"
TD="$CACHE/target"
# cargo's freshness test must never hide a source change from us
rm -rf "$TD"/debug/.fingerprint/libopenraw-* "$TD"/debug/build/libopenraw "$TD"/debug/incremental
rm -f "$OUT"/*.json
LD_LIBRARY_PATH="$SYS/lib" MIRFACTS_CRATES=libopenraw MIRFACTS_OUT="$OUT" \
RUSTC_WORKSPACE_WRAPPER="$CACHE/driver/debug/mirfacts" CARGO_INCREMENTAL=0 \
 cargo +nightly check --manifest-path "$REPO/Cargo.toml" --target-dir "$TD" --locked --offline -q \
  --lib --features unstable-api,book >"$CACHE/check.log" 2>&1 || { tail -60 "$CACHE/check.log" >&2; exit 3; }
test -s "$OUT/libopenraw.json"
