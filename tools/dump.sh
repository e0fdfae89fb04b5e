#!/bin/bash
# dump.sh OUT.json [dev|release]: MIR + item tables of /repo's current tree.
set -u
OUT="$(realpath -m "$1")"; MODE="${2:-dev}"
HERE="$(cd "$(dirname "$0")/.." && pwd)"
CACHE="${BINATE_CACHE:-$HERE/.cache}"
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$CACHE/target"
DRV="$CACHE/driver/release/mirdump"
mkdir -p "$CACHE"
if [ ! -x "$DRV" ] || [ "$HERE/driver/src/dump.rs" -nt "$DRV" ] || [ "$HERE/driver/src/main.rs" -nt "$DRV" ]; then
  (cd "$HERE/driver" && CARGO_TARGET_DIR="$CACHE/driver" cargo +nightly build --release --offline >"$CACHE/driver.log" 2>&1) || { tail -30 "$CACHE/driver.log" >&2; exit 3; }
fi
FLAGS=""; PROF=debug
[ "$MODE" = release ] && { FLAGS="--release"; PROF=release; }
rm -rf "$CACHE/target/$PROF/.fingerprint"/binate-* "$CACHE/target/$PROF/build/binate"
export CARGO_INCREMENTAL=0
rm -f "$OUT"
export MIRDUMP_OUT="$OUT" MIRDUMP_CRATE=binate
export MIRDUMP_ALLOW="alloc::boxed::iter::"
export RUSTC_WORKSPACE_WRAPPER="$DRV"
cd "${BINATE_REPO:-/repo}" && cargo +nightly check --offline $FLAGS -p binate --lib --all-features >"$CACHE/check-$MODE.log" 2>&1 || { tail -40 "$CACHE/check-$MODE.log" >&2; exit 2; }
[ -s "$OUT" ] || { echo "no dump written" >&2; exit 3; }
