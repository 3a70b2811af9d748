#!/bin/bash
# Builds the program under test (from /repo's working tree, hook on) and the model checker.
# Everything goes to /verif/target; nothing is written in /repo.
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
mkdir -p "$ROOT/target" "$ROOT/evidence" "$ROOT/replays"
exec 9>"$ROOT/target/.lock"
flock 9
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
# Rebuild the crate itself whatever the time stamps of its files say (its dependencies stay built).
find "$ROOT/target/sut/debug/.fingerprint" -maxdepth 1 -name 'accountmerge-*' -exec rm -rf {} + 2>/dev/null
LOG="$ROOT/target/build.log"
if ! CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
    cargo rustc --manifest-path /repo/Cargo.toml --offline --locked --bin accountmerge \
    --target-dir "$ROOT/target/sut" -- --cfg accountmerge_verif >"$LOG" 2>&1; then
  echo "building the program under test failed:"; tail -40 "$LOG"; exit 2
fi
if ! cargo build --offline --manifest-path "$ROOT/mc/Cargo.toml" --target-dir "$ROOT/target/mc" >"$LOG" 2>&1; then
  echo "building the model checker failed:"; tail -40 "$LOG"; exit 2
fi
if ! gcc -O1 -shared -fPIC -o "$ROOT/target/libfault.so" "$ROOT/shim/fault.c" -ldl >"$LOG" 2>&1 ||
   ! gcc -O1 -shared -fPIC -o "$ROOT/target/libseed.so" "$ROOT/shim/seed.c" -ldl >"$LOG" 2>&1 ||
   ! gcc -O1 -o "$ROOT/target/ocr.new" "$ROOT/shim/ocr.c" >"$LOG" 2>&1 || ! mv "$ROOT/target/ocr.new" "$ROOT/target/ocr"; then
  echo "building the shims failed:"; tail -40 "$LOG"; exit 2
fi
exec 9>&-
