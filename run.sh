#!/bin/bash
# run.sh build | <property> [quick|thorough] | replay FILE
# Builds the harness against /repo's current working tree and runs one check.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO=/repo
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL RUSTC_WRAPPER
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$ROOT/target"
SEED="${VERIF_SEED:-1}"
mkdir -p "$ROOT/target" "$ROOT/tmp" "$ROOT/evidence"

# cargo decides staleness by modification times; decide it by content as well
repo_hash() {
  (cd "$REPO" && find Cargo.toml src fuzz-utils/src fuzz-utils/Cargo.toml -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
}
build() {
  exec 9>"$ROOT/target/.lock"
  flock 9
  local h old
  h="$(repo_hash)"
  old="$(cat "$ROOT/target/.repohash" 2>/dev/null)"
  if [ "$h" != "$old" ]; then
    rm -f "$ROOT/target/.repohash"
    if [ -n "$old" ] || [ -d "$ROOT/target/release" ]; then
      (cd "$ROOT/harness" && cargo clean --offline --release -p sherman -p harness >/dev/null 2>&1)
    fi
  fi
  (cd "$ROOT/harness" && cargo build --offline --release 2>"$ROOT/tmp/build.log")
  if [ $? -ne 0 ]; then
    tail -60 "$ROOT/tmp/build.log" >&2
    echo "ERROR: the harness does not build against $REPO" >&2
    exit 2
  fi
  echo "$h" >"$ROOT/target/.repohash"
  exec 9>&-
}

case "${1:-}" in
  build) build; python3 "$ROOT/checks/ext.py" build && python3 "$ROOT/checks/layer.py" build && python3 "$ROOT/checks/confdiff.py" build ;;
  replay)
    if grep -q '^engine markers' "$2"; then exec python3 "$ROOT/checks/markers.py" replay "$2"; fi
    if grep -q '^engine lifetimes' "$2"; then exec python3 "$ROOT/checks/lifetimes.py" replay "$2"; fi
    if grep -q '^engine confdiff' "$2"; then exec python3 "$ROOT/checks/confdiff.py" replay "$2"; fi
    if grep -q '^engine cmdfuzz' "$2"; then exec python3 "$ROOT/checks/layer.py" replay "$2"; fi
    build
    if grep -q '^engine ' "$2"; then exec python3 "$ROOT/checks/ext.py" replay "$2"; fi
    exec "$ROOT/target/release/harness" replay "$2" --root "$ROOT" ;;
  C23) exec python3 "$ROOT/checks/layer.py" check C23 "${2:-quick}" ;;
  C25) exec python3 "$ROOT/checks/confdiff.py" check C25 "${2:-quick}" ;;
  C27) exec python3 "$ROOT/checks/lifetimes.py" check C27 "${2:-quick}" ;;
  C24) exec python3 "$ROOT/checks/markers.py" check C24 "${2:-quick}" ;;
  C*)
    build
    case "$1" in
      C10|C21) exec python3 "$ROOT/checks/ext.py" check "$1" "${2:-quick}" ;;
    esac
    exec "$ROOT/target/release/harness" check "$1" --tier "${2:-quick}" --seed "$SEED" --root "$ROOT" ;;
  *) echo "usage: run.sh build | C01.. [quick|thorough] | replay FILE" >&2; exit 2 ;;
esac
