#!/usr/bin/env bash
# run.sh <PROP> <quick|thorough>            build from /repo's working tree and decide one property
# run.sh replay <PROP> <TIER> <SPACE> <IDX>  re-execute one case of a Rust-side space
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
cd "$VERIF_DIR" || exit 2
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
build_mc() {
  ( cd "$VERIF_DIR/mc" && cargo build --release --offline >"$VERIF_DIR/build/mc.log" 2>&1 ) || {
    echo "cannot build the explorer against /repo:"; grep -E '^error' -A5 "$VERIF_DIR/build/mc.log" | head -40; exit 2; }
}
# The Python package, built from /repo's working tree into a directory of its own.
PYTHON=/opt/pyenv/bin/python
build_py() {
  ( cd /repo/py-forust && PYO3_PYTHON=$PYTHON CARGO_TARGET_DIR="$VERIF_DIR/build/py-target" cargo build --release --offline >"$VERIF_DIR/build/py.log" 2>&1 ) || {
    echo "cannot build the Python extension from /repo:"; grep -E '^error' -A5 "$VERIF_DIR/build/py.log" | head -40; exit 2; }
  mkdir -p "$VERIF_DIR/build/pkg/forust"
  rm -rf "${VERIF_DIR:?}/build/pkg/forust"; mkdir -p "$VERIF_DIR/build/pkg/forust"
  cp /repo/py-forust/forust/*.py "$VERIF_DIR/build/pkg/forust/"
  cp "$VERIF_DIR/build/py-target/release/libforust.so" "$VERIF_DIR/build/pkg/forust/forust.so"
  export FORUST_PKG="$VERIF_DIR/build/pkg" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
  export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 RAYON_NUM_THREADS=2
}
mkdir -p build evidence replays
run_mc() {  # PROP TIER
  "$VERIF_DIR/mc/target/release/mc" "$1" "$2"
  local rc=$?
  if [ $rc -eq 134 ] || [ $rc -eq 139 ]; then
    # the code under test took the process down; believe it only if it happens again
    "$VERIF_DIR/mc/target/release/mc" "$1" "$2"; rc=$?
    if [ $rc -eq 134 ] || [ $rc -eq 139 ]; then
      echo "the process under exploration was aborted twice (exit $rc)" >"replays/$1-abort.txt"
      echo "VIOLATION property=$1 replay=$VERIF_DIR/replays/$1-abort.txt"; rc=1
    fi
  fi
  return $rc
}
if [ "${1:-}" = replay ]; then
  build_mc; shift
  case "$1" in C25|C26|C27|C28|C29|C32) build_py; exec $PYTHON py/run.py replay "$@" ;; esac
  exec "$VERIF_DIR/mc/target/release/mc" replay "$@"
fi
if [ "${1:-}" = setup ]; then build_mc; build_py; echo "built"; exit 0; fi
prop="${1:?property}"; tier="${2:-quick}"
case "$prop" in
  C25|C26|C27|C28|C29|C32) build_mc; build_py; $PYTHON py/run.py "$prop" "$tier"; exit $? ;;
  *) build_mc; run_mc "$prop" "$tier"; exit $? ;;
esac
