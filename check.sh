#!/bin/bash
# check.sh <property> <tier>: builds every crate of /repo's working tree with the simulator, then searches.
cd "$(dirname "$0")" || exit 2
B=${VERIF_BUILD:-$PWD/.build}
export RUSTUP_TOOLCHAIN=nightly-2024-10-18 CARGO_TARGET_DIR="$B/target" CARGO_NET_OFFLINE=true
python3 build/gen.py || exit 2
build() { (cd "$B/ws" && cargo build --offline -q "$@" 2> ../build.log); }
if ! build --features vsim/macros; then
  # requests written with the macros (sim/src/macros.rs) no longer compile, or nothing does
  cp "$B/build.log" "$B/macros.log"
  if ! build; then tail -40 "$B/build.log"; echo "the build failed"; exit 2; fi
  if [ "$1" = C16 ]; then
    replays=${VERIF_REPLAYS:-$PWD/replays}; mkdir -p "$replays"
    { echo "cargo build --features vsim/macros, sim/src/macros.rs:"; head -c 20000 "$B/macros.log"; } > "$replays/C16-compile.txt"
    grep -m3 -A4 "^error" "$B/macros.log"
    "$B/target/debug/vsim" check C16 "${2:-quick}" > /dev/null
    echo "VIOLATION property=C16 replay=$replays/C16-compile.txt"
    exit 1
  fi
fi
[ "$1" = setup ] && exit 0
ulimit -v 25000000
exec "$B/target/debug/vsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
