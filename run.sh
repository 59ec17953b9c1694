#!/bin/bash
# run.sh build | run.sh ID [tier]: build the library from /repo's working tree in both profiles, then run the check
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS=-Awarnings CARGO_TERM_COLOR=never
[ -n "$2" ] && export VERIF_TIER="$2"
log=$(mktemp /tmp/vh-build.XXXXXX) || exit 2
( cd harness && cargo build --offline -q ) >"$log" 2>&1 &
a=$!
( cd harness && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/r" cargo build --offline -q --release ) >>"$log" 2>&1 &
b=$!
mkdir -p target
export VH_SHIM="$PWD/target/shim.so"
gcc -shared -fPIC -O1 -o "$VH_SHIM.$$" harness/shim.c -ldl >>"$log" 2>&1 && mv "$VH_SHIM.$$" "$VH_SHIM"; rc=$?
wait $a; ra=$?
wait $b; rb=$?
if [ $rc -ne 0 ] || [ $ra -ne 0 ] || [ $rb -ne 0 ]; then
  tail -40 "$log" >&2
  rm -f "$log"
  echo "error: the build failed" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$PWD/target/debug/vharness" check "$1" "$PWD/target/debug/vharness" "$PWD/target/r/release/vharness"
