#!/bin/bash
# builds the simulator against /repo's working tree; prints nothing unless it fails
# build.sh [main|alt|all]: the default features, the other configuration (no rayon, indexmap) or both
what=${1:-all}
set -e
. /opt/vp/env.sh 2>/dev/null || true
here=$(cd "$(dirname "$0")" && pwd)
T=${WZSIM_TARGET:-$here/target}
mkdir -p "$T"
exec 9>"$T/.lock"; flock 9
export WZSIM_STD=$T/libsimstd.rlib CARGO_TARGET_DIR=$T RUSTC_WRAPPER=$here/sim/wrap.sh CARGO_NET_OFFLINE=true
sum=$(cat "$here"/sim/simstd/*.rs "$here"/sim/wrap.sh | sha256sum | cut -c1-16)
if [ ! -f "$WZSIM_STD" ] || [ "$(cat "$T/.simstd" 2>/dev/null)" != "$sum" ]; then
  (cd "$here/sim/simstd" && rustc --edition 2021 -O --cap-lints allow --crate-type rlib --crate-name simstd lib.rs -o "$WZSIM_STD")
  for t in "$T" "$T/alt"; do
    (cd "$here/sim/harness" && cargo clean -q --offline --target-dir "$t" -p wz_reader -p rayon-core -p rayon -p image -p wzsim >/dev/null 2>&1 || true)
  done
  echo "$sum" > "$T/.simstd"
fi
cd "$here/sim/harness"
if [ "$what" != alt ]; then
  cargo build -q --release --offline >"$T/build.log" 2>&1 || { cat "$T/build.log"; exit 3; }
fi
if [ "$what" != main ]; then
  cargo build -q --profile alt --offline --no-default-features --features alt --target-dir "$T/alt" >"$T/build.log" 2>&1 || { cat "$T/build.log"; exit 3; }
  mkdir -p "$T/release"
  cmp -s "$T/alt/alt/wzsim" "$T/release/wzsim-alt" || { cp "$T/alt/alt/wzsim" "$T/release/wzsim-alt.new"; mv "$T/release/wzsim-alt.new" "$T/release/wzsim-alt"; }
fi
