# common environment of setup and checks
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export RUSTUP_TOOLCHAIN=1.99.1
export CARGO_NET_OFFLINE=true
export PATH="/opt/vp/tools/bin:$PATH"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# build with the harness's own lock file; retry once in case of a transient lock/clock problem
build_harness() {
  ( cd "$VERIF_DIR/harness" && CARGO_TARGET_DIR="$VERIF_DIR/target/h" cargo build --release --offline --quiet 2>"$VERIF_DIR/target/h.log" ) || {
    grep -E '^error' -A12 "$VERIF_DIR/target/h.log" | head -60; return 1; }
}
# build_sched: prints the name of the binary built (substitute group, or the real one where that does not compile)
build_sched() {
  local k
  for k in toy real; do
    ( cd "$VERIF_DIR/sched/mcs_$k" && CARGO_TARGET_DIR="$VERIF_DIR/target/s" cargo build --release --offline --quiet 2>"$VERIF_DIR/target/s_$k.log" ) && { echo "$VERIF_DIR/target/s/release/mcs_$k"; return 0; }
  done
  grep -E '^error' -A12 "$VERIF_DIR/target/s_toy.log" | head -60 >&2; return 1
}
# build_py: the Python module, in target/py
build_py() {
  ( cd /repo && CARGO_TARGET_DIR="$VERIF_DIR/target/pyb" cargo build --release --offline --quiet --lib --features python 2>"$VERIF_DIR/target/py.log" ) || {
    grep -E '^error' -A12 "$VERIF_DIR/target/py.log" | head -60; return 1; }
  mkdir -p "$VERIF_DIR/target/py" && cp "$VERIF_DIR/target/pyb/release/libcosmian_abe_gpsw.so" "$VERIF_DIR/target/py/cosmian_abe_gpsw.so"
}
# build_js: the WebAssembly module, in target/node
build_js() {
  ( cd /repo && CARGO_TARGET_DIR="$VERIF_DIR/target/jsb" cargo build --release --offline --quiet --lib --features wasm_bindgen --target wasm32-unknown-unknown 2>"$VERIF_DIR/target/js.log" &&
    wasm-bindgen --target nodejs --out-dir "$VERIF_DIR/target/node" "$VERIF_DIR/target/jsb/wasm32-unknown-unknown/release/cosmian_abe_gpsw.wasm" 2>>"$VERIF_DIR/target/js.log" ) || {
    grep -E '^error' -A12 "$VERIF_DIR/target/js.log" | head -60; return 1; }
}
# build NAME…: several of them at a time
build() {
  local p=() n r=0
  for n in "$@"; do build_$n & p+=($!); done
  for n in "${p[@]}"; do wait "$n" || r=1; done
  return $r
}
[ -f /repo/Cargo.lock ] || cp "$VERIF_DIR/harness/repo.lock" /repo/Cargo.lock # ignored by git; pins the offline versions
