#!/bin/bash
# check.sh Pxx [--only CASE]
cd "$(dirname "$0")" && . ./env.sh
mkdir -p target evidence replays
id="$1"; shift
case "$id" in
P19) ;;
P08) need="harness py js" ;;
P21) need="harness py" ;;
P22) need="harness js" ;;
P23) need="harness py js" ;;
*) need=harness ;;
esac
case "$id" in
P19)
  bin=$(build_sched) || { echo "ERROR: build failed"; exit 2; }
  exec "$bin" run "$id" "$@" ;;
*)
  build $need || { echo "ERROR: build failed"; exit 2; }
  exec "$VERIF_DIR/target/h/release/mc" run "$id" "$@" ;;
esac
