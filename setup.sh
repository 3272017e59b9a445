#!/bin/bash
# builds the framework offline
cd "$(dirname "$0")" && . ./env.sh
mkdir -p target evidence replays
build harness py js && build_sched >/dev/null
