#!/bin/bash
set -e
cd "$(dirname "$0")"
./build.sh driver 2>&1 | tail -3
./build.sh rep >/dev/null 2>&1 &
P=$!
./build.sh sym >/dev/null 2>&1
wait $P
ls -la .build/sym/debug/harness_sym .build/rep/debug/harness_rep
