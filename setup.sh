#!/bin/bash
# warms the build cache for all builds of the monitor
cd "$(dirname "$0")" || exit 2
export VERIF_BUILD_ONLY=1
./run.sh C01 && ./run.sh C22 && ./run.sh C29 && ./run.sh C30 && ./run.sh C31
