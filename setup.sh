#!/bin/bash
# Builds the monitors from /repo's working tree, offline.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
mkdir -p evidence replays
cd harness && cargo build -q --workspace --exclude vh-prf && cargo build -q --profile proof -p vh-prf
