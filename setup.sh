#!/bin/bash
# Builds the harness once (every check rebuilds it against the current tree anyway).
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence target
cd mc && cargo build --release --offline
