#!/bin/bash
# check.sh <property> quick|thorough: rebuilds the harness against /repo's working tree and decides the property.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence target
log=$(mktemp)
build() { (cd mc && cargo build --release --offline "$@" >"$log" 2>&1); }
# where the SDK's core or the token program does not build, only their own properties cannot be decided
case "$1" in E*) alone="--features sdk" ;; T*) alone="--features token" ;; *) alone= ;; esac
if ! build && ! build --no-default-features $alone; then
    tail -40 "$log" >&2; rm -f "$log"; echo "harness: build failed" >&2; exit 2
fi
rm -f "$log"
exec target/release/mc check "$1" "${2:-${VERIF_TIER:-quick}}"
