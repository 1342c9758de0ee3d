#!/bin/bash
# Runs main.rs beside this file against the SDK core that build.sh built.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.81
export PATH=/root/.cargo/bin:$PATH
ws=/opt/vara-ws/target-sdk/debug/deps
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here"/*.rs "$tmp"/
cd "$tmp"
x=""
for c in invariant_vara_wasm decimal traceable_result; do
    f=$(ls -t $ws/lib$c*.rlib | head -1)
    x="$x --extern $c=$f"
done
rustc --edition 2021 -Awarnings -L dependency=$ws $x -o demo main.rs
timeout 200 ./demo > out.txt 2>&1 && r=0 || r=$?
tail -5 out.txt
exit $r
