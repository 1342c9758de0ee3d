#!/bin/bash
# Runs main.rs beside this file against the contract and libraries that build.sh built.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.81
export PATH=/root/.cargo/bin:$PATH
ws=/opt/vara-ws/target/debug/deps
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here"/*.rs "$tmp"/
cd "$tmp"
if [ -f token.rs ]; then
    rustc --target wasm32-unknown-unknown --crate-type cdylib -O -C panic=abort -C strip=symbols -C link-arg=--import-memory \
        -C target-feature=-sign-ext,-mutable-globals,-bulk-memory token.rs -o token.wasm
    export TOKEN_WASM=$tmp/token.wasm
fi
x=""
for c in gtest io contracts math decimal sails_rs; do
    f=$(ls -t $ws/lib$c-*.rlib | head -1)
    x="$x --extern $c=$f"
done
rustc --edition 2021 -Awarnings -L dependency=$ws $x -o demo main.rs
timeout 200 ./demo > out.txt 2>&1 && r=0 || r=$?
tail -5 out.txt
exit $r
