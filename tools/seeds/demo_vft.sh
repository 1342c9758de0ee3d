#!/bin/bash
# Compiles the token program's sources in /repo against small stand-ins of its libraries and runs main.rs beside this file on them.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d); trap '/bin/rm -rf "$dir"' EXIT
cp -r /repo/extended-vft/app/src/services "$dir/"
cp "$here/main.rs" "$dir/"
find "$dir/services" -name '*.rs' -exec sed -i 's/#\[service[^]]*\]//; s/#\[derive(Encode, Decode, TypeInfo)\]//' {} +
export RUSTUP_TOOLCHAIN=1.81 PATH=/root/.cargo/bin:$PATH
cd "$dir" || exit 2
rustc -Awarnings --edition 2021 --crate-type rlib --crate-name gstd "$here/gstd.rs" &&
rustc -Awarnings --edition 2021 --crate-type rlib --crate-name sails_rs -L . --extern gstd=libgstd.rlib "$here/sails_rs.rs" &&
rustc -Awarnings --edition 2021 --crate-type rlib --crate-name vft_service -L . --extern gstd=libgstd.rlib --extern sails_rs=libsails_rs.rlib "$here/vft_service.rs" &&
rustc -Awarnings --edition 2021 -L . --extern gstd=libgstd.rlib --extern sails_rs=libsails_rs.rlib --extern vft_service=libvft_service.rlib main.rs -o demo || exit 2
timeout 60 ./demo
