#!/bin/bash
# Builds the program beside this file against /repo and runs it: 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/.cargo"
cp "$here/Cargo.toml.in" "$work/Cargo.toml"
cp "$here/Cargo.lock.in" "$work/Cargo.lock"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/util.rs" "$work/src/util.rs"
printf '[build]\nrustflags = ["--cfg", "tokio_unstable", "--cfg", "tracing_unstable", "--cfg", "reqwest_unstable"]\n[net]\noffline = true\n' > "$work/.cargo/config.toml"
cd "$work" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$work/target"
cargo build -q --offline 2>"$work/build.log" || { tail -30 "$work/build.log"; exit 3; }
timeout 60 "$work/target/debug/demo"
