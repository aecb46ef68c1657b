#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it, in a scratch directory.
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here"/*.rs "$scratch/src/"
cp "$repo/Cargo.lock" "$scratch/"
cat > "$scratch/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "src/demo.rs"
[dependencies]
engineering = { path = "$repo" }
bitset-fixed = "0.1.0"
parking_lot = "0.12.0"
rustc-hash = "1.1.0"
[workspace]
[profile.dev]
opt-level = 1
debug = false
END
unset CARGO_TARGET_DIR
(cd "$scratch" && cargo build --offline -q) > "$scratch/log" 2>&1 || { tail -40 "$scratch/log"; echo "the demonstration does not build"; exit 3; }
cd "$scratch" && timeout 240 "$scratch/target/debug/demo"
