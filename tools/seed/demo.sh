#!/bin/bash
# Builds demo.rs against the crates of the current directory (the repository) and runs it: exit 0 if all its assertions hold.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs" || exit 2
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<X
[package]
name = "harness"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
cv-core = { path = "$repo/cv-core", features = ["serde-serialize"] }
cv-geom = { path = "$repo/cv-geom" }
cv-pinhole = { path = "$repo/cv-pinhole", features = ["serde-serialize","alloc"] }
cv-optimize = { path = "$repo/cv-optimize" }
eight-point = { path = "$repo/eight-point" }
lambda-twist = { path = "$repo/lambda-twist" }
nister-stewenius = { path = "$repo/nister-stewenius" }
arrayvec = { version = "0.7.2", default-features = false }
num-traits = { version = "0.2.14", features = ["std"] }
X
cd "$w" && CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true cargo run --offline -q
