#!/bin/bash
# Run in a checkout of osmpbf. Exit 0 if the demonstrated behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" "$d/scratch"
cp "$here/main.rs" "$here/pbf.rs" "$d/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
osmpbf = { path = "$repo" }
flate2 = { version = "1", default-features = false, features = ["rust_backend"] }
rayon = "1"
[profile.dev]
debug = false
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline -q || exit 2
SCRATCH="$d/scratch" timeout 120 "$d/target/debug/demo"
