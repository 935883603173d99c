#!/bin/bash
# Builds the program next to this script against the tree in the current directory and runs it: exit 0 when it behaves.
set -e
repo=$(pwd)
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/rs/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
glicol = { path = "$repo/rs/main", features = ["use-samples", "use-meta"] }
glicol_synth = { path = "$repo/rs/synth" }
hashbrown = "*"
glicol_parser = { path = "$repo/rs/parser" }
[profile.dev]
debug = false
[workspace]
T
cd "$work"
CARGO_TARGET_DIR="$work/target" timeout 280 cargo build --offline --quiet 2> "$work/log" || { tail -20 "$work/log"; exit 3; }
timeout 60 "$work/target/debug/demo"
