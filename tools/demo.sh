#!/bin/bash
# Builds demo.rs against the rstar in the current directory and runs it: exit 0 if it behaves.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rstar = { path = "$PWD/rstar", features = ["serde", "mint"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
mint = "0.5.9"
[profile.dev]
debug = 0
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline --quiet
