#!/bin/bash
# Builds the program from the current directory's tree in a scratch directory and runs the demonstration.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cp -r "$here/demo/." "$w/" || exit 2
sed "s#@REPO@#$repo#" "$here/demo/Cargo.toml" > "$w/Cargo.toml"
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" cargo +1.70.0 run --offline -q
