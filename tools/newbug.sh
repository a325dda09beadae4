#!/bin/bash
# usage: newbug.sh <id>: takes the current change of /repo as the patch, main.rs from $2, meta.json from stdin
set -e
d=/verif/seeded/$1
mkdir -p "$d/demo/src"
git -C /repo diff > "$d/patch.diff"
cp -r /verif/tools/demo-base/stubs /verif/tools/demo-base/Cargo.toml /verif/tools/demo-base/Cargo.lock "$d/demo/"
cp /verif/tools/demo-base/src/rt.rs "$d/demo/src/"
cp "$2" "$d/demo/src/main.rs"
cp /verif/tools/demo-base/demo.sh "$d/demo.sh"
chmod +x "$d/demo.sh"
cat > "$d/meta.json"
