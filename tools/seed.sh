#!/bin/bash
# seed.sh <id>: assembles /verif/seeded/<id> around its main.rs (or demo.sh) and patch.diff; copies the demo kit in.
set -e
d=/verif/seeded/$1
mkdir -p "$d/kit/build" "$d/kit/sim/src"
cp /verif/build/gen.py "$d/kit/build/"
cp -r /verif/stubs "$d/kit/"
cp /verif/tools/kit/Cargo.toml "$d/kit/sim/"
cp /verif/tools/kit/src/kit.rs "$d/kit/sim/src/"
cp "$d/main.rs" "$d/kit/sim/src/main.rs"
rm "$d/main.rs"
cp /verif/tools/kit/demo.sh "$d/demo.sh"
chmod +x "$d/demo.sh"
