#!/bin/bash
# Builds the libraries of the current directory's tree with the demonstration program beside this script and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf -- "${work:?}"' EXIT
cp -r "$here/kit" "$work/kit" || exit 3
export VERCRE_REPO="$PWD" VERIF_BUILD="$work/build" CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=nightly-2024-10-18
python3 "$work/kit/build/gen.py" || exit 3
(cd "$work/build/ws" && cargo build --offline -q 2> "$work/log") || { tail -30 "$work/log"; exit 3; }
timeout 60 "$work/target/debug/vsim"
