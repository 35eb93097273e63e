#!/bin/bash
# replay.sh FILE: run the execution recorded in a replay file again.
set -e
prop=$(sed -n 's/^property: //p' "$1"); set -- "$1" $(sed -n 's/^harness: //p' "$1")
here=$(dirname "$(readlink -f "$0")")
t=stable; f=; case $3 in nightly*) t=nightly; f="--features nightly";; esac
p=dev; d=debug; case $2 in obj_*|share|derive|proc|ptrs|calls) p=objs; d=objs;; esac
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=$3 CARGO_TARGET_DIR=$here/target/$t MC_LOUD=1
cargo build --offline --quiet --manifest-path "$here/mc/Cargo.toml" --bin "$2" --profile $p $f
exec "$CARGO_TARGET_DIR/$d/$2" --prop "$prop" --tier thorough --replay "$1"
