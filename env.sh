# For manual builds: . env.sh [nightly]
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
if [ "$1" = nightly ]; then
    export RUSTUP_TOOLCHAIN=nightly-2024-09-06 CARGO_TARGET_DIR=/verif/target/nightly
else
    export RUSTUP_TOOLCHAIN=1.81.0 CARGO_TARGET_DIR=/verif/target/stable
fi
