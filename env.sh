# build settings shared by run.sh and setup.sh
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
export CARGO_TARGET_DIR="$PWD/target"
export MC_BIN="$CARGO_TARGET_DIR/bin"
mkdir -p "$MC_BIN"
build_harness() {
  (
    flock 9
    cd mc && cargo build --release --offline --locked --no-default-features --features "$1" &&
      cp -f "$CARGO_TARGET_DIR/release/mc" "$MC_BIN/mc-$1.tmp" && mv -f "$MC_BIN/mc-$1.tmp" "$MC_BIN/mc-$1"
  ) 9>"$MC_BIN/.lock"
}
