# Sourced or run in /verif: builds the simulator against /repo's working tree.
# For C25 (PROP=C25) it is built so that it counts the basic blocks executed.
CARGO_TARGET_DIR="$PWD/sim/target"
export CARGO_TARGET_DIR
host=$(rustc -vV | sed -n 's/^host: //p')
log="$CARGO_TARGET_DIR/build$PROP.log"
mkdir -p "$CARGO_TARGET_DIR"
if [ "$PROP" = C25 ]; then
  # (with a target given, build scripts and macros are not instrumented)
  sim_build() {
    CARGO_TARGET_DIR="$CARGO_TARGET_DIR/steps" RUSTFLAGS="--cfg steps -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard" cargo build --release --offline --locked --target "$host"
  }
  SIM="$CARGO_TARGET_DIR/steps/$host/release/sim"
else
  sim_build() { cargo build --release --offline --locked; }
  SIM="$CARGO_TARGET_DIR/release/sim"
fi
if ! (cd sim && sim_build) >"$log" 2>&1; then
  tail -40 "$log"
  echo "ERROR: the simulator does not build against /repo"
  return 3 2>/dev/null || exit 3
fi
