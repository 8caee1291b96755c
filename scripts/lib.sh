# Sourced by check.sh and replay.sh.
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints warn"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
VERIF_DIR=$(dirname "$(dirname "$(readlink -f "${BASH_SOURCE[0]}")")")
export VERIF_DIR
TOOLS="crox flamegraph mmedit mmview stack_collapse summarize"
needs_tools() { case "$1" in C09|C13|C14|C15|C16|C17|C18|C19|C20|C25|C26|C27) return 0;; *) return 1;; esac; }

build_vh() {
  ( cd "$VERIF_DIR/harness" && cargo build --offline --quiet --target-dir "$VERIF_DIR/target/h" ) >"$VERIF_DIR/target/build-h.log" 2>&1 ||
    { tail -40 "$VERIF_DIR/target/build-h.log" >&2; echo "HARNESS-ERROR: harness does not build" >&2; return 1; }
}
build_vs() {
  # Against the controllable locks; if the code needs something they lack, against the real ones.
  VS=s
  ( cd "$VERIF_DIR/shuttle" && cargo build --offline --quiet --target-dir "$VERIF_DIR/target/s" ) >"$VERIF_DIR/target/build-s.log" 2>&1 && return 0
  VS=sr
  ( cd "$VERIF_DIR/shuttle/real" && cargo build --offline --quiet --target-dir "$VERIF_DIR/target/sr" ) >>"$VERIF_DIR/target/build-s.log" 2>&1 ||
    { tail -40 "$VERIF_DIR/target/build-s.log" >&2; echo "HARNESS-ERROR: shuttle harness does not build" >&2; return 1; }
}
build_tools() {
  [ -e /repo/Cargo.lock ] || cp "$VERIF_DIR/harness/Cargo.lock.repo" /repo/Cargo.lock
  local p=""; for t in $TOOLS; do p="$p -p $t"; done
  ( cd /repo && CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 \
    cargo build --offline --quiet $p --target-dir "$VERIF_DIR/target/tools" ) >"$VERIF_DIR/target/build-t.log" 2>&1 ||
    { tail -40 "$VERIF_DIR/target/build-t.log" >&2; echo "HARNESS-ERROR: the tools do not build" >&2; return 1; }
}
build_shim() {
  cc -O1 -shared -fPIC -o "$VERIF_DIR/target/shim.so" "$VERIF_DIR/harness/shim.c" ||
    { echo "HARNESS-ERROR: the shim does not build" >&2; return 1; }
}
build_for() {
  mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/evidence"
  case "$1" in
    C02) build_vs;;
    *) build_vh || return 1; if needs_tools "$1"; then build_tools && build_shim || return 1; fi;;
  esac
}
exec_for() { # ID MODE [file]
  local id=$1; shift
  export VH_TOOLS="$VERIF_DIR/target/tools/debug" VH_SHIM="$VERIF_DIR/target/shim.so"
  case "$id" in
    C02) exec "$VERIF_DIR/target/$VS/debug/vs" "$1" "$id" "${@:2}";;
    *) exec "$VERIF_DIR/target/h/debug/vh" "$1" "$id" "${@:2}";;
  esac
}
