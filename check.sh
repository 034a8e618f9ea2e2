#!/bin/bash
# check.sh PROPERTY quick|thorough : builds the explorer against /repo's working tree and runs it.
# check.sh build                   : only builds.
# mc/ holds the explorer of every property but B01, which gen/ explores.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. /opt/vp/env.sh 2>/dev/null
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.82.0}" TERM=dumb CARGO_NET_OFFLINE=true
mkdir -p evidence
build() {
  if ! (cd "$1" && shift && cargo build --offline --locked "$@" >"$VERIF_ROOT/evidence/build.log" 2>&1); then
    tail -40 evidence/build.log
    echo "ERROR: the build failed"
    exit 2
  fi
}
build_mc() {
  export CARGO_TARGET_DIR="$VERIF_ROOT/target"
  build mc --profile mc
}
build_gen() {
  export CARGO_TARGET_DIR="$VERIF_ROOT/target/gen"
  build gen
}
case "$1" in
build)
  build_gen
  "$CARGO_TARGET_DIR/debug/gen" prepare || exit 2
  build_mc
  ;;
B01)
  build_gen
  exec "$CARGO_TARGET_DIR/debug/gen" B01 "${2:-quick}"
  ;;
*)
  build_mc
  exec "$CARGO_TARGET_DIR/mc/mc" "$1" "${2:-quick}"
  ;;
esac
