#!/bin/bash
# check.sh ID quick|thorough: rebuilds the simulator against /repo's working tree and decides one property.
# check.sh build: only builds.   check.sh replay FILE: replays a reported violation.
cd "$(dirname "$0")" || exit 2
here=$PWD
export CARGO_TARGET_DIR=$here/target CARGO_NET_OFFLINE=true RUSTC_WRAPPER=$here/sim/rustc.sh
build() {
  # The library under test is always rebuilt: time stamps in copies of a tree are not to be trusted.
  local d
  for d in "$here"/target/release/.fingerprint/osmpbf-*; do [ -d "$d" ] && rm -rf -- "$d"; done
  (cd sim && cargo build --release --offline --locked) >"$here/target.log" 2>&1 || {
    tail -n 60 "$here/target.log" >&2
    echo "check.sh: the simulator does not build against /repo" >&2
    return 1
  }
}
build || exit 2
case "$1" in
  build) exit 0 ;;
  replay) exec "$here/target/release/osmsim" replay "$2" ;;
  *) exec "$here/target/release/osmsim" check "$1" "${2:-quick}" ;;
esac
