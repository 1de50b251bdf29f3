#!/bin/bash
# check.sh PNN          decide one property on /repo's current tree (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE  play a replay file again
# check.sh setup        build only
# check.sh selftest     determinism self-test of the simulator
set -u
here=$(cd "$(dirname "$0")" && pwd)
export SIM_ROOT=$here
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$here/build/native
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
mkdir -p "$here/build" "$here/evidence" "$here/replays"

build() {
  exec 9>"$here/build/lock"
  flock 9
  # Cargo goes by modification times; go by contents as well.
  local sum
  sum=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; cd "$here/sim" && find src data Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum)
  if [ "$(cat "$here/build/sum" 2>/dev/null)" != "$sum" ] || [ ! -x "$here/build/native/release/sim" ]; then
    rm -f "$here/build/sum"
    (cd "$here/sim" && cargo clean -q --offline --release -p text_encoding -p sim; CARGO_TARGET_DIR=$here/build/miri cargo clean -q --offline) >/dev/null 2>&1
    if ! (cd "$here/sim" && cargo build -q --release --offline) >"$here/build/log" 2>&1; then
      cat "$here/build/log"
      echo "BUILD-ERROR: the simulator does not build against /repo"
      exit 2
    fi
    echo "$sum" >"$here/build/sum"
  fi
  flock -u 9
  exec 9>&-
}

case "${1:-}" in
  P[0-9][0-9]) build; exec "$here/build/native/release/sim" check "$1" ;;
  replay) build; exec "$here/build/native/release/sim" replay "$2" ;;
  setup) build; exit 0 ;;
  selftest) build; exec bash "$here/tools/selftest.sh" ;;
  *) echo "usage: $0 PNN | replay FILE | setup | selftest"; exit 2 ;;
esac
