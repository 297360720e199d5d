#!/bin/bash
# Usage: check.sh <PROPERTY> [harness arguments]
# Rebuilds the monitor of one property against /repo's working tree and runs it.
# Exit 0: held on everything explored. 1: VIOLATION printed. Anything else: the check itself failed.
cd /verif || exit 2
ID="$1"; shift
export HOME=/root PATH=/root/.cargo/bin:$PATH VP_ROOT=/verif
unset RUSTFLAGS CARGO_BUILD_TARGET
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= PYO3_PYTHON=/usr/bin/python3
export CARGO_TARGET_DIR=/verif/target
PROFILE="${VP_PROFILE:-vp}"
if [ "$ID" = --setup ]; then
  mkdir -p /verif/target /verif/evidence /verif/replays
  # What is built here are the dependencies: every check builds the library and its own program anew.
  for profile in "$PROFILE" vprel; do
    cargo build --offline --locked --manifest-path /verif/harness/Cargo.toml --profile "$profile" --bin c01 || exit $?
  done
  cargo build --offline --locked --manifest-path /verif/harness_ext/Cargo.toml --profile "$PROFILE" --bin c26 || exit $?
  exec python3 /verif/tools/san.py --setup
fi
if [ "$ID" = C23 ] || [ "$ID" = C24 ]; then
  # Sanitizers and interpreter.
  mkdir -p /verif/target /verif/evidence /verif/replays
  exec python3 /verif/tools/san.py "$ID" "$@"
fi
crate=harness
case "$ID" in C26|C27) crate=harness_ext;; esac
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p /verif/target /verif/evidence /verif/replays
build() { # profile
  # Never trust modification times for the code under test.
  find /verif/target/"$1"/.fingerprint -maxdepth 1 -name 'portgraph-*' -exec rm -rf {} + 2>/dev/null
  local log=/verif/target/build-$bin-$1.log
  if ! cargo build --offline --locked --manifest-path /verif/$crate/Cargo.toml --profile "$1" --bin "$bin" >"$log" 2>&1; then
    tail -n 40 "$log" >&2
    echo "check $ID: the build failed" >&2
    exit 2
  fi
}
case " $* " in
  *" --replay "*) # with the build it was found with
    prev=; for a in "$@"; do [ "$prev" = --replay ] && grep -q '"profile": "vprel"' "$a" 2>/dev/null && PROFILE=vprel; prev="$a"; done
    build "$PROFILE"; exec /verif/target/"$PROFILE"/"$bin" "$@";;
  *" --one "*|*" --suite "*) build "$PROFILE"; exec /verif/target/"$PROFILE"/"$bin" "$@";;
esac
build "$PROFILE"
[ "$PROFILE" = vp ] && [ -z "$VP_NO_RELEASE" ] && case "$ID" in C12|C25|C26|C27) false;; esac || exec /verif/target/"$PROFILE"/"$bin" "$@"
/verif/target/vp/"$bin" "$@" || exit $?
# A shorter second pass over the code as a release build compiles it: no debug assertions, wrapping arithmetic.
build vprel
rel=/verif/target/evidence-release
rm -f "$rel/$ID.json"
VERIF_SEED=$((${VERIF_SEED:-1} + 1000)) VP_SCALE=${VP_RELEASE_SCALE:-20} VP_EVIDENCE_DIR=$rel /verif/target/vprel/"$bin" "$@"
rc=$?
python3 /verif/tools/mergeev.py /verif/evidence/"$ID".json "$rel/$ID.json" || exit 2
exit $rc
