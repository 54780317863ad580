#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the exploration harness against /repo's current working tree and runs one check.
# exit 0: property held on everything explored; 1: VIOLATION line printed; 2: could not build/run.
set -u
PROP=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export VERIF_SEED=${VERIF_SEED:-1}
OUT=$HERE/evidence
TARGET=$HERE/target
mkdir -p "$OUT" "$TARGET"
rm -f "$OUT/$PROP.json"
LOG=$TARGET/build.$PROP.log
BIN=$TARGET/mc.$PROP.$$
trap 'rm -f "$BIN"' EXIT
(
  flock 9
  cd "$HERE/harness" || exit 2
  # never trust an old build of the crate under test
  cargo clean --release --offline --target-dir "$TARGET" -p ellalgo-rs >/dev/null 2>&1
  cargo build --release --offline --target-dir "$TARGET" >"$LOG" 2>&1 || exit 2
  cp "$TARGET/release/mc" "$BIN" || exit 2
) 9>"$TARGET/.lock"
if [ $? -ne 0 ]; then
  echo "check $PROP: the harness does not build against /repo; see $LOG" >&2
  tail -40 "$LOG" >&2
  exit 2
fi
if [ "$TIER" = thorough ]; then LIMIT=3000; else LIMIT=600; fi
timeout -k 10 "$LIMIT" "$BIN" "$PROP" "$TIER" "$OUT"
RC=$?
if [ $RC -eq 124 ] || [ $RC -ge 128 ]; then
  # a quick run takes seconds: not returning means a call into the code under test did not return;
  # dying on a signal (stack overflow, abort, out of memory) is likewise its doing
  mkdir -p "$OUT/replays"
  echo "exit status $RC, limit ${LIMIT}s: a call into the code under test does not terminate, or aborts, or exhausts memory" >"$OUT/replays/$PROP.txt"
  echo "VIOLATION property=$PROP replay=$OUT/replays/$PROP.txt"
  exit 1
fi
exit $RC
