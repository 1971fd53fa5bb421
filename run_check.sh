#!/bin/bash
# run_check.sh PROP                      runs the check of a property (VERIF_SEED, VERIF_TIER)
# run_check.sh replay PROP SUITE CASE    runs one case again (same VERIF_SEED and VERIF_TIER)
# exit 0: held, 1: violation (VIOLATION line), anything else: no answer
cd "$(dirname "$0")" || exit 2
export MONITOR_HARNESS="$PWD/harness"
export MONITOR_OUT="${MONITOR_OUT:-$PWD/evidence}"
export MONITOR_FINDINGS="$PWD/known_findings.txt"
export CARGO_TARGET_DIR="$PWD/target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$MONITOR_OUT" "$CARGO_TARGET_DIR"
# the tree may have changed without a change of its time stamps
find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 \( -name 'newton_rootfinder-*' -o -name 'util-*' \) -exec rm -r {} + 2>/dev/null
if ! (cd harness && cargo build --release --offline --quiet 2>"$CARGO_TARGET_DIR/build.log"); then
  grep -E '^error' -A6 "$CARGO_TARGET_DIR/build.log" | head -40 >&2
  echo "the monitor does not build against /repo" >&2
  exit 2
fi
if [ "$1" != replay ]; then
  rm -f "$MONITOR_OUT/replay-$1.txt"
fi
if [ "$1" = C15 ]; then
  # the logs with the additional informations: another build of the same crate
  extra="$CARGO_TARGET_DIR/additional"
  find "$extra/release/.fingerprint" -maxdepth 1 \( -name 'newton_rootfinder-*' -o -name 'util-*' \) -exec rm -r {} + 2>/dev/null
  if ! (cd harness && cargo build --release --offline --quiet --features additional --target-dir "$extra" 2>"$CARGO_TARGET_DIR/build-additional.log"); then
    grep -E '^error' -A6 "$CARGO_TARGET_DIR/build-additional.log" | head -40 >&2
    echo "the monitor does not build against /repo with the additional informations" >&2
    exit 2
  fi
  mkdir -p "$extra/evidence"
  rm -f "$extra/evidence/C15.json"
  MONITOR_OUT="$extra/evidence" MONITOR_SCALE=0.1 "$extra/release/monitor" C15 > "$extra/C15.out" 2>&1
  rc=$?
  if [ $rc != 0 ]; then
    cp "$extra"/evidence/* "$MONITOR_OUT"/ 2>/dev/null
    sed "s#$extra/evidence#$MONITOR_OUT#g" "$extra/C15.out"
    exit $rc
  fi
  export MONITOR_ADDITIONAL="$extra/evidence/C15.json"
fi
"$CARGO_TARGET_DIR/release/monitor" "$@"
rc=$?
# an abort, a stack overflow or a segmentation fault of the code under observation
if [ "$1" != replay ] && { [ $rc = 134 ] || [ $rc = 139 ] || [ $rc = 132 ] || [ $rc = 136 ]; }; then
  echo "the process that ran the resolutions was killed by signal $((rc - 128))" | tee "$MONITOR_OUT/replay-$1.txt"
  echo "VIOLATION property=$1 replay=$MONITOR_OUT/replay-$1.txt"
  exit 1
fi
exit $rc
