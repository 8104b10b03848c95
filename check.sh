#!/bin/bash
# check.sh <property> quick|thorough|replay [replay-file]
# Builds the monitors against /repo's current working tree and runs the monitor of one property.
#   exit 0  held on everything observed
#   exit 1  violated, with a line VIOLATION property=<id> replay=<path>
#   other   the check itself failed (build error, monitor error): no verdict
ID=$1; MODE=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_HUSKY_DONT_INSTALL_HOOKS=1 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$HERE/harness/target
export RUST_BACKTRACE=0
unset RUST_LOG
EVID=$HERE/evidence/$ID.json
mkdir -p "$HERE/evidence" "$HERE/evidence/replay"
LOG=$(mktemp /tmp/vmon-build.XXXXXX)
"$HERE/build.sh" "$ID" >"$LOG" 2>&1
RC=$?
if [ $RC -ne 0 ]; then
  echo "check $ID: the monitors do not build against /repo (no verdict)"; tail -40 "$LOG"; rm -f "$LOG"; exit 3
fi
rm -f "$LOG"
OUT=$(mktemp /tmp/vmon-out.XXXXXX); REP=$(mktemp /tmp/vmon-rep.XXXXXX)
ARGS=("$ID" --seed "$SEED" --report "$REP" --findings "$HERE/known_findings.txt")
case "$MODE" in
  replay)   ARGS+=(--replay "$3"); LIMIT=300;;
  thorough) ARGS+=(--tier thorough --seconds "${VERIF_SECONDS:-420}" --evidence "$EVID"); LIMIT=3000;;
  *)        ARGS+=(--tier quick --evidence "$EVID"); LIMIT=600;;
esac
timeout -k 10 $LIMIT "$CARGO_TARGET_DIR/debug/vmon" "${ARGS[@]}" >"$OUT" 2>&1
RC=$?
cat "$REP"
if [ $RC -ne 0 ] && [ $RC -ne 1 ]; then echo "check $ID: no verdict (exit $RC)"; head -c 2000 "$OUT"; fi
rm -f "$OUT" "$REP"
exit $RC
