#!/bin/bash
# Usage: ./check.sh <property> [quick|thorough]   (VERIF_SEED, VERIF_TIER)
# Builds the harness against /repo's working tree with the hooks on, and runs the
# monitors of one property. Exit 0: held; 1: VIOLATION; anything else: no answer.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export CARGO_NET_OFFLINE=true
prop="$1"
if [ "$prop" = C15 ]; then
  exec python3 tools/ub.py "$VERIF_TIER"
fi
log="$VERIF_DIR/target/build-$prop.log"
mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
if ! RUSTFLAGS="--cfg moka_verif" cargo build --release --offline \
    --manifest-path "$VERIF_DIR/harness/Cargo.toml" \
    --target-dir "$VERIF_DIR/target" >"$log" 2>&1; then
  tail -n 40 "$log" >&2
  echo "check.sh: the harness does not build" >&2
  exit 2
fi
out="$VERIF_DIR/target/run-$prop.log"
"$VERIF_DIR/target/release/mokacheck" "$prop" >"$out" 2>&1
rc=$?
cat "$out"
case $rc in
132 | 134 | 135 | 136 | 139)
  # Killed by SIGILL, SIGABRT, SIGBUS, SIGFPE or SIGSEGV: the monitored code, all of it safe
  # to call, brought the process down.
  replay="$VERIF_DIR/replays/$prop-crash-$VERIF_SEED.json"
  python3 - "$prop" "$VERIF_TIER" "$VERIF_SEED" "$rc" "$out" "$replay" "$VERIF_DIR/evidence/$prop.json" <<'P'
import json, sys
prop, tier, seed, rc, out, replay, ev = sys.argv[1:]
tail = open(out, errors="replace").read()[-4000:].splitlines()
msg = "the process died of signal %d" % (int(rc) - 128)
json.dump({"property": prop, "tier": tier, "seed": int(seed), "violation": msg, "log": tail,
           "replay_cmd": "cd /verif && VERIF_SEED=%s VERIF_TIER=%s ./check.sh %s" % (seed, tier, prop)},
          open(replay, "w"), indent=1)
json.dump({"property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
           "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": "the run was cut short: " + msg,
                        "samples": []},
           "assumptions": [], "wall_s": 0, "violations": 1}, open(ev, "w"), indent=1)
P
  echo "the process died of signal $((rc - 128))"
  echo "VIOLATION property=$prop replay=$replay"
  exit 1
  ;;
esac
exit $rc
