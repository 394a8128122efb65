#!/bin/bash
# run.sh ID [args]: rebuilds the monitors that decide property ID against /repo's working
# tree and runs them. VERIF_SEED and VERIF_TIER choose the workload.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
id=$1
bin=$(python3 "$here/tools/which.py" "$id") || { echo "unknown property $id"; exit 3; }
build_mon "$bin" || exit 3

# C01 (thorough) and M01 run under a second sanitizer first; its counts join the evidence.
second= label=
case $id-${VERIF_TIER:-quick} in
    C01-thorough) second=tsan_repeat label=under_thread_sanitizer budget=${MON_TSAN_S:-90} ;;
    M01-*) second=msan_memory label=under_memory_sanitizer budget=${MON_MSAN_S:-150} ;;
esac
if [ -n "$second" ]; then
    build_mon $second || exit 3
    aside=$VERIF_DIR/build/$second-run
    mkdir -p "$aside/build" && cp "$here/known_findings.jsonl" "$aside/"
    (
        sanitizer_env $second
        MON_BUILD=$second MON_REPLAYS=$VERIF_DIR MON_DIR=$aside MON_THOROUGH_S=$budget exec "$(mon_bin $second)" run "$id"
    ) || exit $?
    (sanitizer_env "$bin"; exec "$(mon_bin "$bin")" run "$id")
    code=$?
    python3 - "$VERIF_DIR/evidence/$id.json" "$aside/evidence/$id.json" $label <<'END'
import json, sys
a, b = (json.load(open(f)) for f in sys.argv[1:3])
a["coverage"][sys.argv[3]] = {k: b["coverage"][k] for k in ("evaluations", "observed_events", "distinct_states")}
a["wall_s"] += b["wall_s"]
json.dump(a, open(sys.argv[1], "w"), indent=2)
END
    exit $code
fi
sanitizer_env "$bin"
exec "$(mon_bin "$bin")" run "$id"
