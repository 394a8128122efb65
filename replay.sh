#!/bin/bash
# replay.sh FILE: runs the case of a replay file again against /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$1") || exit 3
bin=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("build") or "")' "$1")
[ -n "$bin" ] || bin=$(python3 "$here/tools/which.py" "$id") || exit 3
build_mon "$bin" || exit 3
sanitizer_env "$bin"
exec "$(mon_bin "$bin")" replay "$1"
