#!/bin/bash
# Lays out the library from /repo's working tree and builds every monitor once.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
for b in $(python3 -c 'import json,sys; print(*sorted(set(json.load(open(sys.argv[1])).values())))' "$here/tools/bins.json"); do
    build_mon "$b"
done
build_mon msan_memory
