#!/bin/sh
# Nothing is prepared ahead: every check builds what it needs from /repo.
set -e
cd "$(dirname "$0")"
for tool in g++ clang++ python3 bash; do
    command -v "$tool" >/dev/null || { echo "missing: $tool"; exit 1; }
done
mkdir -p build evidence replays
python3 -c 'import json; json.load(open("MANIFEST.json"))'
