#!/bin/bash
# Offline, from the committed files: checks that the toolchain can build the
# monitors.  Nothing a check needs is left behind; every check builds its own.
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin HOME="${HOME:-/root}"
go version
python3 -c 'import json; json.load(open("MANIFEST.json")); print("manifest ok")'
for f in properties.jsonl run.py checks.py harness/go.mod harness/go.sum; do test -f "$f"; done
mkdir -p evidence .cache
