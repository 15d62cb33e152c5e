#!/bin/bash
# check.sh ID: decides one property against /repo's current working tree.
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 2
ID=${1:?usage: check.sh ID}
BIN=$(bash "$V/build.sh") || exit 2
OUT=$V/out/$ID
mkdir -p "$OUT" "$V/evidence" || exit 2
export RC_KNOWN=$V/KNOWN_FINDINGS.txt
exec "$BIN" run "$ID" "$OUT" "$V/evidence/$ID.json"
