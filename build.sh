#!/bin/bash
# build.sh: builds rmcheck from /repo's current working tree; prints the path of the binary.
# The build directory is keyed by the content of every input, so a stale binary is never used.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
unset MAKEFLAGS MAKELEVEL CFLAGS CPPFLAGS LDFLAGS CC CXX RMC_LOG_LEVEL
V=$(cd "$(dirname "$0")" && pwd)
REPO=${RC_REPO:-/repo}
KEY=$( { cat "$REPO"/*.c "$REPO"/*.h "$REPO"/Makefile "$V"/harness/*.* "$V"/harness/Makefile "$V"/harness/wsstub/*.h "$V/build.sh"; (cd "$REPO" && ls *.c *.h); clang --version; } 2>/dev/null | sha256sum | cut -c1-20)
B=$V/build/$KEY
mkdir -p "$B" || exit 2
(
    flock 9
    if [ ! -x "$B/rmcheck" ]; then
        make -s -f "$V/harness/Makefile" -j8 B="$B" REPO="$REPO" H="$V/harness" "$B/rmcheck" >"$B/build.log" 2>&1
    fi
) 9>"$B/.lock"
if [ ! -x "$B/rmcheck" ]; then
    echo "build failed:" >&2
    tail -n 30 "$B/build.log" >&2
    exit 2
fi
echo "$B/rmcheck"
