#!/bin/bash
# tools/unfix.sh COMMIT PROP [check.py options]: does PROP's check see the defect again
# when one fix commit is taken back?  Works in a scratch copy.
set -e; HERE=$(cd "$(dirname "$0")/.." && pwd)
C=$1; P=$2; shift 2
D=$(mktemp -d /tmp/unfix.XXXXXX)
trap 'rm -rf "$D"' EXIT
git -C /repo archive HEAD trappy | tar x -C "$D"
cp /repo/setup.py "$D" 2>/dev/null || true
git -C /repo show "$C" -- trappy | (cd "$D" && patch -R -p1 -s) || { echo "$C does not revert cleanly"; exit 2; }
cd "$HERE"; TRAPPY_REPO=$D ./dst/check.py "$P" --no-minimise "$@" 2>&1 | grep -v "^VIOLATION\|^check" | cut -c1-240
