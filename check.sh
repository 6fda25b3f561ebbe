#!/bin/bash
# Decides one property of /repo's current source: check.sh <property> [thorough]
cd "$(dirname "$0")" || exit 2
./build.sh >/dev/null || exit 2
args=()
[ "$2" = thorough ] && args+=(-thorough)
exec ./bin/analyzer -repo /repo -verif "$PWD" "${args[@]}" -check "$1"
