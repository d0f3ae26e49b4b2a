#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")"
export XW_DIR="$PWD" GOTOOLCHAIN=local GOPROXY=off
new=
for f in tool/*.go tool/go.mod; do
	[ "$f" -nt bin/xwcheck ] && new=1
done
if [ ! -x bin/xwcheck ] || [ -n "$new" ]; then
	mkdir -p bin
	if ! bash build.sh >bin/build.log 2>&1; then
		cat bin/build.log
		echo "the analyser does not build"
		exit 2
	fi
fi
exec bin/xwcheck "$@"
