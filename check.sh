#!/bin/bash
# check.sh <property id>: rebuild from /repo's working tree and decide one property.
# check.sh --replay <file>: run one saved case again. check.sh --build: build everything.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
. ./build.sh
case "$1" in
--build) build_all; exit $? ;;
--replay) id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 3
	bin=$(crate_of "$id") || exit 3
	build "$bin" || exit 3
	exec "$CARGO_TARGET_DIR/debug/$bin" replay "$2" ;;
*) bin=$(crate_of "$1") || { echo "unknown property $1" >&2; exit 3; }
	build "$bin" || exit 3
	exec "$CARGO_TARGET_DIR/debug/$bin" check "$1" ;;
esac
