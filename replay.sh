#!/bin/bash
# ./replay.sh FILE: runs one replay file against /repo's working tree (exit 1: fails).
F=$(readlink -f "${1:?usage: replay.sh FILE}")
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
case $(sed -n 's/^ *"property": "\(.*\)",*$/\1/p' "$F") in
	C22) build_san thread || exit 2; exec timeout 600 target/thread/harness replay "$F" ;;
	C23)
		build_san address memory || exit 2
		timeout 300 target/address/harness replay "$F" || exit 1
		exec timeout 300 target/memory/harness replay "$F" ;;
	C08)
		build dev && build release || exit 2
		timeout 300 target/debug/harness replay "$F" || exit 1
		exec timeout 300 target/release/harness replay "$F" ;;
esac
build dev && build_conf || exit 2
exec timeout 600 target/debug/harness replay "$F"
