#!/bin/bash
# ./check.sh ID: builds the harness against /repo's working tree and decides the property.
# Exit 0: held; 1: VIOLATION line printed; anything else: no answer.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
ID=${1:?usage: check.sh ID}
case $ID in
	C22) build_san thread || exit 2; exec target/thread/harness run "$ID" ;;
	C23) build_san address memory || exit 2; VERIF_EXE2=$PWD/target/memory/harness exec target/address/harness run "$ID" ;;
esac
build dev || exit 2
case $ID in
	C08) build release || exit 2; export VERIF_EXE2=$PWD/target/release/harness ;;
	C20) build_conf || exit 2; export VERIF_CONF=$PWD/target/conf ;;
esac
exec target/debug/harness run "$ID"
