#!/bin/bash
# Builds the framework once, offline.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
build dev && build release && build_conf && build_san thread address memory
