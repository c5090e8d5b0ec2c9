#!/bin/bash
# usage: check.sh <ID>   (VERIF_TIER=quick|thorough)
. /verif/tools/env.sh
B=$(mktemp -d /tmp/vmcbin-XXXXXX) || exit 2
( cd /verif/mc && GOFLAGS=-mod=mod go build -o "$B/mc" ./cmd/mc ) || { rm -rf "$B"; exit 2; }
"$B/mc" "$1"; rc=$?
rm -rf "$B"
exit $rc
