#!/bin/bash
# mkscratch.sh SRC DST: copy SRC (a tree of the project) to DST and make every package of it buildable with the stand-ins.
set -e
S="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$2" && cp -a "$1"/. "$2"/
cd "$2"
[ -e go.mod ] || cp /opt/vp/gomod/go.mod /opt/vp/gomod/go.sum .
cat >> go.mod <<M

require (
	gitlab.com/alephledger/core-go v0.0.0
	github.com/binance-chain/tss-lib v0.0.0
	github.com/rs/zerolog v1.0.0
)

replace (
	gitlab.com/alephledger/core-go => $S/core-go
	github.com/binance-chain/tss-lib => $S/tss-lib
	github.com/rs/zerolog => $S/zerolog
)
M
