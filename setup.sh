#!/bin/bash
# Builds the monitors once, which also warms the Go build cache.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
. /opt/vp/env.sh
command -v python3 >/dev/null && command -v go >/dev/null || exit 1
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cd harness && cp go.mod go.sum "$t"/ && go build -modfile "$t/go.mod" -o "$t/svbmon" ./cmd/svbmon
