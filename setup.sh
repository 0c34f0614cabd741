#!/bin/bash
# Warms the Go build cache; every check rebuilds what it needs itself.
set -eu
cd "$(dirname "$0")"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=$(mktemp -d /tmp/vpsetup.XXXXXXXX)
trap 'rm -rf "${D:?}"' EXIT
(cd "${VERIF_REPO:-/repo}" && go build -o "$D/prototool" ./cmd/prototool)
(cd "${VERIF_REPO:-/repo}" && CGO_ENABLED=1 go build -race -o "$D/race" ./cmd/prototool)
(cd harness && go build -o "$D/harness" .)
