#!/bin/bash
# check.sh <property> <quick|thorough> | check.sh replay FILE
# Builds prototool from /repo's working tree and the harness, then runs the check.
# Exit: 0 held, 1 violation (VIOLATION line), 3 error of the machinery.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
umask 022
SCRATCH=$(mktemp -d "${VERIF_SCRATCH:-/tmp}/vpcheck.XXXXXXXX") || exit 3
chmod 755 "$SCRATCH"
cleanup() { chmod -R u+rwX "$SCRATCH" 2>/dev/null; rm -rf "${SCRATCH:?}"; }
trap cleanup EXIT
trap 'exit 3' INT TERM
mkdir -p "$SCRATCH/bin/aux" "$SCRATCH/work"
(cd "$REPO" && go build -o "$SCRATCH/bin/prototool" ./cmd/prototool) || { echo "build of prototool failed" >&2; exit 3; }
(cd "$VERIF/harness" && go build -o "$SCRATCH/bin/harness" .) || { echo "build of the harness failed" >&2; exit 3; }
if [ "${1:-}" = C30 ] || { [ "${1:-}" = replay ] && grep -q '"C30"' "$2"; }; then
  (cd "$REPO" && CGO_ENABLED=1 go build -race -o "$SCRATCH/bin/prototool.race" ./cmd/prototool) || { echo "build of prototool failed" >&2; exit 3; }
fi
for n in protoc-gen-vrec protoc-gen-vgo protoc-gen-vgogo; do ln -s ../harness "$SCRATCH/bin/aux/$n"; done
if [ "${1:-}" = replay ]; then
  "$SCRATCH/bin/harness" replay -bin "$SCRATCH/bin/prototool" -scratch "$SCRATCH/work" -verif "$VERIF" -file "$2"
else
  "$SCRATCH/bin/harness" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" \
    -bin "$SCRATCH/bin/prototool" -scratch "$SCRATCH/work" -verif "$VERIF" \
    -workers "${VERIF_WORKERS:-8}" -scale "${VERIF_SCALE:-1}" -part "${VERIF_PART:-}"
fi
rc=$?
exit $rc
