#!/bin/bash
# plant.sh ID PROPERTY 'needs' 'what it breaks' < demo body ; takes the diff of the scratch copy /tmp/sw, and restores it.
set -u
D=/verif/seeded/$1; mkdir -p $D
(cd /tmp/sw && git diff > $D/patch.diff && git checkout -q -- .)
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
{ cat <<'H'
#!/bin/bash
# run with cwd at the root of the repository; exits 0 when the property holds here
set -u
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc PROTOTOOL_PROTOC_WKT_PATH=/usr/include
H="$(cd "$(dirname "$0")" && pwd)"
D=$(mktemp -d) || exit 9
trap 'rm -rf "${D:?}"' EXIT
go build -o "$D/pt" ./cmd/prototool || exit 9
export XDG_CACHE_HOME=$D/xdg TMPDIR=$D/tmp
mkdir -p "$D/w" "$D/tmp"; cd "$D/w"
H
cat; } > $D/demo.sh
chmod +x $D/demo.sh
jq -n --arg p "$2" --arg n "$3" --arg w "$4" '{property:$p,needs:$n,what_it_breaks:$w}' > $D/meta.json
