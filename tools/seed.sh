#!/bin/bash
# seed.sh ID [nocheck]: confirms a planted bug in scratch copies of /repo: builds, stable tests, demo before/after, check.
set -u
ID=$1; S=/verif/seeded/$ID; P=$(jq -r .property $S/meta.json)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
W=/tmp/seedw.$ID; rm -rf "${W:?}"; cp -a /repo $W || exit 9
trap 'rm -rf "${W:?}"' EXIT
cd $W
bash $S/demo.sh >$W.d0 2>&1; r=$?; [ $r = 0 ] && echo "demo clean ok" || { echo "BAD: demo on clean rc=$r"; tail -5 $W.d0; }
git apply $S/patch.diff || { echo "BAD: does not apply"; exit 1; }
go build ./... || { echo "BAD: build"; exit 1; }
bash $S/demo.sh >$W.d1 2>&1; r=$?; [ $r != 0 ] && echo "demo patched fails ok: $(tail -1 $W.d1 | cut -c1-150)" || echo "BAD: demo passes on patched"
(export PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc PROTOTOOL_PROTOC_WKT_PATH=/usr/include
 go test -json -vet=off -count=1 -timeout 10m -skip '^TestDownload$' ./... > $W.json 2>/dev/null)
python3 - $W.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b.get('passed') or b.get('stable') or b.get('pass') or [])
got={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e.get('Action') in('pass','fail'): got[(e['Package'],e['Test'])]=e['Action']
f=sorted(k[1]+' '+k[0] for k,v in got.items() if v=='fail' and any(k[1] in s and k[0].split('/prototool')[-1].strip('/') in s for s in st))
print('stable tests failing:',f)
P
rm -f $W.json $W.d0 $W.d1
if [ "${2:-}" != nocheck ]; then
  cd /verif; VERIF_REPO=$W VERIF_SCALE=${SCALE:-1} ./check.sh $P quick > /tmp/seed.$ID.out 2>&1; r=$?
  [ $r = 1 ] && echo "CAUGHT by $P: $(grep -m1 VIOLATION /tmp/seed.$ID.out | cut -c1-200)" || { echo "MISSED by $P rc=$r"; tail -3 /tmp/seed.$ID.out | cut -c1-300; }
fi
