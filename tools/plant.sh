#!/bin/bash
# plant.sh ID [notest]: verify planted bug seeded/ID in scratch copies: applies, demo 0 without / !=0 with, stable tests pass, check catches it
ID=$1; P=/verif/seeded/$ID; D=/tmp/plant_$ID; rm -rf "$D"; cp -a /repo "$D"; trap 'rm -rf "$D" /tmp/plant_$ID.*' EXIT
DEMO=$(mktemp -d /tmp/plant_$ID.demo.XXXX); cp "$P"/* "$DEMO"/; rm -f "$DEMO"/*.diff "$DEMO"/meta.json
(cd "$D" && timeout 300 bash "$DEMO/demo.sh" >/tmp/plant_$ID.d0 2>&1); echo "demo clean rc=$?"; tail -1 /tmp/plant_$ID.d0 | cut -c1-200
git -C "$D" apply "$P/patch.diff" || { echo "PATCH FAILS"; exit 1; }
(cd "$D" && timeout 300 bash "$DEMO/demo.sh" >/tmp/plant_$ID.d1 2>&1); echo "demo patched rc=$?"; tail -1 /tmp/plant_$ID.d1 | cut -c1-200
C=$(python3 -c "import json;print(json.load(open('$P/meta.json'))['property'])")
cd /verif; VERIF_REPO=$D VERIF_NOEVIDENCE=1 VERIF_SEED=1 ./check $C 2>&1 | cut -c1-300 | tail -2
if [ "$2" != notest ]; then
  sed "s#/repo/src#$D/src#; s#cd /repo#cd $D#" /opt/vp/test.sh > /tmp/plant_$ID.test.sh
  bash /tmp/plant_$ID.test.sh /tmp/plant_$ID.out.json >/tmp/plant_$ID.log 2>&1
  python3 - /tmp/plant_$ID.out.json <<'Q'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))['passed']
m=sorted(set(b)-set(o)); print("stable tests missing:",len(m),m[:5])
Q
fi
