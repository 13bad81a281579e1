#!/bin/bash
# mutant.sh CHECK FILE 'python expr: s -> s'   : applies a textual mutation in a scratch copy and runs the check against it
set -e
D=/tmp/mut$$; cp -a ${SRCREPO:-/repo} $D; trap "rm -rf $D" EXIT
python3 - "$D/$2" "$3" <<'P'
import sys
p=sys.argv[1]; s=open(p).read(); n=eval(sys.argv[2])
assert n!=s, "mutation does nothing"
open(p,'w').write(n)
P
cd /verif; VERIF_REPO=$D VERIF_NOEVIDENCE=1 ./check $1 2>&1 | cut -c1-300 | tail -${4:-3} || true
