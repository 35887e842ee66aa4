#!/bin/bash
# mut.sh PROP FILE 'python expr on s' : run a check on a scratch copy with one file edited
W=$(mktemp -d /tmp/mut.XXXX); cp -a /repo/pystruct /repo/src "$W/"
python3 - "$W/$2" "$3" <<'P'
import sys
p=sys.argv[1]; s=open(p).read(); o=s
exec(sys.argv[2])
assert s!=o, 'no change'
open(p,'w').write(s)
P
PA_REPO=$W PA_EVID=$W/ev timeout 600 python3 /verif/run.py $1 2>&1 | cut -c1-${CUT:-220} | tail -${TAIL:-8}
rm -rf "$W"
