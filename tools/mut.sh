#!/bin/bash
# mut.sh PROP FILE OLD NEW [govc flags]: the verdict on a copy of /repo with the
# first OLD in FILE replaced by NEW. Works in /tmp/verif-mut only.
cd /verif; . ./env.sh
rm -rf /tmp/verif-mut; mkdir -p /tmp/verif-mut/verif/replays /tmp/verif-mut/verif/evidence
cp -a /repo /tmp/verif-mut/repo
python3 - "/tmp/verif-mut/repo/$2" "$3" "$4" <<'P' || exit 1
import sys
p,a,b=sys.argv[1:4]
s=open(p).read()
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
assert a in s, 'pattern not found'
open(p,'w').write(s.replace(a,b,1))
P
(cd /tmp/verif-mut/repo && go build ./... ) || echo NOBUILD
P=$1; shift 4
for n in contracts replay known-findings.txt; do ln -s /verif/$n /tmp/verif-mut/verif/$n; done
timeout 900 ./bin/govc check -prop $P -repo /tmp/verif-mut/repo -verif /tmp/verif-mut/verif "$@" 2>&1 | cut -c1-250 | tail -${TAIL:-6}
rm -rf /tmp/verif-mut
