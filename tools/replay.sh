#!/bin/bash
# run only the replay of a property
cd /verif; . ./env.sh
t=${2:-thorough}
export GOVC_REPLAY=1; rm -f replays/$1.txt
VERIF_TIER=$t ./bin/govc check -prop $1 -tier $t -fn NONE 2>&1 | cut -c1-300 | tail -5
grep -n 'FAILING-INPUT\|panic:\|FAIL\|_test.go:' replays/$1.txt 2>/dev/null | cut -c1-600 | head -${3:-20}
