#!/bin/bash
# check.sh PROPERTY quick|thorough: decides a property of /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
./setup.sh >&2 || { echo "cannot build the verifier" >&2; exit 2; }
timeout -k 5 760 ./bin/govc check -prop "$1" -tier "${2:-quick}"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || {
	# The verifier itself failed or ran out of time: nothing is proved, and only
	# the bounded stand-in is left.
	echo "the verifier gave no answer ($rc); running the bounded stand-in only" >&2
	GOVC_REPLAY=1 timeout -k 5 120 ./bin/govc check -prop "$1" -tier quick -fn NONE
	rc=$?
}
exit $rc
