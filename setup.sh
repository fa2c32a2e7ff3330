#!/bin/bash
# Builds the verifier.
set -e
cd "$(dirname "$0")"
. ./env.sh
cd govc
go build -o ../bin/govc .
