#!/bin/bash
# builds govc into $1
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
cd "$(dirname "$0")/govc" && exec go build -o "$1" .
