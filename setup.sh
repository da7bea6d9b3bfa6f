#!/bin/bash
# builds the verifier once, so that the build cache is warm; every check builds it again into its own scratch directory
cd "$(dirname "$0")" && d=$(mktemp -d) && ./tool.sh "$d/govc"; rc=$?; rm -rf "$d"; exit $rc
