#!/bin/bash
# Builds the verifier, offline.
cd "$(dirname "$0")" || exit 1
. ./env.sh
cd govc && exec go build -o ../build/govc .
