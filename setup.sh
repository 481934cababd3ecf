#!/bin/bash
# Builds the symbolic executor in /verif/engine/bin (ignored by git).
. /opt/vp/env.sh 2>/dev/null
cd /verif/engine || exit 2
GOFLAGS=-mod=mod go build -o /verif/engine/bin/gosym .
