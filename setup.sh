#!/bin/bash
# Builds the symbolic executor, offline.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/engine"
mkdir -p ../bin
go build -o ../bin/gosym .
