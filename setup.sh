#!/bin/bash
# Builds the checker.
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$(dirname "$0")/checker"
mkdir -p bin
go build -o bin/fgbcheck .
