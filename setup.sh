#!/bin/bash
# Builds the analyzer from the committed sources, offline.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin evidence
cd sa
exec 9>../bin/.lock
flock 9
go build -o ../bin/sa.new . && mv ../bin/sa.new ../bin/sa
