#!/bin/bash
# run.sh <property>: decides a property by static analysis of /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
newer=$(find sa -name '*.go' -newer bin/sa 2>/dev/null | head -1)
if [ ! -x bin/sa ] || [ -n "$newer" ]; then
	./setup.sh >&2 || exit 2
fi
export SA_VERIF=$PWD
exec bin/sa "$@"
