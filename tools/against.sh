#!/bin/bash
# against.sh <dir of a changed copy of u5e> <seconds> <property>...   development aid
r=$1; s=$2; shift 2; o=$(mktemp -d /tmp/u5eout.XXXXXX)
for p in "$@"; do U5E_REPO=$r U5E_OUT=$o U5E_SECONDS=$s python3 "$(dirname "$0")/../check.py" $p quick | grep -v "^property" | cut -c1-400; done
mkdir -p /tmp/replays; cp $o/replays/* /tmp/replays/ 2>/dev/null; rm -rf "$o"
