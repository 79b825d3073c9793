#!/bin/bash
# runs every claimed check; extra arguments are passed on (e.g. --tier thorough)
cd "$(dirname "$0")/.."
for h in harness/C*.cpp; do i=$(basename $h .cpp); s=$(date +%s); ./run.sh $i "$@" > /tmp/all-$i.log 2>&1; echo "$i exit $? $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/all-$i.log)"; done
