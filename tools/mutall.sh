#!/bin/bash
# mutation testing of the rules over the whole tree, 7 shards; results in /tmp/mut
mkdir -p /tmp/mut
for i in 0 1 2 3 4 5 6; do
 (GOMEMLIMIT=3GiB timeout ${1:-7200} /tmp/mcm -mutate "${2:-*}" -shard $i/7 > /tmp/mut/s$i.txt 2>&1) &
done
wait
