#!/bin/bash
# rebuilds all refactored scratch trees under /tmp/rfc from /repo
for d in $(ls /tmp/rfc | grep -v '^mix[A-Z]$'); do IFS=- read k m o <<< "$d"; bash /verif/tools/rft.sh $k $m $o >/dev/null 2>&1; done
R=/verif/tools/rfcombo.sh
bash $R mixA helper:2:0 invert:2:1 swapcmp:1:0 renlocal:1:0 elseret:3:0
bash $R mixB callhelper:2:1 split:2:0 renfunc:1:0 retvar:2:0 hoist:2:1 
bash $R mixC elsewrap:3:1 range:1:0 renfield:1:0 tailhelper:3:2 reorder:2:0
bash $R mixD switchif:1:0 continue:1:0 mergeif:1:0 helper:3:1 renmeth:1:0 complit:2:0
