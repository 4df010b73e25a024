#!/bin/bash
# vseed.sh ID : validate a seed in a scratch copy
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
S=/verif/seeded/$1; W=/tmp/seedw/$1; mkdir -p /tmp/seedw; rm -rf $W; cp -a /repo $W; cd $W; git checkout -q -- .
bash $S/demo.sh > /tmp/seedw/$1.clean 2>&1; a=$?
git apply $S/patch.diff || { echo "$1 patch does not apply"; exit; }
go build ./... > /tmp/seedw/$1.build 2>&1 || { echo "$1 NO BUILD"; head -5 /tmp/seedw/$1.build; exit; }
bash $S/demo.sh > /tmp/seedw/$1.bad 2>&1; b=$?
t=ok
for p in $(git diff --name-only | xargs -n1 dirname | sort -u); do go test -vet=off -count=1 ./$p > /tmp/seedw/$1.test 2>&1 || t="FAIL($p: $(grep -m1 -E 'FAIL|build failed' /tmp/seedw/$1.test))"; done
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
/tmp/mc -property $P -repo $W -verif /tmp/seedv > /tmp/seedw/$1.chk 2>&1; c=$?
echo "$1 property=$P clean=$a bad=$b tests=$t check=$c $(grep -c '^  rule' /tmp/seedw/$1.chk)"
rm -rf $W
