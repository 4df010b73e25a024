n=$1; rm -rf /tmp/rfc/$n; cp -a /repo /tmp/rfc/$n; rm -rf /tmp/rfc/$n/.git; python3 /tmp/$n.py; cd /tmp/rfc/$n; export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off; GOFLAGS=-mod=mod go build ./... 2>&1 | head; ${MC:-/tmp/mc} -repo /tmp/rfc/$n -contracts '*' 2>&1 > /tmp/rfo-$n.txt; tail -1 /tmp/rfo-$n.txt; grep "^contract" /tmp/rfo-$n.txt | sed 's/contract | //;s/:.*//;s/ \(calls\|success\|return\|result\|before\|false\|true\) .*//' | sort | uniq -c
