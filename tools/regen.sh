cd /verif/checker && GOFLAGS=-mod=mod go build -o ${MC:-/tmp/mc} . && bash /verif/tools/genall.sh && cat /tmp/gen/*.txt > contracts.txt && GOFLAGS=-mod=mod go build -o ${MC:-/tmp/mc} . && ${MC:-/tmp/mc} -contracts '*' | tail -${1:-12}
