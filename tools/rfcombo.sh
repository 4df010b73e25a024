#!/bin/bash
# usage: rfcombo.sh name kind:mod:off ...   applies several rewrites to one scratch copy
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
N=$1; shift
D=/tmp/rfc/$N; rm -rf $D; mkdir -p /tmp/rfc; cp -a /repo $D; rm -rf $D/.git
for x in "$@"; do
	IFS=: read k m o <<< "$x"
	cp -a $D $D.prev
	/tmp/rf -repo $D -t $k -mod ${m:-1} -off ${o:-0} >/dev/null 2>&1
	for b in $(cd $D && GOFLAGS=-mod=readonly go build ./... 2>&1 | grep '^# ' | sed 's/^# github.com.mutecomm.mute.//'); do cp $D.prev/$b/*.go $D/$b/; done
	(cd $D && GOFLAGS=-mod=readonly go build ./... >/dev/null 2>&1) || { echo "$k restored"; rm -rf $D; mv $D.prev $D; }
	rm -rf $D.prev
done
