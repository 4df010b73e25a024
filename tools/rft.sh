#!/bin/bash
# usage: rft.sh kind [mod off]
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
D=/tmp/rfc/$1-${2:-1}-${3:-0}; rm -rf $D; mkdir -p /tmp/rfc; cp -a /repo $D; rm -rf $D/.git
/tmp/rf -repo $D -t $1 -mod ${2:-1} -off ${3:-0} 2>&1 | head -3
for i in 1 2 3; do
 bad=$(cd $D && GOFLAGS=-mod=readonly go build ./... 2>&1 | grep '^# ' | sed 's/^# github.com.mutecomm.mute.//')
 for b in $bad; do echo "restoring $b"; cp /repo/$b/*.go $D/$b/; done
done
