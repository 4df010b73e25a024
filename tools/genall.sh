#!/bin/bash
cd /verif/checker
mkdir -p /tmp/gen; rm -f /tmp/gen/*
gen() { GOMEMLIMIT=6GiB ${MC:-/tmp/mc} -gen "$2" > /tmp/gen/$1.txt 2>/tmp/gen/$1.err; }
gen 01msg 'msg.*' &
gen 02msgx 'msg/*' &
gen 03ctrl 'ctrlengine.c*,ctrlengine.[A-Z]*,ctrlengine/*,ctrlengine.*' &
gen 04crypt 'cryptengine.*,cryptengine/*' &
gen 05db 'keydb.*,msgdb.*,encdb.*' &
gen 06sg 'serviceguard/*' &
gen 07mix 'mix/*' &
gen 08rest 'uid.*,uid/*,cipher.*,cipher/*,configclient.*,configclient/*,def.*,protoengine.*,keyserver/*,util.*,util/*,encode.*,encode/*' &
wait
