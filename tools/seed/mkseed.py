import sys,os,subprocess,json
# mkseed(id, prop, pkg, edits[(file,old,new)], needs, breaks, test)
DEMO='''#!/bin/bash
# Runs demo_test.go.txt inside the package (its own tests are left out), cwd = repository.
PKG=%s
HERE=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
{
	printf '{"Replace":{'
	for f in "$PWD/$PKG"/*_test.go; do [ -e "$f" ] && printf '"%%s":"",' "$f"; done
	printf '"%%s":"%%s"}}' "$PWD/$PKG/zz_demo_test.go" "$HERE/demo_test.go.txt"
} > "$T/overlay.json"
mkdir "$T/tmp"
TMPDIR="$T/tmp" go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestDemo$' "./$PKG"
'''
def mkseed(id,prop,pkg,edits,needs,breaks,test):
    W='/tmp/seedw/mk'
    if not os.path.isdir(W):
        os.makedirs('/tmp/seedw',exist_ok=True); subprocess.check_call(['cp','-a','/repo',W])
    subprocess.check_call(['git','-C',W,'fetch','-q','/repo','HEAD']); subprocess.check_call(['git','-C',W,'reset','-q','--hard','FETCH_HEAD'])
    for f,o,n in edits:
        s=open(W+'/'+f).read()
        assert s.count(o)==1,(id,f,s.count(o))
        open(W+'/'+f,'w').write(s.replace(o,n))
    d=subprocess.check_output(['git','-C',W,'diff']).decode()
    # removed lines must be original
    subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
    S='/verif/seeded/'+id; os.makedirs(S,exist_ok=True)
    open(S+'/patch.diff','w').write(d)
    open(S+'/demo.sh','w').write(DEMO%pkg); os.chmod(S+'/demo.sh',0o755)
    open(S+'/demo_test.go.txt','w').write(test)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(S+'/meta.json','w'),indent=1)
