"""caught.json from the output of tools/seed/vseed.sh: which rule of which check reports each planted bug."""
import json,os,re
p='/verif/tools/design/caught.json'; d=json.load(open(p))
for s in sorted(os.listdir('/verif/seeded')):
    f='/tmp/seedw/%s.chk'%s
    if not os.path.exists(f): continue
    t=open(f).read()
    pr=json.load(open('/verif/seeded/%s/meta.json'%s))['property']
    m=re.search(r'  rule: (.*)\n  construct: (.*)',t)
    if m:
        c=m.group(2); c=re.split(r' needs | stores |: before',c)[0][:70]
        d[s]='%s, rule %s at `%s`'%(pr,m.group(1),c.strip().replace('`',''))
    else: d[s]='not caught'
json.dump(d,open(p,'w'),indent=1,sort_keys=True)
