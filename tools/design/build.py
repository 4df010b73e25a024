import json,re,subprocess,glob,os
s=open('/verif/DESIGN.md').read() if not os.path.exists('/verif/tools/design/DESIGN.in.md') else open('/verif/tools/design/DESIGN.in.md').read()
os.makedirs('/verif/tools/design',exist_ok=True)
open('/verif/tools/design/DESIGN.in.md','w').write(s)
m=json.load(open('/verif/MANIFEST.json'))
titles={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
props=open('/verif/tools/design/props.md').read().strip().split('\n')
out=[]
for l in props:
    k=re.match(r'\*\*([^*]+)\*\*',l).group(1)
    t='; '.join(titles[x] for x in k.split('/'))
    out.append('* **%s** *%s.*%s'%(k,t,l[len(k)+4:]))
na='\n'.join('* **%s** *%s*: %s.'%(x['property'],titles[x['property']],x['reason']) for x in m['not_applicable'])
fx=[l for l in open('/verif/known_findings.txt').read().split('\n') if l.startswith('fixed:')]
fixes='\n'.join('* '+re.sub(r'^fixed: property=(\S+) (\S+) ',r'**\1** `\2` ',l) for l in fx)
rows=['| bug | property | what it breaks | needs | caught by |','|---|---|---|---|---|']
caught=json.load(open('/verif/tools/design/caught.json'))
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=f.split('/')[-2]; d=json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |'%(i,d['property'],d['what_it_breaks'],d['needs'],caught.get(i,d['property']).replace('|','\\|')))
for a,b in(('@@PROPS@@','\n'.join(out)),('@@NA@@',na),('@@FIXES@@',fixes),('@@SEEDS@@','\n'.join(rows))):
    s=s.replace(a,b)
open('/verif/DESIGN.md','w').write(s)
