#!/usr/bin/env python3
"""Writes the generated parts of DESIGN.md (per-property table, catch table)
between markers, from `nav list`, properties.jsonl, not_applicable.json and
seeded/*/meta.json + tools/catches.json."""
import json, os, subprocess, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open('properties.jsonl')]
out=subprocess.run(['bin/nav','list'],capture_output=True,text=True).stdout
built={}
for l in out.splitlines():
    f=l.split('\t')
    if len(f)>=3: built[f[0]]=(f[1],f[2])
notes=json.load(open('tools/design_notes.json'))
na={x['property']:x['reason'] for x in json.load(open('MANIFEST.json'))['not_applicable']}
s=''
for p in props:
    i=p['id']
    s+='### %s. %s\n\n'%(i,p['title'])
    if i in built:
        s+='*Method:* %s.\n\n*Decided:* %s\n'%built[i]
        if i in notes: s+='\n*Scope, oracle and limits:* %s\n'%notes[i]
    else:
        s+='*Not applicable:* %s\n'%na.get(i,'')
    s+='\n'
c=''
if os.path.isdir('seeded'):
    catches=json.load(open('tools/catches.json')) if os.path.exists('tools/catches.json') else {}
    c='| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
    for d in sorted(os.listdir('seeded')):
        m=json.load(open('seeded/%s/meta.json'%d))
        c+='| %s | %s | %s | %s |\n'%(d,m['property'],re.sub(r'\s+',' ',m['needs']).replace('|','/'),', '.join(catches.get(d,['?'])) or 'not caught')
t=open('DESIGN.md').read()
def put(t,k,v):
    return re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)'%(k,k),lambda m:m.group(1)+v+m.group(2),t,flags=re.S)
f=''.join('* '+x[len('fixed: '):]+'\n' for x in json.load(open('known-findings.json'))['fixed'])
t=put(t,'fixed',f); t=put(t,'properties',s); t=put(t,'catches',c)
open('DESIGN.md','w').write(t)
