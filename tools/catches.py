#!/usr/bin/env python3
"""Development aid: run every check against every planted bug (in a scratch
copy) and record in tools/catches.json which ones report it."""
import json, os, subprocess, tempfile, shutil, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
W=int(os.environ.get('WORKERS','4'))
tmp=tempfile.mkdtemp(prefix='navcatch')
shutil.copy(V+'/bin/nav',tmp+'/nav')
pool=Queue()
for w in range(W):
    d='%s/w%d'%(tmp,w)
    shutil.copytree('/repo',d+'/repo',symlinks=True)
    subprocess.run(['git','checkout','-q','--','.'],cwd=d+'/repo')
    os.makedirs(d+'/v/evidence'); shutil.copy(V+'/known-findings.json',d+'/v')
    pool.put(d)
ids=[l.split('\t')[0] for l in subprocess.run([tmp+'/nav','list'],capture_output=True,text=True).stdout.splitlines() if l]
path=V+'/tools/catches.json'
res=json.load(open(path)) if os.path.exists(path) else {}
sel=sys.argv[1:]
def one(x):
    d=pool.get(); repo=d+'/repo'
    try:
        subprocess.run(['git','apply',V+'/seeded/%s/patch.diff'%x],cwd=repo,check=True)
        o=subprocess.run([tmp+'/nav']+ids,env=dict(os.environ,NAV_REPO=repo,NAV_VERIF=d+'/v'),capture_output=True,text=True).stdout
        return x,sorted({l.split('property=')[1].split()[0] for l in o.splitlines() if l.startswith('VIOLATION')})
    finally:
        subprocess.run(['git','checkout','-q','--','.'],cwd=repo)
        pool.put(d)
try:
    with ThreadPoolExecutor(W) as ex:
        for x,hit in ex.map(one,[d for d in sorted(os.listdir(V+'/seeded')) if not sel or d in sel]):
            want=json.load(open(V+'/seeded/%s/meta.json'%x))['property']
            print('ok  ' if want in hit else 'MISS',x,want,hit,flush=True)
            res[x]=hit
    res={k:v for k,v in res.items() if os.path.isdir(V+'/seeded/'+k)}
    json.dump(res,open(path,'w'),indent=0,sort_keys=True); open(path,'a').write('\n')
finally:
    shutil.rmtree(tmp)
