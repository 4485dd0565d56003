#!/usr/bin/env python3
"""allseeds.py: every planted bug against its own property's check (development tool)."""
import sys,subprocess,os,shutil,tempfile,json
from concurrent.futures import ThreadPoolExecutor
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local')
def one(i):
    d=tempfile.mkdtemp(prefix='as_',dir='/tmp'); repo=d+'/repo'; v=d+'/verif'
    try:
        os.makedirs(repo); os.makedirs(v); shutil.copy('/verif/known_findings.txt',v)
        subprocess.run('tar -C /repo --exclude=.git --exclude=./bin -cf - . | tar -C %s -xf -'%repo,shell=True,check=True)
        a=subprocess.run('patch -p1 < /verif/seeded/%s/patch.diff'%i,shell=True,cwd=repo,capture_output=True,text=True)
        if a.returncode: return i,'NOAPPLY '+a.stdout
        p=json.load(open('/verif/seeded/%s/meta.json'%i))['property']
        c=subprocess.run(['/verif/bin/checker',p],capture_output=True,text=True,env=dict(ENV,TICAT_REPO=repo,VERIF_DIR=v))
        return i,'caught' if c.returncode==1 and 'VIOLATION property=%s'%p in c.stdout else 'MISSED '+str(c.returncode)
    finally: shutil.rmtree(d)
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
with ThreadPoolExecutor(int(os.environ.get('J','5'))) as ex:
    for i,r in ex.map(one,ids): print(r,i,flush=True)
