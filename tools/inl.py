#!/usr/bin/env python3
"""inl.py FROM TO [count]: development tool. Runs every check on programs in which random
functions were put into their callers (by the checker's own normalisation)."""
import re,sys,subprocess,os,shutil,tempfile,random
from concurrent.futures import ThreadPoolExecutor,as_completed
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local')
ALL=os.environ.get('PROPS') or ' '.join('C%02d'%i for i in range(1,1+int(os.environ.get('NPROPS','20'))))
fs=['|'.join(l.split('|')[:3]) for l in open('/verif/checker/funcs.txt')]
fs=[f for f in fs if f.split('|')[2][0].islower() and f.split('|')[2]!='main']
def run(l,props=None):
    v=tempfile.mkdtemp(prefix='in_',dir='/tmp')
    try:
        shutil.copy('/verif/known_findings.txt',v)
        p=subprocess.run([os.environ.get('CHK','/verif/bin/checker')]+(props or ALL.split()),capture_output=True,text=True,env=dict(ENV,VERIF_DIR=v,NZ_FORGET=','.join(l)))
        return p.returncode,p.stdout+p.stderr
    finally: shutil.rmtree(v)
def one(seed):
    l=random.Random(seed).sample(fs,int(sys.argv[3]) if len(sys.argv)>3 else 15)
    rc,o=run(l); n=re.findall(r'normalised: (\d+)',o); res=[]
    if rc==0: return seed,n,res
    props=sorted(set(re.findall(r'VIOLATION property=(C\d+)',o)))
    todo=[l]
    while todo:
        t=todo.pop(); rc,o2=run(t,props)
        if rc==0: continue
        if len(t)==1: res.append((t[0],o2))
        else: todo+=[t[:len(t)//2],t[len(t)//2:]]
    if not res: res.append(('COMBINED '+','.join(l),o))
    return seed,n,res
f=open(os.environ.get('OUT','/tmp/in.out'),'w')
with ThreadPoolExecutor(int(os.environ.get('J','6'))) as ex:
    for x in as_completed([ex.submit(one,s) for s in range(int(sys.argv[1]),int(sys.argv[2]))]):
        seed,n,res=x.result(); print(seed,n)
        for h,o in res:
            print('  ',h)
            for y in o.split('\n'):
                if 'rule:' in y or 'construct:' in y or 'VIOLATION' in y: print('      ',y[:200])
            f.write('=== %s\n%s\n'%(h,o)); f.flush()
        sys.stdout.flush()
