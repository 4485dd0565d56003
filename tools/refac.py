#!/usr/bin/env python3
"""refac.py FROM TO [count] [kinds] [funcs]: development tool. For each seed,
applies random behaviour-preserving transformations to a scratch copy of /repo
and runs every check on it. On an alarm, finds the transformation that causes it."""
import re,sys,subprocess,os,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor,as_completed
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local')
ALL=os.environ.get('PROPS') or ' '.join('C%02d'%i for i in range(1,1+int(os.environ.get('NPROPS','20'))))
def once(seed,count,kinds,funcs,only='',keep=False,props=None):
    d=tempfile.mkdtemp(prefix='rf_',dir='/tmp'); repo=d+'/repo'
    try:
        os.makedirs(repo)
        subprocess.run('tar -C /repo --exclude=.git --exclude=./bin -cf - . | tar -C %s -xf -'%repo,shell=True,check=True)
        c=['/tmp/refac','-dir',repo,'-seed',str(seed),'-count',str(count),'-kinds',kinds,'-funcs',funcs]
        if only!='': c+=['-only',only]
        a=subprocess.run(c,capture_output=True,text=True,env=ENV,cwd=repo)
        if a.returncode: return 'TOOL',a.stderr[-800:],[]
        b=subprocess.run(['go','build','./...'],cwd=repo,capture_output=True,text=True,env=ENV)
        if b.returncode: return 'NOBUILD',a.stdout+b.stderr[:1500],[]
        v=d+'/verif'; os.makedirs(v); shutil.copy('/verif/known_findings.txt',v)
        e=dict(ENV,TICAT_REPO=repo,VERIF_DIR=v)
        p=subprocess.run([os.environ.get('CHK','/verif/bin/checker')]+(props or ALL.split()),capture_output=True,text=True,env=e)
        lines=a.stdout.strip().split('\n')
        if p.returncode==0: return 'quiet',a.stdout,lines
        out=a.stdout+p.stdout
        if keep:
            df=subprocess.run(['diff','-ru','/repo/pkg',repo+'/pkg'],capture_output=True,text=True).stdout
            out+='\n'+df
        return 'ALARM',out,lines
    finally: shutil.rmtree(d)
def viol(o):
    return [l for l in o.split('\n') if 'VIOLATION' in l or 'construct:' in l or 'rule:' in l]
def one(seed,count,kinds,funcs):
    r,o,l=once(seed,count,kinds,funcs)
    res=[(seed,r,o if r!='quiet' else '')]
    if r=='ALARM':
        props=sorted(set(re.findall(r'VIOLATION property=(C\d+)',o)))
        todo=[list(range(len(l)))]; found=False
        while todo:
            t=todo.pop()
            r2,o2,l2=once(seed,count,kinds,funcs,','.join(map(str,t)),len(t)==1,props)
            if r2=='quiet': continue
            if len(t)==1: found=True; res.append((seed,'  SINGLE %s %d'%(r2,t[0]),o2))
            else: todo+=[t[:len(t)//2],t[len(t)//2:]]
        if not found: res.append((seed,'  COMBINED',o))
    return res,len(l)
if __name__=='__main__':
    a,b=int(sys.argv[1]),int(sys.argv[2]); count=int(sys.argv[3]) if len(sys.argv)>3 else 20
    kinds=sys.argv[4] if len(sys.argv)>4 else ''; funcs=sys.argv[5] if len(sys.argv)>5 else ''
    log=os.environ.get('OUT','/tmp/rf.out'); f=open(log,'w'); n=0
    with ThreadPoolExecutor(int(os.environ.get('J','6'))) as ex:
        for res,k in (x.result() for x in as_completed([ex.submit(one,s,count,kinds,funcs) for s in range(a,b)])):
            n+=k
            for s,r,o in res:
                if r=='quiet': continue
                print(s,r)
                if 'SINGLE' in r:
                    print('   ',o.split('\n')[0]); 
                    for x in viol(o): print('      ',x[:220])
                elif r!='ALARM': print(o[-1200:])
                f.write('=== seed %d %s\n%s\n'%(s,r,o)); f.flush()
            sys.stdout.flush()
    print('transformations:',n)
