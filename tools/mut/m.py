#!/usr/bin/env python3
"""m.py PROP file old new [count-index]  : mutate one occurrence, build, check"""
import sys,subprocess,os,shutil
def run(prop,f,old, new=None,idx=0,quiet=False,tests=False):
    import tempfile
    d=tempfile.mkdtemp(prefix='m_',dir='/tmp/mut'); repo=d+'/repo'
    try:
        subprocess.run(['cp','-a','/repo',repo],check=True)
        for e in (old if isinstance(old,list) else [(f,old,new,idx)]):
            if len(e)==2: e=(f,)+tuple(e)
            ff,o,nw=e[:3]; ix=e[3] if len(e)>3 else 0
            p=repo+'/'+ff; s=open(p).read()
            pos=-1
            for _ in range(ix+1):
                pos=s.find(o,pos+1)
            if pos<0: return 'NOTFOUND',o[:80]
            s=s[:pos]+nw+s[pos+len(o):]
            open(p,'w').write(s)
        b=subprocess.run(['go','build','./...'],cwd=repo,capture_output=True,text=True)
        if b.returncode: return 'NOBUILD',b.stderr
        v=d+'/verif'; os.makedirs(v); shutil.copy('/verif/known_findings.txt',v)
        e=dict(os.environ,TICAT_REPO=repo,VERIF_DIR=v,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local')
        c=subprocess.run(['/verif/bin/checker']+prop.split(','),capture_output=True,text=True,env=e)
        return ('CAUGHT' if c.returncode==1 else 'quiet' if c.returncode==0 else 'ERR%d'%c.returncode), c.stdout
    finally:
        shutil.rmtree(d)
def batch(items):
    from concurrent.futures import ThreadPoolExecutor
    def one(it):
        return it, run(*it[1:])
    with ThreadPoolExecutor(6) as ex:
        for it,(res,out) in ex.map(one,items):
            print('%-8s %s [%s]'%(res,it[0],it[1]))
            if res in('NOTFOUND','NOBUILD') or '-v' in sys.argv or res.startswith('ERR'): print(out[-1500:])
            elif res=='CAUGHT':
                for l in out.split('\n'):
                    if l.strip().startswith('construct:'): print('            ',l.strip())
