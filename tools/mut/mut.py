#!/usr/bin/env python3
# usage: mut.py file.muts [filter]   ; file defines MUTS list of (name, file, old, new) or (name,[(file,old,new)...])
import sys,subprocess,os,concurrent.futures as cf,shutil,re
ns={}
exec(open(sys.argv[1]).read(),ns)
flt=sys.argv[2] if len(sys.argv)>2 else ''
LIM=int(os.environ.get('LIM','2'))
mode=ns.get('MODE','')
def run(m):
    name=m[0]
    edits=m[1] if isinstance(m[1],list) else [m[1:4]]
    d='/tmp/m/w_'+re.sub(r'\W','_',name)
    shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo',d,symlinks=True,ignore=shutil.ignore_patterns('.git'))
    try:
        for f,o,n in edits:
            p=d+'/'+f; s=open(p).read()
            if o not in s: return name,'NOMATCH '+o
            s=s.replace(o,n,1); open(p,'w').write(s)
        r=subprocess.run(['go','build','./...'],cwd=d,capture_output=True,text=True)
        if r.returncode: return name,'NOBUILD '+r.stderr[:300]
        if ns.get('TESTS'):
            r=subprocess.run(['go','test','./...'],cwd=d,capture_output=True,text=True)
            t='' if r.returncode==0 else '[tests fail] '
        else: t=''
        e=dict(os.environ,REPO=d,MODE=mode)
        try: r=subprocess.run([os.environ.get('AN','/tmp/an'),'-known','/verif/known_findings.txt','-repo',d,'-check',mode],env=e,capture_output=True,text=True,timeout=400)
        except subprocess.TimeoutExpired: return name,'TIMEOUT'
        ls=[l for l in (r.stdout+r.stderr).strip().split('\n') if not l.startswith('OK') and not l.startswith('KNOWN')]+['']
        return name,t+'\n      '.join(l[:200] for l in ls[:-1][:LIM])+('' if len(ls)<=LIM+1 else '\n      ... %d'%(len(ls)-1))
    finally:
        shutil.rmtree(d,ignore_errors=True)
ms=[m for m in ns['MUTS'] if flt in m[0]]
with cf.ThreadPoolExecutor(6) as ex:
    for name,res in ex.map(run,ms):
        print('##',name,'->',res or 'CLEAN',flush=True)
