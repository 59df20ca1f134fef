#!/usr/bin/env python3
"""mm.py MUTFILE [props]: MUTFILE python defining M=[(label, expect_props or [], [(file,old,new),...])]. Each is applied to a scratch copy of /repo and all checks are run."""
import sys,os,subprocess,shutil,tempfile,concurrent.futures as cf,re
ns={}; exec(open(sys.argv[1]).read(),ns); M=ns['M']
sel=[a for a in sys.argv[2:] if a.startswith('=')]
props=[a for a in sys.argv[2:] if not a.startswith('=')]
if sel: M=[m for m in M if any(s[1:] in m[0] for s in sel)]
def sh(c,cwd,env=None):
    return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,executable='/bin/bash',env=env)
def one(m):
    label,exp,edits=m
    w=tempfile.mkdtemp(prefix='mm'); r=w+'/repo'
    try:
        sh('cp -a /repo '+r,'/')
        for f,old,new in edits:
            p=os.path.join(r,f)
            s=open(p).read() if os.path.exists(p) else ''
            if old=='' : s=s+new
            else:
                if s.count(old)<1: return label+': OLD TEXT MISSING in '+f+': '+repr(old)
                s=s.replace(old,new,1)
            open(p,'w').write(s)
        b=sh('. /opt/vp/env.sh; go build ./...',r)
        if b.returncode: return label+': BUILD FAIL '+b.stdout[:400]
        out=[]
        ps=props or [p for p in ns.get('P',[])] or exp
        for p in ps:
            os.makedirs(w+'/v',exist_ok=True); shutil.copy('/verif/known_findings.txt',w+'/v')
            env=dict(os.environ,FGB_REPO=r)
            x=sh('. /opt/vp/env.sh; timeout 600 %s -prop %s -verif %s/v'%(os.environ.get('CK','/tmp/ck'),p,w),r,env)
            rules=re.findall(r'rule: (.*)',x.stdout)
            und=re.findall(r'cannot decide.*|analysis failed.*',x.stdout)
            out.append('%s rc=%d %s %s'%(p,x.returncode,rules[:3],und[:1]))
        t=''
        if not os.environ.get('NOTEST'):
            y=sh('. /opt/vp/env.sh; go test -vet=off -count=1 ./... 2>&1 | grep -c "^--- FAIL\\|^    --- FAIL"',r)
            t=' [fails:%s]'%y.stdout.strip()
        return label+t+': '+'\n      '.join(out)
    finally: shutil.rmtree(w)
with cf.ThreadPoolExecutor(6) as ex:
    for x in ex.map(one,M): print(x,flush=True)
