#!/usr/bin/env python3
"""Confirms a planted change in a scratch copy of /repo and stores it under /verif/seeded/<id>/.

usage: plant.py SPEC.json   (or import plant())
SPEC: {"id","property","needs","what_it_breaks","pkg","edits":[[file,old,new],...],"demo":"go test source"}
The demonstration is an in-package Go test added by an overlay; demo.sh finds it beside itself.
"""
import json, os, subprocess, sys, shutil, tempfile
DEMO='''#!/bin/bash
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/x_seeded_test.go\\":\\"$d/demo_test.go\\"}}" > "$o"
go test -vet=off -count=1 -timeout 120s -overlay "$o" -run '^TestSeeded$' ./%(pkg)s
rc=$?
rm -f "$o"
exit $rc
'''
def sh(cmd,cwd,**k):
    return subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,executable='/bin/bash',**k)
def plant(id,property,needs,what_it_breaks,edits,demo,pkg='flatgeobuf',demosh=None,store=True):
    w=tempfile.mkdtemp(prefix='plant')
    r=os.path.join(w,'repo')
    try:
        sh('cp -a /repo '+r,'/')
        for f,old,new in edits:
            p=os.path.join(r,f); s=open(p).read()
            if s.count(old)!=1: print(id,'FAIL: old text occurs %d times in %s: %r'%(s.count(old),f,old)); return False
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','diff'],cwd=r,capture_output=True,text=True).stdout
        b=sh('. /opt/vp/env.sh; go build ./... && go vet ./packedrtree ./flatgeobuf >/dev/null 2>&1 || go build ./...',r)
        if b.returncode: print(id,'FAIL build',b.stdout); return False
        t=sh('. /opt/vp/env.sh; go test -json -vet=off -count=1 ./... > %s/t.jsonl; python3 /opt/vp/results.py %s/t.json gojson:%s/t.jsonl >/dev/null'%(w,w,w),r)
        res=json.load(open(w+'/t.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed=set(res.get('passed') or [])
        miss=[x for x in base if x not in passed]
        if miss: print(id,'FAIL stable tests broken',miss[:5]); return False
        d=os.path.join(w,'demo'); os.makedirs(d)
        open(d+'/demo.sh','w').write(demosh or DEMO%dict(pkg=pkg)); os.chmod(d+'/demo.sh',0o755)
        if demo: open(d+'/demo_test.go','w').write(demo)
        x=sh('timeout 290 bash %s/demo.sh'%d,r)
        y=sh('timeout 290 bash %s/demo.sh'%d,'/repo')
        if x.returncode==0: print(id,'FAIL: demo passes with the change',x.stdout[-800:]); return False
        if y.returncode!=0: print(id,'FAIL: demo fails on the unchanged tree',y.stdout[-1500:]); return False
        if '[build failed]' in x.stdout or 'setup failed' in x.stdout:
            if not demosh: print(id,'FAIL: demo does not build',x.stdout[-800:]); return False
        if store:
            o='/verif/seeded/'+id; os.makedirs(o,exist_ok=True)
            open(o+'/patch.diff','w').write(diff)
            json.dump(dict(property=property,needs=needs,what_it_breaks=what_it_breaks),open(o+'/meta.json','w'),indent=1)
            for f in os.listdir(d): shutil.copy(os.path.join(d,f),o)
        print(id,'ok'); return True
    finally:
        shutil.rmtree(w)
