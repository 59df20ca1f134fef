# mdbg.sh MUTFILE LABEL PROP [env]: make a mutated copy in /tmp/mrepo and run check with debug
python3 - "$1" "$2" <<'P'
import sys,os,shutil,subprocess
ns={}; exec(open(sys.argv[1]).read(),ns)
shutil.rmtree('/tmp/mrepo',ignore_errors=True); subprocess.run('cp -a /repo /tmp/mrepo',shell=True)
for m in ns['M']:
    if m[0]==sys.argv[2]:
        for f,o,n in m[2]:
            p='/tmp/mrepo/'+f; s=open(p).read() if os.path.exists(p) else ''
            open(p,'w').write(s.replace(o,n,1) if o else s+n)
P
. /opt/vp/env.sh
FGB_REPO=/tmp/mrepo FGB_STACK=1 timeout 600 /tmp/ck -prop $3 -verif /tmp/x > /tmp/w.out 2>&1
grep "rule:" /tmp/w.out | head -20
