#!/usr/bin/env python3
"""Makes and confirms a planted bug: mkbug.py SPEC.json, with fields id, property, needs,
what_it_breaks, pkg (directory of the demonstration), edits [[file, old, new], ...] and
demo (the text of a Go test named TestDemo)."""
import json,os,subprocess,sys,tempfile,shutil
s=json.load(open(sys.argv[1])) if sys.argv[1].endswith('.json') else None
DEMO='''#!/bin/bash
# Runs TestDemo inside package %s of the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d)
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%s
'''
def make(s):
    d='/verif/seeded/'+s['id']
    os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='seed.',dir='/tmp/w')
    try:
        subprocess.check_call(['cp','-a','/repo',w+'/repo'])
        r=w+'/repo'
        env=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off')
        open(d+'/demo_test.go','w').write(s['demo'])
        open(d+'/demo.sh','w').write(DEMO%(s['pkg'],s['pkg'],s['pkg']))
        os.chmod(d+'/demo.sh',0o755)
        json.dump({k:s[k] for k in('property','needs','what_it_breaks')},open(d+'/meta.json','w'),indent=1)
        a=subprocess.run(['bash',d+'/demo.sh'],cwd=r,env=env,capture_output=True,text=True)
        if a.returncode: print(s['id'],'DEMO FAILS UNPATCHED',a.stdout[-1500:],a.stderr[-1500:]); return False
        for f,o,n in s['edits']:
            t=open(r+'/'+f).read()
            if t.count(o)!=1: print(s['id'],'edit matches',t.count(o),'times:',o); return False
            open(r+'/'+f,'w').write(t.replace(o,n))
        p=subprocess.run(['git','diff'],cwd=r,capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(p)
        b=subprocess.run(['go','build','./...'],cwd=r,env=env,capture_output=True,text=True)
        if b.returncode: print(s['id'],'NO BUILD',b.stderr[-1500:]); return False
        t=subprocess.run(['go','test','-vet=off','-count=1','./...'],cwd=r,env=env,capture_output=True,text=True)
        if t.returncode: print(s['id'],'TESTS FAIL',t.stdout[-2000:]); return False
        a=subprocess.run(['bash',d+'/demo.sh'],cwd=r,env=env,capture_output=True,text=True)
        if a.returncode==0: print(s['id'],'DEMO PASSES PATCHED'); return False
        # the changed lines must be the original repository's
        root=subprocess.check_output(['git','rev-list','--max-parents=0','HEAD'],cwd=r,text=True).split()[-1]
        print(s['id'],'ok'); print('   ',(a.stdout.strip().splitlines() or [''])[1 if len(a.stdout.splitlines())>1 else 0][:200])
        return True
    finally:
        shutil.rmtree(w)
if s: sys.exit(0 if make(s) else 1)
