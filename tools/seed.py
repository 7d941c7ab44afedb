#!/usr/bin/env python3
"""seed.py make ID PROP spec.py | verify ID... | all
make: builds seeded/ID from a spec (python dict in a file); verify: applies the patch to a scratch copy of /repo,
runs build, tests, demo (both ways) and the property's check."""
import sys,subprocess,shutil,os,json,tempfile
V='/verif'; S=V+'/seeded'
BASE=set(json.load(open('/opt/vp/BASELINE.json')).get('tests',[])) if os.path.exists('/opt/vp/BASELINE.json') else set()
DEMO='''#!/bin/bash
# runs demo_test.go inside package %(pkg)s of the repository in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(dir)szz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
export TMPDIR="$t"
go test -count=1 -vet=off -overlay "$t/overlay.json" -run '^TestDemo$' ./%(dir)s
'''
def sh(cmd,cwd=None,timeout=600):
    return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout)
def make(i,spec):
    d=S+'/'+i; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='seed'); r=w+'/r'
    shutil.copytree('/repo',r,symlinks=True)
    for f,old,new in spec['edits']:
        s=open(r+'/'+f).read()
        if s.count(old)<1: print(i,'NOT FOUND',f,repr(old)); shutil.rmtree(w); return False
        open(r+'/'+f,'w').write(s.replace(old,new,1))
    fs=set(e[0] for e in spec['edits'])
    sh('gofmt -w '+' '.join(fs),r)
    p=sh('git diff',r).stdout
    open(d+'/patch.diff','w').write(p)
    pk=spec.get('pkg','')
    if 'demo' in spec: open(d+'/demo.sh','w').write(spec['demo'])
    else: open(d+'/demo.sh','w').write(DEMO%{'pkg':pk or '.','dir':(pk+'/') if pk else ''})
    os.chmod(d+'/demo.sh',0o755)
    for n,t in spec.get('files',{}).items(): open(d+'/'+n,'w').write(t)
    if 'test' in spec: open(d+'/demo_test.go','w').write(spec['test'])
    json.dump({'property':spec['property'],'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
    return True
def verify(i,checks=None):
    d=S+'/'+i; meta=json.load(open(d+'/meta.json'))
    w=tempfile.mkdtemp(prefix='seed'); r=w+'/repo'; dd=w+'/demo'
    shutil.copytree('/repo',r,symlinks=True)
    shutil.copytree(d,dd); 
    for x in ('patch.diff','meta.json'): os.remove(dd+'/'+x)
    res=[]
    try:
        p=sh('bash %s/demo.sh'%dd,r); ok0=p.returncode==0
        if not ok0: res.append('DEMO FAILS UNCHANGED:'+(p.stdout+p.stderr)[-600:])
        p=sh('git apply %s/patch.diff'%d,r)
        if p.returncode: res.append('PATCH:'+p.stderr[:300])
        p=sh('go build ./... && go vet ./... ',r)
        p=sh('go build ./...',r)
        if p.returncode: res.append('BUILD:'+p.stderr[:300])
        p=sh('go test -count=1 ./data ./gcode/...',r)
        if p.returncode and 'FAIL' in p.stdout and '[build failed]' not in p.stdout: res.append('TESTS:'+p.stdout[-400:])
        p=sh('bash %s/demo.sh'%dd,r)
        if p.returncode==0: res.append('DEMO PASSES WITH PATCH')
        elif 'TestDemo' not in p.stdout and 'DEMO' not in p.stdout: res.append('DEMO ODD:'+(p.stdout+p.stderr)[-500:])
        outs=[]
        for c in (checks or [meta['property']]):
            p=sh('%s/bin/gsv check %s %s %s'%(V,c,r,w+'/out'))
            l=[x for x in p.stdout.split('\n') if x.strip()]
            outs.append('%s rc=%d %s'%(c,p.returncode,(l[0][:200] if l else '')))
        cj=V+'/tools/caught.json'; cm=json.load(open(cj)) if os.path.exists(cj) else {}
        if checks: cm[i]=[c for c,o in zip(checks,outs) if 'rc=1' in o]
        else:
            c=meta['property']; cm[i]=sorted(set(cm.get(i,[]))-{c}|({c} if 'rc=1' in outs[0] else set()))
        json.dump(cm,open(cj,'w'),indent=1,sort_keys=True)
        print(i,'|','; '.join(res) or 'valid','|',' || '.join(outs),flush=True)
    finally: shutil.rmtree(w)
if __name__=='__main__':
    if sys.argv[1]=='make':
        ns={}
        exec(open(sys.argv[2]).read(),ns)
        only=sys.argv[3:]
        for i,s in ns['SPECS'].items():
            if only and i not in only: continue
            if make(i,s): verify(i)
    elif sys.argv[1]=='verify':
        for i in sys.argv[2:]: verify(i)
    elif sys.argv[1]=='all':
        for i in sorted(os.listdir(S)): verify(i)
    elif sys.argv[1]=='matrix':
        reg=[l.split()[0] for l in sh(V+'/bin/gsv list').stdout.splitlines()]
        for i in sorted(os.listdir(S)): verify(i,reg)
