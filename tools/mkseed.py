#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)build /verif/seeded/<id>/ from tools/seeds/*.py and confirm each one.

Each tools/seeds/X.py defines SEEDS = [dict(id, prop, pkg, file, edits=[(old,new)...], demo=GO, needs, what)].
edits may be (file, old, new) for other files."""
import sys,os,json,subprocess,glob,shutil,tempfile,runpy
V='/verif/seeded'
SH='''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD/%(pkg)s" "$d" >"$t/o.json"
go test %(flags)s -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run TestSeedDemo ./%(pkg)s
'''
def run(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,shell=True,capture_output=True,text=True,**k)
def stable(): return set(json.load(open('/opt/vp/BASELINE.json'))['passed']) if 'passed' in json.load(open('/opt/vp/BASELINE.json')) else None
def tests(cwd):
    r=run('. /opt/vp/env.sh; go test -json -vet=off -count=1 ./...',cwd)
    f=set()
    for l in r.stdout.splitlines():
        try: j=json.loads(l)
        except: continue
        if j.get('Action')=='fail' : f.add(j.get('Package','')+'/'+j.get('Test',''))
    return f,r.returncode
seeds=[]
for f in sorted(glob.glob('/verif/tools/seeds/*.py')): seeds+=runpy.run_path(f)['SEEDS']
want=set(sys.argv[1:])
base=None
bad=0
for s in seeds:
    if want and s['id'] not in want and s['prop'] not in want: continue
    t=tempfile.mkdtemp(prefix='seed')
    w=t+'/repo'
    subprocess.check_call(['cp','-a','/repo',w])
    if base is None: base,_=tests(w)
    err=None
    files=set()
    for e in s['edits']:
        fn,o,n=(s['file'],)+e if len(e)==2 else e
        p=w+'/'+fn; x=open(p).read()
        if x.count(o)!=1: err='edit matches %d times: %r'%(x.count(o),o[:60]); break
        open(p,'w').write(x.replace(o,n)); files.add(fn)
    d=V+'/'+s['id']
    if not err:
        os.makedirs(d,exist_ok=True)
        demo=s['demo']
        open(d+'/demo_test.go','w').write(demo)
        open(d+'/demo.sh','w').write(SH%dict(pkg=s["pkg"],flags=s.get("flags",""))); os.chmod(d+'/demo.sh',0o755)
        diff=run('git diff',w).stdout
        open(d+'/patch.diff','w').write(diff)
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['what']),open(d+'/meta.json','w'),indent=1)
        b=run('. /opt/vp/env.sh; go build ./... ',w)
        if b.returncode: err='build: '+b.stderr[:300]
    if not err:
        f,_=tests(w)
        if f-base: err='tests fail: %s'%sorted(f-base)[:3]
    if not err:
        r1=run('bash '+d+'/demo.sh',w)
        if r1.returncode==0: err='demo passes with the patch'
        elif 'build failed' in r1.stdout+r1.stderr or 'setup failed' in r1.stdout: err='demo build: '+(r1.stdout+r1.stderr)[:500]
    if not err:
        run('git checkout -- .',w)
        r0=run('bash '+d+'/demo.sh',w)
        if r0.returncode: err='demo fails on the unchanged tree: '+(r0.stdout+r0.stderr)[:600]
    shutil.rmtree(t)
    if err:
        bad+=1
        shutil.rmtree(d,ignore_errors=True)
    print(s['id'],s['prop'],'ok' if not err else 'BAD '+err,flush=True)
sys.exit(bad>0)
