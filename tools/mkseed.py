#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes /verif/seeded/<id>/ from a spec and confirms it in a scratch copy.
SPEC defines id, property, edits=[(file, old, new)], pkg (dir of the demo test) and demo (Go test file text,
function TestZZDemo), needs, breaks."""
import os,subprocess,sys,json,shutil,tempfile
DEMO='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$tmp/o.json"
TMPDIR="$tmp" go test -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
for f in sys.argv[1:]:
    s={}; exec(open(f).read(),s)
    d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(dir='/tmp'); r=w+'/repo'
    sh(f'git -C /repo worktree prune; cp -a /repo {r}')
    try:
        if 'diff' in s:
            open(w+'/p.diff','w').write(s['diff'])
        for name,old,new in s.get('edits',[]):
            t=open(f'{r}/{name}').read()
            assert t.count(old)==1,(s['id'],name,t.count(old),old)
            open(f'{r}/{name}','w').write(t.replace(old,new))
        p=sh('git diff',cwd=r).stdout
        open(d+'/patch.diff','w').write(p)
        open(d+'/demo_test.go.txt','w').write(s['demo'])
        open(d+'/demo.sh','w').write(DEMO%{'pkg':s['pkg']}); os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
        b=sh('go build ./...',cwd=r,env=env)
        t=sh('go test -json -vet=off -count=1 ./...',cwd=r,env=env)
        ok=set()
        for l in t.stdout.splitlines():
            try: e=json.loads(l)
            except: continue
            if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
        base=json.load(open('/opt/vp/BASELINE.json'))
        stable=base.get('stable') or base.get('tests') or base
        names=stable if isinstance(stable,list) else list(stable)
        miss=[n for n in names if not any(o==n or o.endswith(n) or o.replace('/',' ').endswith(n) or n.split('::')[-1].split('/')[-1]==o.split('/')[-1] for o in ok)]
        bad=sh(d+'/demo.sh',cwd=r)
        good=sh(d+'/demo.sh',cwd='/repo')
        print(s['id'],'build',b.returncode,'missing',miss[:3],'demo good',good.returncode,'bad',bad.returncode, '' if good.returncode==0 else good.stdout[-1500:]+good.stderr[-500:], '' if bad.returncode else bad.stdout[-300:])
    finally:
        shutil.rmtree(w)
