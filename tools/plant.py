#!/usr/bin/env python3
"""Plant a bug: build patch, demo and meta under /verif/seeded/<id>, and confirm
in a scratch copy that it compiles, passes the stable tests, and that the demo
passes without and fails with it.

usage: plant.py SPEC.py   [ID] where SPEC.py defines
  SPECS = [dict(ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Go test body), RACE=False), ...]
"""
import sys, os, subprocess, shutil, json, tempfile
if len(sys.argv)==2:
    env={}
    exec(open(sys.argv[1]).read(),env)
    from concurrent.futures import ThreadPoolExecutor
    def one(i):
        r=subprocess.run([sys.executable,sys.argv[0],sys.argv[1],i],capture_output=True,text=True)
        return (r.stdout+r.stderr).strip()
    with ThreadPoolExecutor(6) as ex:
        for o in ex.map(one,[s['ID'] for s in env['SPECS'] if not os.path.exists('/verif/seeded/'+s['ID']+'/meta.json')]): print(o)
    sys.exit(0)
env={}
exec(open(sys.argv[1]).read(),env)
spec={'RACE':False,'IMPORTS':[],'TOP':''}
spec.update([s for s in env['SPECS'] if s['ID']==sys.argv[2]][0])
ID=spec['ID']
def sh(cmd,cwd,timeout=600):
    return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout)
tmp=tempfile.mkdtemp(prefix='plant-',dir='/tmp')
try:
    work=tmp+'/repo'
    sh(f'git -C /repo worktree prune; cp -a /repo {work}','/')
    sh('git checkout -q -- . ; git clean -fdq',work)
    for f,o,n in spec['EDITS']:
        p=work+'/'+f
        s=open(p).read()
        if s.count(o)!=1:
            sys.exit(f'{ID}: {f}: old text occurs {s.count(o)} times:\n{o}')
        open(p,'w').write(s.replace(o,n))
    g=sh('gofmt -l .',work).stdout
    diff=sh('git diff',work).stdout
    d='/verif/seeded/'+ID
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    imps=''.join('\t"%s"\n'%i for i in ['testing']+spec['IMPORTS'])
    open(d+'/demo_test.go','w').write('package linear\n\nimport (\n'+imps+')\n\n'+spec['TOP']+'\nfunc TestDemoPlanted(t *testing.T) {\n'+spec['DEMO'].strip('\n')+'\n}\n')
    sh('gofmt -w demo_test.go',d)
    race='-race ' if spec['RACE'] else ''
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Runs demo_test.go inside the package of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${{HOME:-/root}} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{{"Replace":{{"%s/zz_planted_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$here" >"$t/o.json"
timeout 240 go test {race}-count=1 -timeout 200s -overlay "$t/o.json" -run '^TestDemoPlanted$' .
''')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':spec['PROP'],'needs':spec['NEEDS'],'what_it_breaks':spec['BREAKS']},open(d+'/meta.json','w'),indent=1)
    # confirm
    base=json.load(open('/opt/vp/BASELINE.json'))
    r=sh('go build ./... && go vet . 2>&1 | head -5; timeout 120 go test -json -timeout 100s -count=1 ./... > ../t.json; true',work)
    passed=set(); failed=set()
    for l in open(tmp+'/t.json'):
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Test') and e['Action'] in('pass','fail'):
            (passed if e['Action']=='pass' else failed).add(e['Test'])
    if failed or len(passed)<300:
        shutil.rmtree(d); sys.exit(f'{ID}: REJECTED tests fail: {sorted(failed)[:5]} passed {len(passed)} {r.stderr[:400]}')
    a=sh('bash '+d+'/demo.sh','/repo')
    if a.returncode!=0:
        print(a.stdout[-1500:],a.stderr[-800:]); shutil.rmtree(d); sys.exit(f'{ID}: REJECTED demo fails on the unchanged tree')
    b=sh('bash '+d+'/demo.sh',work)
    if b.returncode==0:
        shutil.rmtree(d); sys.exit(f'{ID}: REJECTED demo passes with the patch')
    if 'build failed' in b.stdout:
        print(b.stdout[-1000:]); shutil.rmtree(d); sys.exit('build failed')
    print(f'{ID}: ok ({len(passed)} tests pass; demo: {b.stdout.strip().splitlines()[:3]})')
finally:
    shutil.rmtree(tmp,ignore_errors=True)
