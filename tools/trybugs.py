#!/usr/bin/env python3
"""Run the quick check of the property of each planted bug (or of those named)
against a scratch copy of /repo with the bug applied; write tools/bugs.json.
usage: trybugs.py [--all-props] [ID...]"""
import sys, os, subprocess, shutil, json, time, tempfile
ids=[a for a in sys.argv[1:] if not a.startswith('--')]
S='/verif/seeded'
ids=ids or sorted(os.listdir(S))
res='/tmp/bugs.json'
out=json.load(open(res)) if os.path.exists(res) else {}
claimed=[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
for i in ids:
    meta=json.load(open(f'{S}/{i}/meta.json'))
    props=claimed if '--all-props' in sys.argv else [meta['property']]
    tmp=tempfile.mkdtemp(prefix='try-',dir='/tmp')
    try:
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {tmp}; cd {tmp} && git init -q && git apply {S}/{i}/patch.diff',shell=True,check=True)
        for p in props:
            t=time.time()
            r=subprocess.run(['/verif/run.sh',p,'quick'],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=tmp,VERIF_SEED=os.environ.get('VERIF_SEED','1'),VERIF_TIER='quick'))
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.setdefault(i,{})[p]=r.returncode
            print(i,p,'rc',r.returncode,'%.0fs'%(time.time()-t),v[:1],r.stderr.strip().splitlines()[-1:] if r.returncode not in(0,1) else '',flush=True)
            if r.returncode==1:
                print('    ',[l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')][-2:])
    finally:
        shutil.rmtree(tmp)
    json.dump(out,open(res,'w'),indent=1)
