import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
race={'C07','C08','C09','C10','C11','C12','C13','C15','C16','C17','C19'}
what={
'C01':'dense reference model checked after every operation of a random multi-client history over four storage classes',
'C02':'list reference model checked after every operation of a random multi-client history',
'C03':'every live object and decomposition re-read after every mutation of any object, caller slice or returned answer',
'C04':'invalid requests injected at random points of a history; all state compared before and after',
'C05':'caller code made to panic or end its task at a chosen invocation; old-or-new check per entry, then the request repeated',
'C06':'event sequence of every walk checked against the protocol, with interleaved and re-entrant walks',
'C07':'seeded schedules of concurrent readers; results compared with solo runs; race oracle under the same schedules',
'C14':'values damaged to NaN, infinities, denormals, extremes; step budget polynomial in the dimensions; nobody may wait for a killed task',
'C15':'seeded schedules of private histories; logs compared with solo runs; race oracle under the same schedules',
'C17':'status, message and accessors of every rejection against the reasons true of the request; kept rejections read again; race oracle',
'C18':'histories of operations, rejected and failing ones included, and of changes to the slices by the caller; object and slice compared with one model after every operation',
'C19':'real-valued, ill-conditioned and damaged data; every answer of a concurrent history with failing and rejected requests compared bit for bit with the same request put to fresh objects; race oracle; fresh-process runs',
'C16':'interleaved iterators and changes checked against a cursor model; race oracle',
}
checks=[]
na=[]
reasons=json.load(open('/verif/tools/not_applicable.json'))
for p in P:
    i=p['id']
    if i in reasons:
        na.append(dict(property=i,reason=reasons[i])); continue
    w=what.get(i,'seeded schedules of tasks querying shared decompositions with lazily filled caches; every answer checked against the input and against a solo run; race oracle; killed tasks and failing right-hand sides; fresh-process runs')
    checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',
      evidence_file=f'evidence/{i}.json',technique='deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracles)',
      level='exploration',
      level_note=f'Sampled executions of the real code, each decided by one seed: {w}. A pass covers the runs counted in the evidence file, not all inputs. Trusts the simulator (statement-level preemption'+(', Go race detector under the simulated schedule' if i in race else '')+'), the reference models and the numerical error bounds of the harness.'))
m=dict(version=1,setup_cmd='./run.sh warm',checks=checks,not_applicable=na,
 notes='No hooks in /repo: the library is copied and instrumented at build time (sim/instrument). Replay a violation with ./run.sh replay FILE.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
