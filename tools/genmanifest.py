#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the harnesses registered in /verif/mc."""
import json, subprocess, re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out=subprocess.run(['/verif/run.sh','list'],capture_output=True,text=True,check=True).stdout
have=set(re.findall(r'^(C\d\d) ',out,re.M))
TECH={
 'default':'explicit enumeration of all bounded inputs/histories of the real code against a reference model (stateless model checking)',
 'C19':'preemption-bounded exploration of all interleavings of the real code under a controlled scheduler, plus a free-running race-detector pass',
}
NOTE={
 'default':'Within the stated bounds every execution of the real package is compared with an independent reference model; nothing is claimed for values outside the enumerated alphabets or beyond the size sweeps. Trusts the Go toolchain, encoding/json, strconv and math/big as oracles and an equivalence-checked fast IsNil.',
 'C19':'All schedules of 2-3 goroutines up to the preemption bound with every statement of the package as a scheduling point; memory orderings weaker than sequential consistency are left to the free-running race-detector pass of the same bodies.',
}
checks=[]
for p in props:
    i=p['id']
    if i not in have: continue
    checks.append(dict(property=i, quick_cmd=f'bash /verif/run.sh {i} quick', thorough_cmd=f'bash /verif/run.sh {i} thorough',
        evidence_file=f'evidence/{i}.json', technique=TECH.get(i,TECH['default']), level='model_checking', level_note=NOTE.get(i,NOTE['default'])))
na=[dict(property=p['id'],reason='check not built yet') for p in props if p['id'] not in have]
m=dict(version=1, setup_cmd='bash /verif/run.sh setup',
  hooks=dict(guard='none',enable='no hooks are committed to /repo; C19 rewrites a copy of the package at check time with go build -overlay',source_commits=[]),
  checks=checks, not_applicable=na,
  notes='Replay a recorded violation with: bash /verif/run.sh replay evidence/replay-<property>-<harness>.json')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not built')
