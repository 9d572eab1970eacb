#!/usr/bin/env python3
import json,re,glob,subprocess
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
src=''.join(open(f).read() for f in glob.glob('/verif/contracts/**/*.go',recursive=True))
have=set(re.findall(r'C\d\d',' '.join(re.findall(r'^//@ property (.*)$',src,re.M))))
NOTE=json.load(open('/verif/tools/notes.json'))
checks=[];na=[]
for p in props:
    if p in have:
        checks.append(dict(property=p,quick_cmd=f'./check {p} quick',thorough_cmd=f'./check {p} thorough',evidence_file=f'evidence/{p}.json',
          technique='contract-based deductive verification of the real code (gover: weakest-precondition-style symbolic execution of the go/ssa form of /repo, SMT-discharged); counterexamples replayed by concrete tests',
          level='proof',level_note=NOTE.get(p,NOTE['all'])))
    else:
        na.append(dict(property=p,reason=NOTE.get('na:'+p,'contracts not written yet')))
m=dict(version=1,setup_cmd='./check setup',checks=checks,not_applicable=na,notes='No hooks in /repo: contracts are overlaid at load time. /repo commits are fix: commits only, listed in known_findings.txt.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed;',[x['property'] for x in na])
