#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list below."""
import json,sys
TECH={
 'T':('property-based testing: generated terminal input against a reference terminal / metamorphic relations, ASan, coverage-guided mutation, shrinking','search'),
 'R':('property-based testing: generated recordings, round trips against independent encoders and decoders, mutation, ASan, shrinking','search'),
 'S':('property-based testing: generated data, write/read schedules and faults against reference codecs, shrinking','search'),
 'L':('property-based testing: generated histories and injected schedules against a reference model, shrinking','search'),
 'U':('property-based testing of the built programs: generated files, inputs, keys and signals against a reference model, shrinking','search'),
}
SPECIAL={'T13':'exhaustive enumeration of the input domain by the property-based harness against a frozen reference table',
         'T14':'exhaustive and random property-based testing against the documented palette and metric'}
NOTE={
 'T':'Exploration: hundreds of thousands of generated histories per run on the real code under AddressSanitizer; nothing is proved beyond the cases run. Trusts the reference terminal in harness/vt.cc (written from the code and its documentation, cross-checked by several thousand million comparisons) and the frozen width and charset tables.',
 'R':'Exploration: generated recordings of all formats on the real readers and writers under AddressSanitizer; trusts the encoders, decoders and JSON reader written for the harness.',
 'S':'Exploration with injected faults: trusts the installed compression libraries as reference.',
 'L':'Exploration; schedules are enumerated and sampled at the granularity of allocations, terminal writes and terminal copies, not of single memory accesses.',
 'U':'Exploration on the real programs built from the tree; clocks, signals and terminals are replaced by stand-ins where named in DESIGN.md.',
}
claimed=set(sys.argv[1].split()) if len(sys.argv)>1 else None
props=[json.loads(l) for l in open('properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if claimed is not None and i[0] not in claimed and i not in claimed: na.append({'property':i,'reason':'check not built yet'}); continue
    checks.append({'property':i,'quick_cmd':f'python3 run.py {i}','thorough_cmd':f'python3 run.py {i} --tier thorough','technique':SPECIAL.get(i,TECH[i[0]][0]),'level':'exploration','level_note':NOTE[i[0]]})
m={'version':1,'setup_cmd':'python3 setup.py','checks':checks,'not_applicable':na,
   'notes':'No hooks: the checks compile /repo\'s sources unchanged. run.py takes tier and seed from VERIF_TIER and VERIF_SEED; run.py ID --replay FILE runs one saved case.'}
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False); open('MANIFEST.json','a').write('\n')
