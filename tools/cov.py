import json,sys
for p in sys.argv[1:]:
  e=json.load(open(f'/verif/evidence/{p}.json'))
  for s in e['coverage']['scenarios']:
    print(p,s['scenario'],'evals',s['evaluations'],'nontrivial',s['distinct_nontrivial'],'wall %.1f'%s['wall_s'])
    for k,v in s['classes'].items(): print('   ',k,v['cases'],v['events'])
