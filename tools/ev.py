import json,sys
for i in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{i}.json'));c=e['coverage'];print(i,c['evaluations'],c['distinct_nontrivial'],e['wall_s']);
    for k,v in c.get('classes',{}).items(): print('   ',k,v)
    print('   skipped',c.get('skipped'),c.get('errors'))
