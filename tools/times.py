import json,sys
for i in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{i}.json'))
    for s in e['coverage']['scenarios']: print(i,s['scenario'],s['executions'],s['transitions'],s['wall_s'])
