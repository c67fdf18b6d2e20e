import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p));c=d['coverage']
    print(p,'eval',c['evaluations'],'nontriv',c['distinct_nontrivial'],'viol',d['violations'],'wall',d['wall_s'],'warm',c['compile_and_warmup_s']);print('  ',c['monitor_events']);print('  ',c['notes'],c['required_monitors_not_reached'])
