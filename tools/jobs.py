import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']
print('\n'.join(d['jobs'])); print(len(d['outcomes']), d.get('caps'), d['samples'][:2])
