#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md; arguments: a file with lines of detect.sh."""
import json,os,sys,re
res={}
for fn in sys.argv[1:]:
    for l in open(fn):
        m=re.match(r'(\S+) (C\d\d) rc=(\d+) (\d+)s (\d+)',l)
        if m: res[m[1]]=(m[3],m[4])
print('| bug | check | needs | caught (s) |\n|---|---|---|---|')
for d in sorted(os.listdir('/verif/seeded')):
    j=json.load(open('/verif/seeded/%s/meta.json'%d))
    r=res.get(d)
    print('| %s | %s | %s | %s |'%(d,j['property'],j['needs'].replace('|','/'),'?' if r is None else ('yes (%s)'%r[1] if r[0]=='1' else 'NO')))
