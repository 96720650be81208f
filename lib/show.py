#!/usr/bin/env python3
# Prints the violations recorded in /verif/replays in readable form.
import json,glob,sys
n=int(sys.argv[2]) if len(sys.argv)>2 else 10
for f in sorted(glob.glob('/verif/replays/%s-*.json'%sys.argv[1])):
    d=json.load(open(f))
    print('==',f,d['message'][:600])
    if 'trace' not in (d['info'] or {}):
        print(json.dumps(d['info'])[:1500]); continue
    t=d['info']['trace']; l=d['info']['event_index']
    if isinstance(t, dict): t=t.get('h',[])
    print(json.dumps(d['info']['init'])[:600])
    for e in t[max(1,l-n):l]: print('  ',json.dumps(e)[:300])
    for k,v in d['info']['state'].items(): print('   ',k,'=',v.replace('\n','')[:1500])
