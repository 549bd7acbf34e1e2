#!/usr/bin/env python3
"""print a replay file compactly"""
import json, sys
def T(t): return f"{t['c']} " + ' '.join(f"{g['n']}{g['u']}{g['l']}" for g in t['f']) + ' ' + ''.join(t['s'])
d=json.load(open(f'/verif/evidence/replay-{sys.argv[1]}.json'))
seen={}
for x in d:
    c=x['clause']; seen[c]=seen.get(c,0)+1
    if seen[c]>int(sys.argv[2] if len(sys.argv)>2 else 4): continue
    e=x['event']; print('**',c,{k:v for k,v in e.items() if k not in('before','after','inp')})
    for k in ('before','after'):
        for t in e.get(k,[]): print('   ',k,T(t))
