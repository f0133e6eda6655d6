#!/usr/bin/env python3
"""print the dumped MIR of functions whose name contains the argument"""
import json,sys
d=json.load(open(sys.argv[2] if len(sys.argv)>2 else '/verif/build/dump.json'))
F=d['fns'];T=d['types']
for i,f in enumerate(F):
    if sys.argv[1] in f['name']:
        print('==',i,f['name'],f['kind'],f.get('span'))
        if 'body' not in f: continue
        b=f['body']
        for j,l in enumerate(b['locals']): print('  _%d: %s'%(j,T[l]['n']))
        for j,bl in enumerate(b['blocks']):
            print(' bb%d (line %s)'%(j,bl['l']))
            for s in bl['s']: print('    ',json.dumps(s)[:300])
            t=bl['t']
            if t[0]=='call' and not isinstance(t[1],dict): print('    CALL',F[t[1]]['name'][:120],json.dumps(t[1:])[:300])
            else: print('    ',json.dumps(t)[:300])
