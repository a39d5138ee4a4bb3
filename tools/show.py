import json,sys
for f in sys.argv[1:]:
    for line in open(f):
        if not line.startswith('{'): continue
        d=json.loads(line)
        print(d['property'],d['config'],'evals',d['evaluations'],'distinct',d['distinct'],'wall',d['wall_s'])
        c={}
        for v in d['violations']: c.setdefault(v['sig'],[]).append(v)
        for k,v in c.items(): print('  V',len(v),k,'| case',v[0].get('case'),'|',v[0].get('msg','')[:900])
        print('  OTHER')
        for k,v in list(d.get('other',{}).items())[:40]: print('   ',v if not isinstance(v,str) else v[:300],k[:200])
