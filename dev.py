import sys,vlib,json
# dev.py crate entry [k=v ...] [max_time]
a=sys.argv[1:]
ps={int(x.split('=')[0]):int(x.split('=')[1]) for x in a[2:] if '=' in x and x[0].isdigit()}
t=[float(x[2:]) for x in a if x.startswith('t=')] or [120]
r=vlib.run_engine(vlib.B+'/ir-%s/out.ll'%a[0],a[1],ps,max_time=t[0])
print(r['stop'],r['complete'],'%.1fs'%r['wall_s'],{k:r['n'].get(k) for k in('paths','instrs','forks','abandoned','limit','panics','checks','queries','dom_queries','unknown','solver_s','concretized','hash_forks')},r['reach'])
print(r['event_counts'])
seen={}
for e in r['events']:
    k=(e['kind'],e['id'],e['label'])
    seen[k]=seen.get(k,0)+1
    if seen[k]<=int(([x[2:] for x in a if x.startswith('v=')] or [2])[0]):
        print(k,e['inputs'],e['stack'][:0 if e['kind']=='assert' else 300])
if r['stdout']: print(r['stdout'])
