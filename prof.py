import sys,vlib,re
from concurrent.futures import ThreadPoolExecutor
crate,entry=sys.argv[1:3]; ps={int(x.split('=')[0]):int(x.split('=')[1]) for x in sys.argv[3:] if x[0].isdigit()}
T=[x[2:] for x in sys.argv[3:] if x.startswith('T=')]
src=open('/verif/harness/core/src/templates.rs').read()
m=re.search(r'pub const %s: &\[&str\] = &\[(.*?)\n?\];'%T[0],src,re.S).group(1)
ts=re.findall(r'"((?:[^"\\]|\\.)*)"',m)
def f(i):
    r=vlib.run_engine(vlib.B+'/ir-%s/out.ll'%crate,entry,{**ps,2:i+1},max_time=60,jobs=1,out=vlib.B+'/out/p%d'%i)
    return i,r
with ThreadPoolExecutor(8) as ex: rs=list(ex.map(f,range(len(ts))))
tot=sum(r['wall_s'] for i,r in rs)
print(len(ts),'templates, total cpu %.0f'%tot, 'incomplete', [ts[i] for i,r in rs if not r['complete']])
for i,r in sorted(rs,key=lambda x:-x[1]['wall_s'])[:40]: print('%.1fs %d paths %s %s %s'%(r['wall_s'],r['n']['paths'],ts[i],r['reach'],r['event_counts'] or ''))
