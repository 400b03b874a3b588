import sys,random,json,collections; sys.path[:0]=['/verif','/repo']
import importlib,time,logging
logging.disable(logging.CRITICAL)
name=sys.argv[1]; N=int(sys.argv[2])
comp=importlib.import_module('harness.comp.'+name)
from harness import tlc
rng=random.Random(int(sys.argv[3]) if len(sys.argv)>3 else 1)
scripts=[comp.random_script(rng,'quick') for _ in range(N)]
t=time.time(); traces=[comp.run_script(s) for s in scripts]; print('exec',time.time()-t, sum(len(t['ev']) for t in traces))
print(next((t.get("error") for t in traces if t.get("error")),""))
print(collections.Counter(e['e'] for t in traces for e in t['ev']))
rej,st=tlc.validate(comp.SPEC+'Trace',traces,getattr(comp,'PROPS'))
print(st,len(rej), time.time()-t)
print(collections.Counter(c for r in rej for c in r['clauses']))
for r in rej[:3]:
    print(r); ev=traces[r['index']]['ev']; print(traces[r['index']]['cfg'])
    for i,e in enumerate(ev[:r['line']]): 
        if i>r['line']-40: print('  ',i+1,json.dumps(e))
