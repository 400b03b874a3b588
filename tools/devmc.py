import sys,importlib,time; sys.path.insert(0,'/verif')
from harness import tlc
comp=importlib.import_module('harness.comp.'+sys.argv[1]); tier=sys.argv[2]
over=dict(a.split('=',1) for a in sys.argv[3:])
for d in comp.design(tier):
    d=dict(d); d['constants']=dict(d['constants'],**over)
    r=tlc.model_check(d.pop('module'),timeout=float(d.pop('timeout',300)),workers=8,**d)
    print(r['ok'],r['generated'],r['distinct'],round(r['wall'],1))
    if not r['ok']: print(r['out'][-2500:])
