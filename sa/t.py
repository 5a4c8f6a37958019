import json,sys,time
sys.path.insert(0,'/verif/sa')
from engine import *
p=Program(json.load(open('/verif/.work/sorock.json')))
def run(key,args=None):
    an=Analyzer(p,key)
    b=p.bodies[key]
    if args is None:
        args=[('arg',key.split('::')[-1],i+1) for i in range(b['nargs'])]
    t=time.time()
    an.run(key,args)
    return an,time.time()-t
if __name__=='__main__':
    ks=[k for k in p.bodies if sys.argv[1] in k and not k.endswith('}')]
    v=len(sys.argv)>2
    for k in ks:
        try:
            an,t=run(k)
        except Exception as e:
            import traceback; traceback.print_exc(); print('FAIL',k); continue
        print(k,'traces',len(an.traces),'steps',an.steps,'%.2fs'%t,'unmod',an.unmodelled)
        if v:
            for tr in an.traces:
                print('---',tr.end,show(tr.ret) if tr.ret else '')
                for e in tr.events: print('    ',e.kind,', '.join(show(a)[:300] for a in e.a),'->' if e.ret else '',show(e.ret)[:120] if e.ret else '', '   @',e.site)
                print('    FACTS',[ (l[0],)+tuple(show(x)[:90] if isinstance(x,tuple) else x for x in l[1:]) for l in tr.facts.log])
