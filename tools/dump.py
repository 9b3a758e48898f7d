import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from rules.common import *
ctx=Ctx("X")
def dump(cls,name,depth=4,kinds=None,**kw):
    r=ctx.run(cls,name,**kw)
    for n in r.nodes:
        if kinds and n.kind not in kinds: continue
        d={k:(show(v,depth) if isinstance(v,T) else ([show(a,depth) for a in v] if isinstance(v,(list,tuple)) and v and isinstance(v[0],T) else (({a:show(b,depth) for a,b in v.items()}) if isinstance(v,dict) else v))) for k,v in n.d.items() if k not in('sargs','skw','extra','result','site','args','kwargs') or (k in('args','kwargs') and n.kind!='call') or (k in ('args','kwargs') and not n.d.get('bound'))}
        print(n.id,list(n.preds),n.kind,n.loc().split(':')[-1][:30],str(d)[:400])
    print("ENDS",[(n.id,show(v,depth)) for n,s,v in r.ends],"RENDS",[n.id for n,_,_ in r.rends])
    return r
exec(sys.stdin.read())
