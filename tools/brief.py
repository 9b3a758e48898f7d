import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(20000)
from rules.common import *
ctx=Ctx("X")
def brief(r,depth=4,skip=("enter","leave")):
    seen=set()
    for n in r.nodes:
        if n.kind in skip: continue
        d=n.d
        if n.kind=="call": s=f"{d['name']} recv={show(d['recv'],2) if d['recv'] is not None else None} {[show(a,depth) for a in d['args']]} {({k:show(v,depth) for k,v in d['kwargs'].items()})} {[(a,show(b,depth)) for a,b in d['extra']]}"
        elif n.kind=="assume": s=("" if n.pol else "NOT ")+show(n.cond,depth)
        elif n.kind in("setattr",): s=f"{show(d['base'],3)}.{d['attr']} = {show(r.snap(n,d['value']),depth)}"
        elif n.kind=="mut": s=f"{show(d['target'],3)} {d['how']} {[show(r.snap(n,a),depth) for a in d['args']]} key={show(d['key'],depth) if d['key'] is not None else ''} val={show(r.snap(n,d['value']),depth) if d['value'] is not None else ''}"
        elif n.kind=="loop": s=show(d['siter'],depth) if d['siter'] is not None else 'while'
        elif n.kind=="new": s=f"{d['cls']} {[show(a,depth) for a in d['args']]} {({k:show(v,depth) for k,v in d['kwargs'].items()})}"
        elif n.kind in("raise","yield","return"): s=str({k:show(v,depth) for k,v in d.items() if isinstance(v,T)})
        else: s=""
        k=(n.kind,n.loc(),s)
        print(n.id,list(n.preds),n.kind,n.loc().split(':')[-1][:26],s[:330])
    print("ENDS",[(n.id,show(r.it.snap(s,v),depth)) for n,s,v in r.ends],"RENDS",[n.id for n,_,_ in r.rends])
def mctx(name, f="/verif/tools/mutants/engine.py"):
    """a context on a mutated source"""
    sys.path.insert(0, "/verif/tools")
    import mut
    from vlib.program import Program
    ns = {}
    exec(open(f).read(), ns)
    e = [x[-1] for x in ns.get("BUGS", []) + ns.get("SAME", []) if x[0] == name][0]
    return Ctx("X", prog=Program(overlay=mut.overlay(e)))
if __name__ == "__main__":
    exec(sys.stdin.read())
