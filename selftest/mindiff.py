"""mindiff.py QNAME [width]: minimal structural differences between ref and GPB_REPO summaries"""
import sys; import os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import run, model, load, terms, interp
q=sys.argv[1]; W=int(sys.argv[2]) if len(sys.argv)>2 else 400
cur=run.prog
import diffrun
from align import align
ref=model.load_reference()
align(ref,cur)
def tab(p): return {fn['key'] if 'key' in fn else fn['q']: out for fn,out,I in run.table(p,q)}
a,b=tab(ref),tab(cur)
seen=set()
def md(x,y,path):
    if x is y or (x,y) in seen: return
    seen.add((x,y))
    T=type(x)
    if hasattr(x,'op') and hasattr(y,'op') and x.op==y.op and len(x.a)==len(y.a):
        for i,(u,v) in enumerate(zip(x.a,y.a)): md(u,v,path+[(x.op,i)])
        return
    if isinstance(x,tuple) and isinstance(y,tuple) and len(x)==len(y):
        for i,(u,v) in enumerate(zip(x,y)): md(u,v,path)
        return
    if x!=y:
        print(' at',[p for p in path[-6:]]); print('   ref',str(x)[:W]); print('   cur',str(y)[:W])
for k in a:
    k2 = k if k in b else list(b)[0]
    for c in sorted(set(a[k])|set(b[k2]),key=str):
        if a[k].get(c) is not b[k2].get(c):
            print('CHAN',str(c)[:100]); 
            if c in a[k] and c in b[k2]: md(a[k][c],b[k2][c],[])
            else: print('  only in', 'ref' if c in a[k] else 'cur')
