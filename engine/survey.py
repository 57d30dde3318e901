import sys, time, signal
import run
from run import *
cuts = pub_cuts(prog)
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM, h)
roots=[]
for f in sorted(prog.functions.values(), key=lambda f:(f['file'],f['line'])):
    if '/repo/src' in f['file'] and not f.get('internal') and f.get('body') is not None: roots.append(f)
    elif f.get('internal') and f.get('cls') and f.get('body') is not None: roots.append(f)
    elif f['file'].endswith('.h') and f.get('cls') and f.get('body') is not None and '/repo/' in f['file']: roots.append(f)
seen=set()
def tsize(t, memo):
    if t in memo: return 0
    memo.add(t); n=1
    for x in t.a:
        if isinstance(x, Term): n+=tsize(x,memo)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term): n+=tsize(y,memo)
    return n
for fn in roots:
    if len(sys.argv)>1 and not any(a in fn['q']+fn['file'] for a in sys.argv[1:]): continue
    t0=time.time(); signal.alarm(60)
    try:
        I=Interp(prog, cuts-{fn['q']}); rows=I.run_root(fn, fn.get('cls')); t1=time.time()
        ch=[]
        for _,c in rows:
            for k in c:
                if k not in ch: ch.append(k)
        m=set(); n=0
        for c in ch:
            n+=tsize(build(I.theory,[(p,x.get(c,T("same"))) for p,x in rows]),m)
        signal.alarm(0)
        seen|=I.functions_seen
        print("ok %-60s rows %4d ch %2d size %6d  %.2f+%.2f %s"%(fn['q'][-60:],len(rows),len(ch),n,t1-t0,time.time()-t1,I.unknown or ''))
    except TO: print("TIMEOUT",fn['q'])
    except Exception as ex:
        signal.alarm(0)
        import traceback
        tb=traceback.extract_tb(ex.__traceback__)[-1]
        print("FAIL",fn['q'],fn['file'].split('/')[-1],fn['line'],type(ex).__name__,str(ex)[:200],tb.filename.split('/')[-1],tb.lineno)
    sys.stdout.flush()
print("not seen:", [(f['q'],f['line']) for k,f in prog.functions.items() if k not in seen and f.get('body') is not None])
