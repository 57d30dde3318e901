import sys, model, load, multiprocessing as mp
prog=load.load()
cuts=model.default_cuts(prog)
def go(k):
    s=model.summarise(prog,k,cuts,60); return (s.q,prog.functions[k]['file'].split('/')[-1],prog.functions[k]['line'],s.err,s.paths,round(s.secs,2),s.seen)
if __name__=='__main__':
    ks=[k for k in model.unit_keys(prog) if len(sys.argv)<2 or any(a in prog.functions[k]['q'] for a in sys.argv[1:])]
    seen=set(); n=0
    with mp.Pool(8) as p:
        for q,f,l,e,paths,secs,sn in p.imap_unordered(go,ks,1):
            n+=1; seen|=sn
            if e or secs>3: print(q,f,l,e,paths,secs,flush=True)
    print(n,'units; not seen',[prog.functions[k]['q'] for k in model.unit_keys(prog) if k not in seen][:20])
