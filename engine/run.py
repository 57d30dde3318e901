import sys, time
import load, interp
from terms import *
from interp import Interp
prog = load.load()

def pub_cuts(prog):
    import os
    out = set()
    for f in prog.functions.values():
        if not f.get("internal") and f["file"].endswith(".cpp"):
            out.add(f["q"])
    return out

def table(prog, q, cls=None, cuts=None, I=None):
    fns = [prog.functions[k] for k in prog.by_q.get(q, []) if prog.functions[k].get("body") is not None or prog.functions[k].get("inits")]
    res = []
    for fn in fns:
        import model; I = Interp(prog, (cuts if cuts is not None else model.default_cuts(prog)) - {q})
        rows = I.run_root(fn, cls or fn.get("cls"))
        chans = []
        for pc, ch in rows:
            for c in ch:
                if c not in chans: chans.append(c)
        out = {}
        for c in chans:
            ps = [(pc, ch.get(c, T("same"))) for pc, ch in rows]
            out[c] = build(I.theory, ps)
        res.append((fn, out, I))
    return res

if __name__ == "__main__":
    for q in sys.argv[1:]:
        t0=time.time()
        for fn, out, I in table(prog, q):
            print("=====", fn["q"], fn["file"], fn["line"], "unknown:", I.unknown, "%.2fs"%(time.time()-t0))
            for c, tree in out.items():
                name = c if isinstance(c, str) else show(c[0]) + "." + c[1]
                print("--", name)
                for cons, leaf in tree_paths(tree):
                    from terms import _cond
                    print("   ", _cond(cons)); print("        =>", show(leaf))
