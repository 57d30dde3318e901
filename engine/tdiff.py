"""Debugging aid: smallest differing subterms of a unit between /repo and GPB_REPO."""
import sys
import load, model, diffrun
from align import align
from terms import *
from model import *
def tdiff(a, b, path, out, depth=0):
    if a is b or len(out) > 6: return
    if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and len(a.a) == len(b.a):
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            if x is not y and x != y: tdiff(x, y, path + [(a.op, i)], out)
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x is not y and x != y: tdiff(x, y, path + [("t", i)], out)
        return
    out.append((path, a, b))
if __name__ == "__main__":
    ref = model.load_reference(); cur = load.load(); print(align(ref, cur))
    q = sys.argv[1]
    cuts = default_cuts(ref)
    for k in ref.by_q[q]:
        if k not in cur.functions: print("gone", k); continue
        a = summarise(ref, k, cuts, 200); b = summarise(cur, k, cuts, 200)
        print(k, a.err, b.err)
        for c in set(a.chans) | set(b.chans):
            x, y = a.chans.get(c), b.chans.get(c)
            if x is y: continue
            n = diffrun.chan_name(c)[:150]
            if x is None or y is None: print("CHAN only in", "cur" if x is None else "ref", n, (show(x or y))[:600]); continue
            out = []
            tdiff(x, y, [], out)
            print("CHAN", n, len(out))
            for p, u, v in out[:5]:
                print("   path", p[-6:]); print("    ref", show(u)[:700]); print("    cur", show(v)[:700])
