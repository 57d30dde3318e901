"""Development aid: verdict on the program in GPB_REPO, stops at the first differing unit."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
os.environ["GPB_FAST"] = "1"
import load, model, diffrun
from align import align
def main():
    ref = model.load_reference()
    try: cur = load.load()
    except Exception as ex: print("noparse", str(ex)[-150:].replace("\n", " ")); return
    diffrun.init(ref, cur); align(ref, cur)
    rk, ck = set(model.unit_keys(ref)), set(model.unit_keys(cur))
    both = rk & ck
    lost = {ref.functions[k]["q"] for k in rk - ck} | {cur.functions[k]["q"] for k in ck - rk}
    cuts = tuple(sorted(model.default_cuts(ref) - lost))
    ha, hb = diffrun.tree_hashes(ref), diffrun.tree_hashes(cur)
    us = [k for k in sorted(both) if ha[k] != hb[k] and not diffrun.LAMBDA.search(k)]
    if not us: print("unchanged"); return
    # units whose own body changed first
    us.sort(key=lambda k: diffrun.own_hash(ref.functions[k]) == diffrun.own_hash(cur.functions[k]))
    st = []
    for k in us:
        r = diffrun.one((k, cuts, 40))
        s = r.status if r is not None else "inconclusive"
        if s == "differs": print("differs", r.q); return
        st.append((s, cur.functions[k]["q"], (r.note if r else "")[:80]))
    inc = [x for x in st if x[0] != "equal"]
    print("inconclusive" if inc else "equal", len(st), inc[:2])
main()
