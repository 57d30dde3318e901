"""Decides one property: python3 engine/check.py <id> quick|thorough"""
import json
import os
import sys
import time

tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if tier == "thorough":
    os.environ["GPB_NOCACHE"] = "1"

import diffrun
import load
import model
import props
import rules

HOW = ("Every function of the repository is parsed with clang; the functions this property is anchored in are summarised as decision trees from "
       "conditions on their inputs to results and effects (values returned, members written, text emitted, diagnostics reported, calls made), and each "
       "tree is compared, region by region, with the tree of the same function in the reviewed model. New helpers are looked through, renamed entities are "
       "matched, and a helper that differs counts only if a caller differs.")
ASSUME = ["the reviewed model (spec/model.pickle.xz) was read against the property and repaired where it was wrong (known_findings.json)",
          "library functions behave as modelled: const methods and functions without reference parameters are functions of their arguments",
          "clang's front end represents the source faithfully"]


def attribution(p, r):
    """Differences of a unit that concern the property."""
    fs = p.matches(r.q, r.key)
    if not fs:
        return []
    hard = [d for d in r.diffs if not d[4]]
    if None in fs:
        return hard
    mine = [d for d in hard if any(f.search(d[6]) for f in fs)]
    if mine:
        return mine
    # a difference that no property claims concerns every property of the unit
    others = [f for o in props.ALL for f in o.matches(r.q, r.key)]
    return [d for d in hard if not any(f is None or f.search(d[6]) for f in others)]


def known(pid):
    path = os.path.join(load.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("findings", []) if k.get("property") == pid]


def main(pid):
    t0 = time.time()
    p = props.BY_ID[pid]
    ev = os.environ.get('GPB_EVIDENCE') or os.path.join(load.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    out = os.path.join(ev, pid + ".json")
    replay = os.path.join(ev, pid + ".replay.txt")
    for f in (out, replay):
        if os.path.exists(f):
            os.unlink(f)
    ref = model.load_reference()
    cur = load.load()
    parsed = list(getattr(cur, "parsed_now", []))
    limit = 300 if tier == "thorough" else 60
    o = diffrun.compare_programs(ref, cur, limit=limit, select=lambda q, k: tier == "thorough" or bool(p.matches(q, k)))
    mine = {k: r for k, r in o.results.items() if p.matches(r.q, k)}
    found, undecided, obligations, discharged, paths, sites = [], [], 0, 0, 0, 0
    seen = set()
    for k, r in sorted(mine.items()):
        n = max(1, len(r.chans))
        obligations += n
        paths += r.paths
        sites += r.sites
        seen |= r.seen
        if r.status == "inconclusive":
            undecided.append("%s (%s:%d): %s" % (r.q, r.file, r.line, r.note))
            continue
        bad = attribution(p, r) if r.status == "differs" else []
        discharged += n - min(n, len({d[0] for d in bad}))
        for d in bad:
            found.append((r.file, r.line, r.q, d[0], d[1], d[2], d[3], d[5]))
    ruled = {}
    for name in p.rules + ("entry-points",):
        rr = rules.RULES[name](ref, cur)
        fs = rr.findings
        if name == "entry-points":
            fs = [f for f in fs if any(p.matches(str(x), "") for x in f[3:5])]
        ruled[name] = {"rule": rr.text, "obligations": rr.obligations, "findings": len(fs), "samples": rr.samples[:8], "undecided": rr.undecided}
        obligations += rr.obligations
        discharged += rr.obligations - min(rr.obligations, len(fs))
        for file, line, what, exp, got in fs:
            found.append((file, line, what, "rule " + name, "always", str(exp), str(got), ""))
    lost = [q for q in o.ref_only if p.matches(q, "")]
    if not mine and not ruled:
        raise load.AnalysisError("none of the functions of this property exists any more: " + ", ".join(lost[:10]))
    listed = known(pid)
    fresh, old = [], []
    for f in found:
        m = [k for k in listed if k["unit"] == f[2] and k["found"] in f[6]]
        (old if m else fresh).append((f, m))
    for _, m in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, m[0]["what"]))
    samples = []
    for k, r in sorted(mine.items(), key=lambda kv: -kv[1].paths)[:6]:
        samples.append("%s:%d %s: %d paths, %d call sites, effects on %s" % (r.file, r.line, r.q, r.paths, r.sites, ", ".join(r.chans[:6])[:200]))
    cov = {"explanation": HOW, "functions_decided": len(mine), "functions_looked_through": len(seen), "paths": paths, "call_sites": sites,
           "obligations": obligations, "discharged": discharged, "units_reparsed": parsed, "other_functions_compared": len(o.results) - len(mine),
           "undecided": undecided, "rules": ruled, "samples": samples,
           "differences_dismissed": [cur.functions[k]["q"] for k in o.dismissed if k in cur.functions],
           "names_aligned": o.notes[:20], "analysed_within_callers": lost, "new_functions": o.cur_only[:40]}
    with open(out, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov, "assumptions": ASSUME,
                   "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}, f, indent=1)
        f.write("\n")
    if fresh:
        text = ["property %s: %s" % (pid, p.title), p.statement, ""]
        for (file, line, q, chan, when, exp, got, note), _ in fresh:
            text += ["%s:%d %s" % (file, line, q), "  effect:    %s %s" % (chan, note), "  condition: %s" % when, "  expected:  %s" % exp, "  found:     %s" % got, ""]
        with open(replay, "w") as f:
            f.write("\n".join(text))
        for (file, line, q, chan, when, exp, got, note), _ in fresh[:12]:
            print("%s:%d: %s: %s %s" % (file, line, q, chan[:160], note))
            print("    when %s" % when[:300])
            print("    expected %s" % exp[:300])
            print("    found    %s" % got[:300])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(replay, load.VERIF)))
        return 1
    print("%s: %d functions, %d paths, %d obligations, %d discharged, %d undecided, %.1fs" % (pid, len(mine), paths, obligations, discharged, len(undecided), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1]))
    except load.AnalysisError as ex:
        print("ERROR: %s" % ex)
        sys.exit(3)
