"""Compares every unit of the current program with the reference model."""
import concurrent.futures as cf
import hashlib
import multiprocessing as mp
import os
import resource
import sys
import time

from concurrent.futures.process import BrokenProcessPool

import load
import model
from align import LAMBDA, align
import interp as M
from model import Summary, callees, compare, default_cuts, has_code, is_repo_src, summarise, weak_of, weak_set
from terms import T, Term, Theory, TooComplex, show, _cond

REF = None
CUR = None

sys.setrecursionlimit(100000)


def init(ref, cur):
    global REF, CUR
    REF, CUR = ref, cur


class Result:
    """Outcome for one unit (plain data, crosses process boundaries)."""
    __slots__ = ("key", "q", "file", "line", "status", "diffs", "seen", "paths", "sites", "chans", "note", "secs", "refline")


def trim(s, n=1500):
    return s if len(s) <= n else s[:n] + " ..."


def chan_name(c):
    return c if isinstance(c, str) else "%s.%s" % (show(c[0]), c[1])


def one(job):
    global DONE
    DONE += 1
    try:
        return one1(job)
    except MemoryError:
        # the tables of this process are full: another one is to try
        return None if DONE > 1 else gave_up(job, "needs too much memory")
    except (TooComplex, RecursionError) as ex:
        return gave_up(job, "%s %s" % (type(ex).__name__, ex))


DONE = 0


def one1(job):
    key, cuts, limit = job
    f = CUR.functions[key]
    r = Result()
    r.key, r.q, r.file, r.line = key, f["q"], f["file"].replace(load.REPO + "/", ""), f["line"]
    r.status, r.diffs, r.note, r.seen = "equal", [], "", set()
    r.refline = REF.functions[key]["line"]
    t0 = time.time()
    b = summarise(CUR, key, cuts, limit)
    r.paths, r.sites, r.seen = b.paths, b.sites, set(b.seen)
    r.chans = [chan_name(c) for c in b.chans]
    a = summarise(REF, key, cuts, limit)
    r.seen |= set(a.seen)
    if a.err or b.err:
        r.status = "inconclusive"
        r.note = "reference: %s; current: %s" % (a.err, b.err)
        r.secs = time.time() - t0
        return r
    theory = Theory(CUR)
    old = set(weak_of(a))
    try:
        with model.Timer(limit):
            ds = compare(theory, a, b)
    except (TooComplex, RecursionError, model.UnitTimeout) as ex:
        r.status, r.note, r.secs = "inconclusive", "comparison: %s %s" % (type(ex).__name__, ex), time.time() - t0
        return r
    if ds:
        # once more with the assertions inside loops as don't-cares
        M.MODE["dc"] = True
        try:
            a2, b2 = summarise(REF, key, cuts, limit), summarise(CUR, key, cuts, limit)
            if not a2.err and not b2.err:
                with model.Timer(limit):
                    if not compare(Theory(CUR), a2, b2):
                        ds = []
        except (TooComplex, RecursionError, model.UnitTimeout):
            pass
        finally:
            M.MODE["dc"] = False
    for d in ds:
        new = (weak_set(d.cur) | (set().union(*[weak_set(x) for x in d.pc]) if d.pc else set())) - old
        weak = ""
        if new:
            weak = "uses constructs the analysis does not look through: " + ", ".join(sorted(new))
        elif d.cur.op in ("amb",) or d.ref.op in ("amb",):
            weak = "ambiguous summary"
        pos = " & ".join(sorted(show(x) for x in d.pc))
        r.diffs.append((chan_name(d.chan), trim(_cond(d.pc)), trim(show(d.ref)), trim(show(d.cur)), weak, d.note,
                        trim(" ".join((chan_name(d.chan), pos, show(d.ref), show(d.cur))), 20000)))
    if r.diffs:
        r.status = "differs" if any(not d[4] for d in r.diffs) else "inconclusive"
        if r.status == "inconclusive":
            r.note = r.diffs[0][4]
    r.secs = time.time() - t0
    return r


def one_pair(ref, rkey, cur, ckey, limit=None):
    """Verdict on two functions with different names."""
    a = summarise(ref, rkey, tuple(default_cuts(ref)), limit)
    b = summarise(cur, ckey, tuple(default_cuts(cur)), limit)
    if a.err or b.err:
        return "inconclusive"
    try:
        with model.Timer(limit):
            ds = compare(Theory(cur), a, b)
    except (TooComplex, RecursionError, model.UnitTimeout):
        return "inconclusive"
    return "differs" if ds else "equal"


def run_jobs(jobs, procs=None):
    if not jobs:
        return []
    n = min(procs or os.cpu_count() or 4, len(jobs))
    out, todo = [], list(range(len(jobs)))
    for attempt in (n, min(n, 4), 1):
        left = []
        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(attempt, mp_context=ctx, initializer=bounded) as p:
            fs = [(i, p.submit(one, jobs[i])) for i in todo]
            for i, f in fs:
                try:
                    r = f.result()
                    if r is None:
                        left.append(i)
                    else:
                        out.append(r)
                except (BrokenProcessPool, OSError):
                    left.append(i)
        todo = left
        if not todo:
            break
    for i in todo:
        out.append(gave_up(jobs[i], "the analysis of this unit was ended"))
    return out


def bounded():
    """A unit that needs too much memory is reported as undecided."""
    lim = int(os.environ.get("GPB_MEM", "3000")) << 20
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def gave_up(job, why):
    f = CUR.functions[job[0]]
    r = Result()
    r.key, r.q, r.file, r.line = job[0], f["q"], f["file"].replace(load.REPO + "/", ""), f["line"]
    r.status, r.diffs, r.note, r.seen = "inconclusive", [], why, set()
    r.refline = REF.functions[job[0]]["line"]
    r.paths, r.sites, r.chans, r.secs = 0, 0, [], 0.0
    return r


NEAR = 40


def call_graph(prog):
    g = {}
    for k, f in prog.functions.items():
        if is_repo_src(f) and has_code(f):
            g[k] = call_keys(f)
    return g


def call_keys(fn):
    out = set()

    def walk(n):
        if isinstance(n, list):
            for c in n:
                if isinstance(c, (list, dict)):
                    walk(c)
        elif isinstance(n, dict):
            if "key" in n and "q" in n:
                out.add(n["key"])
            for c in n.values():
                if isinstance(c, (list, dict)):
                    walk(c)
    walk(fn.get("body"))
    walk(fn.get("inits"))
    return out


class Outcome:
    pass


def own_hash(fn):
    """Hash of a function body without positions and identities."""
    ids = {}
    h = hashlib.blake2b(digest_size=12)

    def walk(n):
        if isinstance(n, list):
            h.update(b"[")
            start = 0
            if len(n) > 1 and isinstance(n[0], str) and isinstance(n[1], int) and not isinstance(n[1], bool):
                h.update(n[0].encode())
                start = 2
                if n[0] == "call" and isinstance(n[2], dict) and n[2].get("noret"):
                    h.update(b"stop]")
                    return
            for c in n[start:]:
                walk(c)
            h.update(b"]")
        elif isinstance(n, dict):
            h.update(b"{")
            for k in sorted(n):
                if k in ("l", "line", "end", "file", "tu", "n"):
                    continue
                c = n[k]
                if k == "key" and c.startswith("lambda@"):
                    continue
                h.update(k.encode())
                if k in ("id", "hid", "lam") and isinstance(c, str):
                    c = ids.setdefault(c, len(ids))
                walk(c)
            h.update(b"}")
        else:
            h.update(repr(n).encode() + b";")
    walk([fn.get("params"), fn.get("inits"), fn.get("body"), fn.get("rt")])
    return h.hexdigest()


def tree_hashes(prog):
    """Hash of every function together with everything it may reach."""
    own = {k: own_hash(f) for k, f in prog.functions.items()}
    edges = {}
    for k, f in prog.functions.items():
        es = set()
        for c in call_keys(f):
            if c in own:
                es.add(c)
            for o in prog.overriders.get(c, []):
                if o in own:
                    es.add(o)
        edges[k] = es
    glob = hashlib.blake2b(repr(sorted((g["q"], own_hash({"body": g.get("init")})) for g in prog.globals.values())).encode()
                           + repr(sorted(prog.enums.items())).encode()
                           + repr(sorted((q, [(f["n"], f["t"], own_hash({"body": f.get("init")})) for f in r["fields"]]) for q, r in prog.records.items())).encode(),
                           digest_size=12).hexdigest()
    out = {}
    for k in own:
        seen, work = {k}, [k]
        while work:
            for c in edges[work.pop()]:
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        out[k] = own[k] + hashlib.blake2b(("".join(sorted(c + own[c] for c in seen)) + glob).encode(), digest_size=12).hexdigest()
    return out


def compare_programs(ref, cur, wanted=None, limit=None, verbose=False, select=None):
    """wanted: predicate on (q, file) of the units to decide; select:
    predicate on (q, key) of the units that are summarised even if neither
    they nor anything they reach has changed."""
    init(ref, cur)
    out = Outcome()
    out.notes = align(ref, cur)
    rk = {k for k in model.unit_keys(ref)}
    ck = {k for k in model.unit_keys(cur)}
    both = rk & ck
    # a function without counterpart is analysed within its callers
    lost = {ref.functions[k]["q"] for k in rk - ck} | {cur.functions[k]["q"] for k in ck - rk}
    cuts = default_cuts(ref) - {q for q in lost if not all(k in both for k in ref.by_q.get(q, []) + cur.by_q.get(q, []) if k in rk | ck)}
    g = call_graph(cur)
    callers = {}
    for k, cs in g.items():
        for c in cs:
            callers.setdefault(c, set()).add(k)
    units = []
    for k in sorted(both):
        f = cur.functions[k]
        if LAMBDA.search(k):
            continue
        if wanted and not wanted(f["q"], f["file"].replace(load.REPO + "/", "")):
            continue
        units.append(k)
    cutt = tuple(sorted(cuts))
    # long units first
    if os.environ.get("GPB_FAST") or select:
        ha, hb = tree_hashes(ref), tree_hashes(cur)
        units = [k for k in units if ha[k] != hb[k] or select and select(cur.functions[k]["q"], k)]
        if verbose:
            print(len(units), "units to analyse")
    order = sorted(units, key=lambda k: -(cur.functions[k].get("end", 0) - cur.functions[k]["line"]))
    res = {r.key: r for r in run_jobs([(k, cutt, limit) for k in order])}
    out.results = res
    out.dismissed = []
    # a unit that differs may have moved work from or to the units it calls
    again = []
    for k, r in res.items():
        if r.status == "differs":
            near = {f["q"] for c in set().union(*[call_keys(p.functions[u]) for p in (cur, ref) for u in r.seen | {k} if u in p.functions])
                    for f in (cur.functions.get(c), ref.functions.get(c))
                    if f is not None and f["q"] in cuts and f["q"] != r.q and f.get("end", 0) - f["line"] < NEAR}
            if near:
                again.append((k, tuple(sorted(cuts - near)), min(limit or model.TIME_LIMIT, 60)))
    for r in run_jobs(again):
        if r.status == "equal":
            r.note = "equal if the functions it calls are looked through"
            res[r.key] = r
            out.dismissed.append(r.key)
    # a differing helper only counts if one of its users differs
    differing = {k for k, r in res.items() if r.status == "differs"}
    inl = {}
    for k, r in res.items():
        for s in r.seen:
            if s != k:
                inl.setdefault(s, set()).add(k)
    for k in sorted(differing):
        f = cur.functions[k]
        if f["q"] in cuts or not inl.get(k):
            continue
        users = inl[k]
        st = [res[u].status for u in users if u in res]
        if st and all(s == "equal" for s in st):
            res[k].status = "equal"
            res[k].note = "differs on its own, but equal within all %d callers" % len(users)
            out.dismissed.append(k)
    # cut functions that differ: decide within their callers
    differing = {k for k, r in res.items() if r.status == "differs" and cur.functions[k]["q"] in cuts}
    if differing:
        todo = set()
        entry = set()
        for k in differing:
            cs = {c for c in callers.get(k, set()) if c != k}
            # callers that are inlined stand for their own callers
            work, seen = list(cs), set(cs)
            roots = set()
            while work:
                c = work.pop()
                if c not in cur.functions or c not in ref.functions:
                    up = callers.get(c, set())
                elif cur.functions[c]["q"] in cuts and c not in differing:
                    roots.add(c)
                    continue
                elif cur.functions[c]["q"] in cuts:
                    up = callers.get(c, set())
                    if not up - seen - {c}:
                        roots.add(c)
                else:
                    up = callers.get(c, set())
                    if not up:
                        roots.add(c)
                for u in up:
                    if u not in seen:
                        seen.add(u)
                        work.append(u)
            if not roots:
                entry.add(k)
            todo |= roots
        # units on their own that nobody calls stay violations
        sub = tuple(sorted(cuts - {cur.functions[k]["q"] for k in differing - entry}))
        todo2 = [k for k in todo if k in both and not LAMBDA.search(k)]
        retry = {r.key: r for r in run_jobs([(k, sub, limit) for k in todo2])}
        out.retry = retry
        for k in sorted(differing - entry):
            users = [u for u, r in retry.items() if k in r.seen]
            if users and all(retry[u].status == "equal" for u in users):
                res[k].status = "equal"
                res[k].note = "differs on its own, but equal within all %d callers" % len(users)
                out.dismissed.append(k)
    out.cuts = cuts
    out.ref_only = sorted(ref.functions[k]["q"] for k in rk - ck if not LAMBDA.search(k))
    out.cur_only = sorted(cur.functions[k]["q"] for k in ck - rk if not LAMBDA.search(k))
    return out


if __name__ == "__main__":
    ref = model.load_reference()
    cur = load.load()
    t0 = time.time()
    pats = sys.argv[1:]
    o = compare_programs(ref, cur, (lambda q, f: any(p in q or p in f for p in pats)) if pats else None)
    for n in o.notes:
        print("note:", n)
    n = {}
    for r in o.results.values():
        n[r.status] = n.get(r.status, 0) + 1
        if r.status != "equal":
            print(r.status, r.q, "%s:%d" % (r.file, r.line), r.note)
            for d in r.diffs:
                print("   chan", d[0][:200], "weak:", d[4], d[5])
                print("     when", d[1][:400])
                print("     ref ", d[2][:400])
                print("     cur ", d[3][:400])
        elif r.note:
            print("dismissed", r.q, r.note)
    print(n, "%.1fs" % (time.time() - t0), "new:", o.cur_only, "gone:", o.ref_only)
