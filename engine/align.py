"""Aligns the names of the current program with those of the reference model:
functions, classes, fields, enumerators and globals that were renamed or moved
without a change of their shape keep their reference name."""
import re

from model import has_code, is_repo_src

LAMBDA = re.compile(r"\$_|Ul|lambda")


def local_only(f):
    return is_repo_src(f) and has_code(f)


def sig(f, q=None):
    return (q if q is not None else f["q"], tuple(p["t"] for p in f["params"]), f.get("rt", ""), bool(f.get("const")),
            f.get("cls") or "")


def last(q):
    return q.rsplit("::", 1)[-1]


def scope(q):
    return q.rsplit("::", 1)[0] if "::" in q else ""


def rewrite(node, exact, words, rx):
    """Replaces whole strings (`exact`) and class names inside strings."""
    if isinstance(node, list):
        for i, c in enumerate(node):
            if isinstance(c, str):
                node[i] = fix(c, exact, words, rx)
            elif isinstance(c, (list, dict)):
                rewrite(c, exact, words, rx)
    elif isinstance(node, dict):
        for k, c in node.items():
            if isinstance(c, str):
                if k in ("file",):
                    continue
                node[k] = fix(c, exact, words, rx)
            elif isinstance(c, (list, dict)):
                rewrite(c, exact, words, rx)


def fix(s, exact, words, rx):
    r = exact.get(s)
    if r is not None:
        return r
    if rx is not None and rx.search(s):
        s = rx.sub(lambda m: words[m.group(0)], s)
    return s


def apply(prog, exact, words):
    """Renames within a program."""
    rx = re.compile(r"(?<![\w:])(?:%s)(?![\w])" % "|".join(re.escape(w) for w in sorted(words, key=len, reverse=True))) if words else None
    fns = {}
    by_q = {}
    for k, f in prog.functions.items():
        rewrite(f, exact, words, rx)
        fns[f["key"]] = f
        by_q.setdefault(f["q"], []).append(f["key"])
    prog.functions, prog.by_q = fns, by_q
    recs = {}
    for q, r in prog.records.items():
        rewrite(r, exact, words, rx)
        recs[r["q"]] = r
    prog.records = recs
    prog.bases = {fix(q, exact, words, rx): [fix(b, exact, words, rx) for b in bs] for q, bs in prog.bases.items()}
    prog.enums = {fix(q, exact, words, rx): v for q, v in prog.enums.items()}
    prog.overriders = {fix(q, exact, words, rx): [fix(b, exact, words, rx) for b in bs] for q, bs in prog.overriders.items()}
    for g in prog.globals.values():
        rewrite(g, exact, words, rx)
    prog.__dict__.pop("_fixed", None)
    prog.__dict__.pop("_reporting", None)


def unique_pairs(a, b):
    """[(x, y)] for the keys that occur exactly once on both sides."""
    out = []
    for k, xs in a.items():
        ys = b.get(k, [])
        if len(xs) == 1 and len(ys) == 1:
            out.append((xs[0], ys[0]))
    return out


def group(xs, key):
    out = {}
    for x in xs:
        out.setdefault(key(x), []).append(x)
    return out


def align(ref, cur):
    """Renames entities of `cur`; returns a list of descriptions."""
    notes = []
    # --- classes
    ro = [q for q in ref.records if q not in cur.records]
    co = [q for q in cur.records if q not in ref.records]
    shape = lambda p, q: (tuple(f["t"].replace(q, "@") for f in p.records[q]["fields"]), tuple(p.records[q].get("bases", [])),
                          scope(q) if len(p.records[q]["fields"]) == 0 else "")
    words = {}
    pairs = unique_pairs(group(ro, lambda q: shape(ref, q)), group(co, lambda q: shape(cur, q)))
    done_r = {r for r, _ in pairs}
    done_c = {c for _, c in pairs}
    pairs += [(r, c) for r, c in unique_pairs(group([q for q in ro if q not in done_r], last), group([q for q in co if q not in done_c], last))]
    for r, c in pairs:
        words[c] = r
        notes.append("class %s is %s of the reference" % (c, r))
    # --- enums
    ro = [q for q in ref.enums if q not in cur.enums and q.startswith("genpybind")]
    co = [q for q in cur.enums if q not in ref.enums and q.startswith("genpybind")]
    for r, c in unique_pairs(group(ro, lambda q: tuple(ref.enums[q])), group(co, lambda q: tuple(cur.enums[q]))):
        words[c] = r
        notes.append("enum %s is %s of the reference" % (c, r))
    if words:
        apply(cur, {}, words)
    exact = {}
    # --- enumerators: same enum, same value
    for q, vals in ref.enums.items():
        cv = cur.enums.get(q)
        if cv is None or cv == vals:
            continue
        names_r = {n for n, _ in vals}
        names_c = {n for n, _ in cv}
        byval = group([(n, v) for n, v in vals if n not in names_c], lambda x: x[1])
        bycur = group([(n, v) for n, v in cv if n not in names_r], lambda x: x[1])
        ren = {}
        for (rn, _), (cn, _) in unique_pairs(byval, bycur):
            ren[cn] = rn
        if ren:
            cur.enums[q] = [(ren.get(n, n), v) for n, v in cv]
            for c, r in ren.items():
                notes.append("enumerator %s::%s is %s of the reference" % (q, c, r))
                for pre in {q, scope(q)}:
                    exact[pre + "::" + c] = pre + "::" + r
    # --- fields
    for q, rec in ref.records.items():
        cr = cur.records.get(q)
        if cr is None:
            continue
        rn = [f for f in rec["fields"]]
        names_r = {f["n"] for f in rn}
        names_c = {f["n"] for f in cr["fields"]}
        a = [f for f in rn if f["n"] not in names_c]
        b = [f for f in cr["fields"] if f["n"] not in names_r]
        pairs = unique_pairs(group(a, lambda f: f["t"]), group(b, lambda f: f["t"]))
        if len(a) == len(b):
            for x, y in zip(a, b):
                if x["t"] == y["t"] and all(x is not p[0] and y is not p[1] for p in pairs):
                    pairs.append((x, y))
        for x, y in pairs:
            exact[y["n"]] = x["n"]
            notes.append("member %s is %s of the reference" % (y["n"], x["n"]))
    if exact:
        apply(cur, exact, {})
    # --- functions
    exact = {}
    fr = {k: f for k, f in ref.functions.items() if local_only(f)}
    fc = {k: f for k, f in cur.functions.items() if local_only(f)}
    ro = [f for k, f in fr.items() if k not in fc]
    co = [f for k, f in fc.items() if k not in fr]
    used_r, used_c = set(), set()

    def take(pairs, why):
        for r, c in pairs:
            if r["key"] in used_r or c["key"] in used_c:
                continue
            used_r.add(r["key"])
            used_c.add(c["key"])
            exact[c["key"]] = r["key"]
            if r["q"] != c["q"]:
                exact[c["q"]] = r["q"]
                notes.append("function %s is %s of the reference" % (c["q"], r["q"]))

    def rest():
        return [f for f in ro if f["key"] not in used_r], [f for f in co if f["key"] not in used_c]
    take(unique_pairs(group(ro, sig), group(co, sig)), "signature")
    for key in (lambda f: sig(f, last(f["q"]))[:4],
                lambda f: sig(f, scope(f["q"])),
                lambda f: (f["file"], sig(f, "")[:3]),
                ):
        a, b = rest()
        a = [f for f in a if not LAMBDA.search(f["key"])]
        b = [f for f in b if not LAMBDA.search(f["key"])]
        # a new overload or helper next to a function that still exists is no rename
        take(unique_pairs(group(a, key), group(b, key)), "rename")
    bad = set()
    for c, r in exact.items():
        # a q that still names other functions must not be rewritten
        if c in cur.by_q and any(k not in used_c for k in cur.by_q[c]):
            bad.add(c)
    for c in bad:
        exact.pop(c)
    # --- globals
    gr = group([g for g in ref.globals.values()], lambda g: g["q"])
    gc = group([g for g in cur.globals.values()], lambda g: g["q"])
    a = [g for g in ref.globals.values() if g["q"] not in gc]
    b = [g for g in cur.globals.values() if g["q"] not in gr]
    for x, y in unique_pairs(group(a, lambda g: repr(shape_of(g.get("init")))), group(b, lambda g: repr(shape_of(g.get("init"))))):
        exact[y["q"]] = x["q"]
        notes.append("variable %s is %s of the reference" % (y["q"], x["q"]))
    if exact:
        apply(cur, exact, {})
    return notes


def shape_of(n):
    """Literals of an initialiser (positions and identities left out)."""
    out = []

    def walk(n):
        if isinstance(n, list):
            if n and n[0] in ("str", "int", "bool", "char"):
                out.append(tuple(x for x in n[2:] if isinstance(x, (str, int, bool))))
            for c in n:
                if isinstance(c, (list, dict)):
                    walk(c)
        elif isinstance(n, dict):
            for c in n.values():
                if isinstance(c, (list, dict)):
                    walk(c)
    walk(n)
    return out
