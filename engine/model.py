"""Guarded-effect summaries of every unit (function) of the program, and their
comparison with the reviewed reference model in spec/model.pickle.xz."""
import lzma
import os
import pickle
import re
import signal
import sys
import time

import load
from interp import EMPTY, HEADER_CUTS, Interp, find_ops, mk_size, mkcat, subst, subterms
from terms import T, Term, TooComplex, build, show, tree_paths, _cond

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec", "model.pickle.xz")

# file-local helpers that are units of their own because inlining them into
# every caller multiplies the paths
STATIC_CUTS = {
    "getDocstring", "getPybind11ArgsType", "emitParameters", "emitPolicies", "emitFunctionPointer",
    "pythonUnaryOperatorName", "pythonBinaryOperatorName", "isOstreamOperator", "emitManualBindings",
    "collectOperatorDeclsViaArgumentDependentLookup", "getPrintingPolicyForExposedNames", "emitSpelling",
    "emitStringLiteral", "emitParameterTypes", "DiscriminateIdentifiers::discriminate",
}
# predicates on the kind of a declaration are looked through everywhere: the
# paths are then those of the kinds, not of all combinations
UNCUT = re.compile(r"^genpybind::[A-Za-z]*Attrs::supports$")
TIME_LIMIT = int(os.environ.get("GPB_UNIT_LIMIT", "60"))


class UnitTimeout(BaseException):
    pass


class Timer:
    def __init__(self, limit=None):
        self.limit = limit or TIME_LIMIT

    def __enter__(self):
        def onalarm(*_):
            raise UnitTimeout()
        self.old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, self.limit)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def is_repo_src(f):
    return f["file"].startswith(("src/", "include/genpybind/", "public/genpybind/"))


def has_code(f):
    return f.get("body") is not None or bool(f.get("inits"))


def default_cuts(prog):
    out = set()
    for f in prog.functions.values():
        if not is_repo_src(f) or not has_code(f):
            continue
        if not f.get("internal") and f["file"].endswith(".cpp") and not UNCUT.match(f["q"]):
            out.add(f["q"])
        if f["q"] in HEADER_CUTS or f["q"] in STATIC_CUTS:
            out.add(f["q"])
    return out


def unit_keys(prog):
    """Functions that are summarised on their own."""
    out = []
    for k, f in prog.functions.items():
        if not is_repo_src(f) or not has_code(f):
            continue
        out.append(k)
    return out


class Summary:
    """Canonical channels of one unit."""
    __slots__ = ("key", "q", "chans", "rows", "aborts", "err", "stype", "seen", "sites", "paths", "secs", "unsigned", "lines")


def summarise(prog, key, cuts, limit=None):
    fn = prog.functions[key]
    s = Summary()
    s.key, s.q, s.err = key, fn["q"], None
    s.chans, s.rows, s.aborts, s.seen, s.sites, s.paths = {}, [], [], set(), 0, 0
    s.stype = {}
    t0 = time.time()

    try:
        with Timer(limit):
            summarise1(prog, fn, cuts, s)
    except UnitTimeout:
        s.err = "time limit"
    except TooComplex as ex:
        s.err = "too complex: %s" % ex
    except RecursionError:
        s.err = "recursion"
    except MemoryError:
        raise
    except Exception as ex:      # an unmodelled construct
        tb = ex.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        s.err = "%s: %s (%s:%d)" % (type(ex).__name__, ex, os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)
    s.secs = time.time() - t0
    return s


def summarise1(prog, fn, cuts, s):
    if True:
        it = Interp(prog, set(cuts))
        rows = it.run_root(fn, fn.get("cls"))
        if fn["q"].endswith("::(dtor)"):
            # nobody sees the members of a destroyed object
            rows = [(pc, {c: v for c, v in ch.items() if not (isinstance(c, tuple) and c[1] != "@" and (c[0] is THIS or c[0].op == "field" and c[0].a[0] is THIS and c[0].a[1].endswith("::")))}) for pc, ch in rows]
        names = []
        for _, ch in rows:
            for c in ch:
                if c not in names:
                    names.append(c)
        for c in names:
            s.chans[c] = build(it.theory, [(pc, ch.get(c, SAME)) for pc, ch in rows])
        hard = [pc for pc, q in it.aborts if q != "__assert_fail"]
        if hard:
            s.chans["abort"] = build(it.theory, [(pc, OK) for pc, _ in rows] + [(pc, ABORT) for pc in hard])
        s.rows = rows
        s.aborts = it.aborts
        s.stype = it.theory.stype
        s.seen = it.functions_seen
        s.sites = it.sites
        s.paths = len(rows)


THIS = T("this")
SAME = T("same")
OK = T("ok")
ABORT = T("abort")


# ------------------------------------------------------------ reference
def load_reference():
    with lzma.open(SPEC, "rb") as f:
        return pickle.load(f)


def save_reference(prog):
    os.makedirs(os.path.dirname(SPEC), exist_ok=True)
    prog.__dict__.pop("_fixed", None)
    prog.__dict__.pop("_reporting", None)
    with lzma.open(SPEC, "wb", preset=9) as f:
        pickle.dump(prog, f, protocol=4)


# ------------------------------------------------------------ difference
class Diff:
    __slots__ = ("chan", "pc", "ref", "cur", "note")

    def __init__(self, chan, pc, ref, cur, note=""):
        self.chan, self.pc, self.ref, self.cur, self.note = chan, pc, ref, cur, note


class Differ:
    """Joint walk over two decision trees.  Regions in which the reference
    stops in an assertion are don't-cares, as are regions in which the
    current code stops in an assertion."""

    def __init__(self, theory, budget=300000):
        self.theory = theory
        self.budget = budget
        self.more = None

    def step(self):
        self.budget -= 1
        if self.budget < 0:
            raise TooComplex("comparison")

    def trees(self, a, b, pc):
        """None or (pc, a', b')."""
        self.step()
        if a is b or a.op in ("dontcare", "abort") or b.op == "dontcare":
            return None
        for t, first in ((a, True), (b, False)):
            if t.op == "br":
                atom, hi, lo = t.a
                r = self.theory.implied(pc, atom)
                for v, sub in ((True, hi), (False, lo)):
                    if r is not None and r != v:
                        continue
                    p2 = dict(pc)
                    p2[atom] = v
                    d = self.trees(sub, b, p2) if first else self.trees(a, sub, p2)
                    if d is not None and (self.more is None or len(self.more) >= 24):
                        return d
                return None
        d = self.values(a, b, pc)
        if d is not None and self.more is not None:
            self.more.append(d)
        return d

    def all(self, a, b):
        """Every region (up to a limit) in which the two trees differ."""
        self.more = out = []
        try:
            self.trees(a, b, {})
        except TooComplex:
            if not out:
                raise
        self.more = None
        return out

    def lean(self, v, pc):
        """Without the traversals of what is empty under pc."""
        if v.op != "cat":
            return v
        keep = []
        for p in v.a[1:]:
            if p.op == "loop" and pc:
                n = mk_size(p.a[0])
                if n.op != "int" and self.theory.implied(pc, T("lt", n, 1)) is True:
                    continue
            keep.append(p)
        return v if len(keep) == len(v.a) - 1 else mkcat(v.a[0], keep)

    def values(self, a, b, pc):
        if a is b:
            return None
        self.step()
        a1, b1 = self.lean(a, pc), self.lean(b, pc)
        if a1 is b1 or a1 is not a and b1.op == "same" and a1 is a.a[0] is not EMPTY or \
                b1 is not b and a1.op == "same" and b1 is b.a[0] is not EMPTY:
            return None
        if a1.op != "br" and b1.op != "br":
            a, b = a1, b1
        if a.op == "br" or b.op == "br":
            more, self.more = self.more, None
            try:
                return self.trees(a, b, pc)
            finally:
                self.more = more
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and len(a.a) == len(b.a) and a.op not in LEAFOPS:
            # descend into the only difference if there is one
            ds = []
            for x, y in zip(a.a, b.a):
                if x is y or x == y:
                    continue
                if isinstance(x, Term) and isinstance(y, Term):
                    d = self.values(x, y, pc)
                    if d is None:
                        continue
                    ds.append(d)
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    bad = None
                    for p, q in zip(x, y):
                        if p is q or p == q:
                            continue
                        if isinstance(p, Term) and isinstance(q, Term):
                            d = self.values(p, q, pc)
                            if d is None:
                                continue
                            bad = d
                            break
                        if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q) == 2 and p[0] == q[0] \
                                and isinstance(p[1], Term) and isinstance(q[1], Term):
                            d = self.values(p[1], q[1], pc)
                            if d is None:
                                continue
                            bad = d
                            break
                        return (pc, a, b)
                    if bad is not None:
                        ds.append(bad)
                else:
                    return (pc, a, b)
            if not ds:
                return None
            if len(ds) == 1:
                return ds[0]
        return (pc, a, b)


LEAFOPS = {"str", "int", "char", "bool", "enum", "func"}

# operators the analysis cannot look through: a difference that consists of
# nothing but new occurrences of these decides nothing
WEAK = {"opaque", "unbound", "dead", "fold", "lastval", "last", "loopu", "rangeof", "distance", "recval", "lambda",
        "deref", "next", "filled", "eraseat", "insertat", "apply", "while", "whilep", "wval", "wret", "wreturns",
        "each", "recurse", "lastprior", "phi", "iter", "itat", "backins", "uninit", "fn"}
LIB = re.compile(r"^(rec:)?(std|llvm)::[a-z_0-9:]*$|^(rec:)?std::|^__")


def weak_set(t):
    out = set()
    for x in subterms(t):
        if x.op in WEAK:
            out.add(x.op)
        elif x.op == "call" and LIB.match(x.a[0]):
            out.add(x.a[0])
    return out


def weak_of(summary):
    out = set()
    seen = set()
    for pc, ch in summary.rows:
        for t in list(pc) + list(ch.values()) + [c[0] for c in ch if isinstance(c, tuple)]:
            if t in seen:
                continue
            seen.add(t)
            out |= weak_set(t)
    return out


def full_tree(theory, s, chan):
    rows = [(pc, ch.get(chan, SAME)) for pc, ch in s.rows]
    rows += [(pc, T("dontcare") if q == "__assert_fail" else ABORT) for pc, q in s.aborts]
    return build(theory, rows)


def compare(theory, ref, cur):
    """[Diff] between two summaries of one unit (empty: equivalent)."""
    diffs = []
    chans = list(ref.chans)
    for c in cur.chans:
        if c not in ref.chans:
            chans.append(c)
    unify(theory, ref, cur)
    for t, v in list(ref.stype.items()) + list(cur.stype.items()):
        if v is not None:
            theory.stype.setdefault(t, v)
    for c in chans:
        a = ref.chans.get(c)
        b = cur.chans.get(c)
        if a is b:
            continue
        if c == "abort":
            if b is None:
                continue
            ta = build(theory, [(pc, OK) for pc, _ in ref.rows] + [(pc, T("dontcare")) for pc, _ in ref.aborts])
            for r in Differ(theory).all(ta, b):
                diffs.append(Diff(c, r[0], r[1], r[2], "may stop the program"))
            continue
        try:
            ta = full_tree(theory, ref, c)
            # a reference that stops is a don't-care
            ta = map_leaves(ta, lambda l: T("dontcare") if l is ABORT else l, theory)
            tb = full_tree(theory, cur, c)
            if ta is tb:
                continue
            found = Differ(theory).all(ta, tb)
        except TooComplex:
            found = pairwise(theory, ref, cur, c)
        for r in found:
            diffs.append(Diff(c, r[0], r[1], r[2]))
    return diffs


def phis_of(s):
    out, seen = set(), set()
    for pc, ch in s.rows:
        for t in list(pc) + list(ch.values()) + [c[0] for c in ch if isinstance(c, tuple)]:
            if t not in seen:
                seen.add(t)
                out |= {p for p in find_ops(t, {"phi"}) if len(p.a) == 3}
    return out


def unify(theory, ref, cur):
    """Loop-carried values of the current code whose iterations do the same as
    those of the reference are given the name they have there."""
    for _ in range(3):
        a, b = phis_of(ref), phis_of(cur)
        sub = {}
        for p in sorted(b - a, key=lambda t: t.d):
            for q in sorted(a - b, key=lambda t: t.d):
                if p.a[0] is q.a[0] and p.a[1] == q.a[1] and same_steps(theory, q.a[2], p.a[2]):
                    sub[p] = q
                    break
        if not sub:
            return
        memo = {}

        def chan(c):
            return (subst(c[0], sub, memo), c[1]) if isinstance(c, tuple) else c
        cur.rows = [({subst(x, sub, memo): v for x, v in pc.items()}, {chan(c): subst(v, sub, memo) for c, v in ch.items()})
                    for pc, ch in cur.rows]
        cur.aborts = [({subst(x, sub, memo): v for x, v in pc.items()}, q) for pc, q in cur.aborts]
        cur.chans = {chan(c): subst(v, sub, memo) for c, v in cur.chans.items()}


def same_steps(theory, a, b):
    if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
        return False
    for x, y in zip(a.a[1], b.a[1]):
        if x is y:
            continue
        if x.a[0] != y.a[0] or x.a[1] is not y.a[1]:
            return False
        try:
            if Differ(theory, 100000).trees(x.a[2], y.a[2], {}) is not None:
                return False
        except TooComplex:
            return False
    return True


def joined(theory, p, q):
    """Conjunction of two path conditions, None if no path satisfies both."""
    for a, v in q.items():
        r = theory.implied(p, a)
        if r is not None and r != v:
            return None
    m = dict(p)
    m.update(q)
    for a, v in p.items():
        if a in q:
            continue
        r = theory.implied(q, a)
        if r is not None and r != v:
            return None
    return m


def pairwise(theory, ref, cur, chan):
    """Compares every pair of paths that can be taken on the same input; paths
    on which the reference stops, or an assertion fails, are left out."""
    out = []
    rows = [(pc, ch.get(chan, SAME)) for pc, ch in cur.rows] + \
        [(pc, ABORT) for pc, q in cur.aborts if q != "__assert_fail"]
    for pc, ch in ref.rows:
        a = ch.get(chan, SAME)
        for pd, b in rows:
            if a is b:
                continue
            m = joined(theory, pc, pd)
            if m is None:
                continue
            d = Differ(theory).values(a, b, m)
            if d is not None:
                out.append(d)
                if len(out) >= 24:
                    return out
    return out


def map_leaves(t, f, theory):
    if t.op == "br":
        hi, lo = map_leaves(t.a[1], f, theory), map_leaves(t.a[2], f, theory)
        return hi if hi is lo else T("br", t.a[0], hi, lo)
    return f(t)


# ------------------------------------------------------------ all units
def callees(fn):
    out = set()

    def walk(n):
        if isinstance(n, list):
            for c in n:
                if isinstance(c, (list, dict)):
                    walk(c)
        elif isinstance(n, dict):
            if "key" in n and "q" in n:
                out.add(n["q"])
            for c in n.values():
                if isinstance(c, (list, dict)):
                    walk(c)
    walk(fn.get("body"))
    walk(fn.get("inits"))
    return out
