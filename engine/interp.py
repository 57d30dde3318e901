"""Path-sensitive, interprocedural dataflow analysis over the dumped syntax
trees.  Every function is turned into a set of guarded effects: for each path
(a conjunction of atoms over the program's inputs) the final contents of every
externally visible location (return value, streams, containers, fields,
diagnostics).  Loops are summarised for an arbitrary element, never unrolled;
no solver is involved: a path is dropped only if its atoms contradict each
other by the tables in `terms.Theory`."""
import hashlib
import re
import sys

from terms import (BOOL, EMPTYSTR, FALSE, INT, NONE, NULL, STR, STRUCT, T, TRUE, UNIT, Term,
                   TooComplex, Theory, build, is_const, show, tree_paths)

sys.setrecursionlimit(200000)

# "dc": iterations in which an assertion fails are marked in the summaries of
# loops (as don't-cares); otherwise they are left out
MODE = {"dc": False}
DC = T("dontcare")

# header functions that are kept as uninterpreted functions in their callers
# (each of them is a unit of its own)
HEADER_CUTS = {
    "genpybind::AnnotationStorage::get",
}

EMPTY = T("empty")
DIAG = T("diag")
HEAP = T("heap")

MAX_STATES = 6000


class State:
    __slots__ = ("env", "cells", "store", "pc", "n", "stack", "mark")

    def __init__(self):
        self.env = {}
        self.cells = {}
        self.store = {}
        self.pc = {}
        self.n = 0
        self.stack = ()
        self.mark = 0

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.cells = dict(self.cells)
        s.store = dict(self.store)
        s.pc = dict(self.pc)
        s.n = self.n
        s.stack = self.stack
        s.mark = self.mark
        return s


# ------------------------------------------------------------ type helpers
def strip_t(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for s in ("const ", "volatile "):
            if t.startswith(s):
                t = t[len(s):]
                ch = True
        for s in ("&&", "&", "*", " const"):
            if t.endswith(s):
                t = t[:-len(s)].strip()
                ch = True
    return t


def base_name(t):
    """Class name without template arguments."""
    t = strip_t(t)
    out, d = [], 0
    for c in t:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out)


def is_ref(t):
    return t.rstrip().endswith("&")


def is_lref(t):
    t = t.rstrip()
    return t.endswith("&") and not t.endswith("&&")


def is_ptr(t):
    t = t.strip()
    if t.endswith(" const"):
        t = t[:-6]
    if t.endswith("const"):
        t = t[:-5].rstrip()
    return t.endswith("*")


STREAMS = {"llvm::raw_ostream", "llvm::raw_string_ostream", "llvm::raw_fd_ostream",
           "llvm::raw_svector_ostream", "llvm::raw_pwrite_stream", "std::basic_ostream",
           "llvm::raw_fd_stream", "llvm::formatted_raw_ostream", "std::basic_ostringstream", "std::basic_stringstream"}
STRINGS = {"std::basic_string", "llvm::StringRef", "llvm::SmallString", "std::basic_string_view",
           "llvm::Twine", "std::string", "llvm::StringLiteral"}
CONT = re.compile(
    r"^(llvm::(SmallVector\w*|SmallString|StringRef|StringLiteral|ArrayRef|MutableArrayRef|DenseMap\w*|"
    r"SmallDenseMap|SmallDenseSet|DenseSet|detail::DenseSetImpl|SmallPtrSet\w*|SmallSet|StringMap\w*|StringSet|"
    r"SetVector|SmallSetVector|MapVector|SmallMapVector|iterator_range|Twine|TinyPtrVector|ImmutableSet)|"
    r"std::(vector|basic_string|__\w+|_\w+|set|map|unordered_map|unordered_set|multimap|multiset|deque|list|array|"
    r"initializer_list|basic_string_view|priority_queue|queue|stack|tuple|pair))$")
STRINGISH = ("std::basic_string", "llvm::StringRef", "llvm::SmallString", "std::basic_string_view",
             "llvm::StringLiteral", "llvm::Twine")


def is_stream_t(t):
    return base_name(t) in STREAMS


def is_string_t(t):
    b = base_name(t)
    return b in STRINGS or (b in ("char",) and is_ptr(t)) or bool(re.match(r"^(const )?char\s*\[\d+\]$", t.strip("& ")))


def is_bool_t(t):
    return strip_t(t) in ("bool", "_Bool") and not is_ptr(t)


INT_T = {"int", "unsigned int", "unsigned", "unsigned long", "long", "size_t", "short", "unsigned short",
         "long long", "unsigned long long", "unsigned char", "signed char"}


def is_int_t(t):
    return strip_t(t) in INT_T and not is_ptr(t)


def is_opt_t(t):
    return base_name(t) == "std::optional" and not is_ptr(t)


def is_map_t(t):
    return re.match(r"^(llvm::(DenseMap|SmallDenseMap|StringMap|MapVector|DenseMapBase|SmallMapVector)|std::(map|unordered_map|multimap))$",
                    base_name(t)) is not None


def is_set_t(t):
    return re.match(r"^(llvm::(DenseSet|SmallDenseSet|SmallPtrSet\w*|SmallSet|StringSet|SetVector|SmallSetVector|detail::DenseSetImpl)|std::(set|unordered_set|multiset))$",
                    base_name(t)) is not None


def is_container_t(t):
    return CONT.match(base_name(t)) is not None and not is_ptr(t)


# ------------------------------------------------------------ concatenation
def as_pieces(v):
    if v.op == "str":
        return [v] if v.a[0] else []
    if v.op == "char":
        return [STR(v.a[0])]
    if v.op == "int":
        return [STR(str(v.a[0]))]
    if v.op == "cat" and v.a[0] is EMPTY:
        return list(v.a[1:])
    if v is EMPTY:
        return []
    return [T("h", v)]


IDEMPOTENT = ("genpybind::DeclContextGraph::getOrInsertNode",)


def commutes(p):
    return p.op == "do" and p.a[0].op == "call" and p.a[0].a[0] in IDEMPOTENT


def setter(p):
    """A piece that sets one independent part of a token: which."""
    if p.op == "do" and p.a[0].op == "call":
        q = p.a[0].a[0]
        if q in ("clang::Token::setLocation", "clang::Token::setKind", "clang::Token::setLength"):
            return q
        if q == "clang::Token::setFlag":
            return p.a[0].d
    return None


def mkcat(base, pieces):
    out = []
    for p in pieces:
        if p.op == "str":
            if not p.a[0]:
                continue
            if out and out[-1].op == "str":
                out[-1] = STR(out[-1].a[0] + p.a[0])
                continue
        if p.op == "loop" and p.a[1] is T("cat", EMPTY):
            continue
        if commutes(p):
            # "get or insert" neither depends on nor disturbs other insertions
            k = len(out)
            while k and commutes(out[k - 1]) and out[k - 1].d > p.d:
                k -= 1
            if not (k and out[k - 1] is p):
                out.insert(k, p)
            continue
        sp = setter(p)
        if sp is not None:
            k = len(out)
            while k and setter(out[k - 1]) not in (None, sp) and out[k - 1].d > p.d:
                k -= 1
            out.insert(k, p)
            continue
        out.append(p)
    if base.op == "cat":
        return mkcat(base.a[0], list(base.a[1:]) + out)
    if base.op == "str":
        return mkcat(EMPTY, ([base] if base.a[0] else []) + out)
    if not out:
        return base
    if base is EMPTY and len(out) == 1:
        if out[0].op == "str":
            return out[0]
        if out[0].op == "h":
            return out[0].a[0]
    return T("cat", base, *out)


EMPTYCAT = T("cat", EMPTY)


def piececat(pieces):
    """A cat that is kept even if it is empty or a single piece."""
    out = []
    for p in pieces:
        if p.op == "str":
            if not p.a[0]:
                continue
            if out and out[-1].op == "str":
                out[-1] = STR(out[-1].a[0] + p.a[0])
                continue
        out.append(p)
    return T("cat", EMPTY, *out)


def append(v, pieces):
    if v.op in ("cat", "str") or v is EMPTY:
        return mkcat(v, pieces)
    return mkcat(v, pieces) if v is not EMPTY else mkcat(EMPTY, pieces)


def seq_items(v):
    """[items] if v is a locally built sequence of pushes only."""
    if v is EMPTY:
        return []
    if v.op == "list":
        return list(v.a)
    if v.op == "cat" and v.a[0] is EMPTY and all(p.op == "push" for p in v.a[1:]):
        return [p.a[0] for p in v.a[1:]]
    return None


def mk_size(v):
    if v.op == "str":
        return INT(len(v.a[0]))
    it = seq_items(v)
    if it is not None:
        return INT(len(it))
    if v.op == "cat" and v.a[0] is EMPTY:
        n = 0
        terms = []
        for p in v.a[1:]:
            if p.op == "push":
                n += 1
            elif p.op == "str":
                n += len(p.a[0])
            elif p.op == "loop":
                ls = {l for _, l in tree_paths(p.a[1])}
                if all(l.op == "cat" and len(l.a) == 2 and l.a[1].op == "push" for l in ls):
                    terms.append(mk_size(p.a[0]))
                else:
                    return T("size", v)
            else:
                return T("size", v)
        if len(terms) == 1:
            return mk_add(terms[0], n)
        return T("size", v)
    if v.op == "call" and v.a[0].endswith("::parameters"):
        return T("size", v)
    if v.op in ("reverse", "enumerate", "sorted"):
        return mk_size(v.a[0])
    if v.op == "range":
        return v.a[1]
    return T("size", v)


def mk_add(x, k):
    if k == 0:
        return x
    if x.op == "int":
        return INT(x.a[0] + k)
    if x.op == "add":
        return mk_add(x.a[0], x.a[1] + k)
    return T("add", x, k)


def mk_at(v, i):
    if i.op == "int":
        k = i.a[0]
        it = seq_items(v)
        if it is not None and 0 <= k < len(it):
            return it[k]
        if v.op == "cat" and v.a[0] is EMPTY:
            n = 0
            for p in v.a[1:]:
                if p.op == "push":
                    if n == k:
                        return p.a[0]
                    n += 1
                elif p.op == "loop":
                    rows = tree_paths(p.a[1])
                    if len(rows) == 1 and rows[0][1].op == "cat" and len(rows[0][1].a) == 2 and rows[0][1].a[1].op == "push":
                        return subst(rows[0][1].a[1].a[0], {elem_of(p.a[0]): mk_at(p.a[0], INT(k - n))})
                    break
                else:
                    break
        if v.op == "str" and 0 <= k < len(v.a[0]):
            return T("char", v.a[0][k])
    if i.op == "idx" and i.a[0] is v:
        e = _idx_elem.get(v)
        return elem_of(v) if e is None else e
    k = 0
    if i.op == "add" and i.a[0].op == "idx":
        i0, k = i.a
    else:
        i0 = i
    if i0.op == "idx" and filled(v) is not None and filled(v)[1].a[0] is i0.a[0] and filled(v)[0] == k:
        i, p = i0, filled(v)[1]
        rows = tree_paths(p.a[1])
        if len(rows) == 1 and rows[0][1].op == "cat" and len(rows[0][1].a) == 2 and rows[0][1].a[1].op == "push":
            x, e = rows[0][1].a[1].a[0], _idx_elem.get(i.a[0])
            return x if e is None else subst(x, {elem_of(i.a[0]): e})
        i = mk_add(i0, k)
    return T("at", v, i)


def filled(v):
    """A sequence of some elements followed by one for each element of
    another collection: (number of the former, loop)."""
    if v.op == "cat" and v.a[0] is EMPTY and len(v.a) > 1 and v.a[-1].op == "loop" and all(p.op == "push" for p in v.a[1:-1]):
        p = v.a[-1]
        if all(l.op == "cat" and len(l.a) == 2 and l.a[1].op == "push" for _, l in tree_paths(p.a[1])):
            return len(v.a) - 2, p
    return None


# element that stands for coll[i] while an index loop over coll is merged
# with the loop that filled coll
_idx_elem = {}


def elem_of(coll, k=0):
    if coll.op == "enumerate":
        return T("pair", T("idx", coll.a[0]), elem_of(coll.a[0], k))
    if coll.op == "range":
        lo, hi = coll.a
        if lo.op == "int" and lo.a[0] == 0 and hi.op == "size":
            return T("idx", hi.a[0])
        return T("elem", coll, k)
    return T("elem", coll, k)


_subst_theory = [None]


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        return m[t]
    if t.op == "br":
        rows = []
        for cons, leaf in tree_paths(t, keep=True):
            c2 = {}
            ok = True
            for a, v in cons.items():
                b = subst(a, m, memo)
                if b.op == "bool":
                    if b.a[0] != v:
                        ok = False
                        break
                    continue
                c2[b] = v
            if ok:
                rows.append((c2, subst(leaf, m, memo)))
        r = build(_subst_theory[0], rows)
    else:
        ch = False
        na = []
        for x in t.a:
            y = subst_any(x, m, memo)
            ch = ch or (y is not x)
            na.append(y)
        r = rebuild(t.op, na) if ch else t
    memo[t] = r
    return r


def subst_any(x, m, memo):
    if isinstance(x, Term):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        y = tuple(subst_any(z, m, memo) for z in x)
        return y if any(p is not q for p, q in zip(x, y)) else x
    return x


def blurred(t, memo):
    """Digest of a term in which the names of loop-carried values (which
    depend on how the values around them are named) do not count."""
    if isinstance(t, Term):
        r = memo.get(t)
        if r is None:
            h = hashlib.blake2b(t.op.encode(), digest_size=12)
            if t.op == "br":
                ps = []
                for cons, leaf in tree_paths(t, keep=True):
                    ps.append(repr(sorted((blurred(a, memo), v) for a, v in cons.items())) + blurred(leaf, memo))
                h.update(repr(sorted(ps)).encode())
            else:
                for x in t.a:
                    h.update(blurred(x, memo).encode())
            r = memo[t] = h.hexdigest()
        return r
    if isinstance(t, tuple):
        if len(t) == 2 and isinstance(t[0], str) and t[0][:2] in ("c:", "s:") and isinstance(t[1], int):
            return "?"
        return "(" + ",".join(blurred(x, memo) for x in t) + ")"
    return repr(t)


def rebuild(op, a):
    if op == "at":
        return mk_at(*a)
    if op == "cat":
        if a[0] is EMPTY and len(a) >= 1:
            return piececat(a[1:])
        return mkcat(a[0], a[1:])
    if op == "size":
        return mk_size(a[0])
    if op == "add" and len(a) == 2:
        return mk_add(*a)
    return T(op, *a)


def find_ops(t, ops, memo=None):
    """All subterms with an operator in ops."""
    out = set()
    seen = set()

    def rec(x):
        if isinstance(x, Term):
            if x in seen:
                return
            seen.add(x)
            if x.op in ops:
                out.add(x)
            for y in x.a:
                rec(y)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    rec(t)
    return out


def locs_of(t):
    """Numbers of the local cells a term refers to."""
    if t._fv is not None:
        return t._fv
    if t.op == "loc":
        r = frozenset((t.a[0],))
    else:
        r = frozenset()

        def rec(x):
            nonlocal r
            if isinstance(x, Term):
                f = locs_of(x)
                if f:
                    r = r | f
            elif isinstance(x, tuple):
                for y in x:
                    rec(y)
        for x in t.a:
            rec(x)
    t._fv = r
    return r


IGNORE_Q = {"std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::addressof",
            "llvm::utostr", "llvm::itostr", "std::to_string", "llvm::to_string", "llvm::StringRef::str", "std::basic_string::c_str",
            "std::basic_string::data", "llvm::StringRef::data", "llvm::SmallString::str", "llvm::SmallString::c_str",
            "llvm::raw_string_ostream::str", "std::basic_ostringstream::str", "std::basic_stringstream::str", "llvm::Twine::str", "std::unique_ptr::get", "std::shared_ptr::get",
            "llvm::make_range1", "std::begin1", "std::reference_wrapper::get", "llvm::raw_ostream::flush",
            "llvm::StringMapEntryBase1", "clang::IdentifierInfo::getName1", "llvm::ArrayRef::vec",
            "llvm::StringMapImpl1", "llvm::SmallString::operator StringRef", "llvm::to_vector"}

CONTEXT_Q = {"getASTContext": "ASTContext", "getSourceManager": "SourceManager", "getDiagnostics": "DiagnosticsEngine",
             "getLangOpts": "LangOptions", "getPreprocessor": "Preprocessor"}

MUT_METHODS = {"push_back", "emplace_back", "insert", "emplace", "try_emplace", "erase", "clear", "pop_back", "append",
               "resize", "reserve", "assign", "push", "pop", "insert_or_assign", "swap", "shrink_to_fit", "push_front",
               "pop_front", "truncate", "emplace_front", "set"}


def canon_atom(a):
    """The first iteration of a loop is recognised by its index, too."""
    if a.op == "lt" and a.a[0].op == "idx" and a.a[1] == 1:
        return T("first", a.a[0].a[0])
    if a.op == "eqc" and a.a[0].op == "idx" and a.a[1].op == "int" and a.a[1].a[0] == 0:
        return T("first", a.a[0].a[0])
    return a


def changed_by(old, w):
    if old is not None and w.op == "cat":
        if old.op == "cat" and w.a[:len(old.a)] == old.a:
            return T("app", *w.a[len(old.a):])
        if w.a[0] is old:
            return T("app", *w.a[1:])
    return w


class Interp:
    def __init__(self, prog, cuts=(), opts=None):
        self.prog = prog
        self.cuts = set(cuts)
        self.theory = Theory(prog)
        _subst_theory[0] = self.theory
        self.lambdas = {}
        self.funcs = {}
        self._acting = {}
        self.vtype = {}
        self.call_stack = []
        self.loop_stack = []
        self.inloop = []
        self.fresh = {}
        self.stale = set()
        self.functions_seen = set()
        self.sites = 0
        self.paths = 0
        self.unknown = {}
        self.dyn_class = None
        self.opts = opts or {}
        self.cur = None
        self.aborts = []
        self.quiet = 0
        self.rec_pc, self.rec_done = {}, {}
        self.rec_touch = {}
        self.rec_bound = {}

    # ------------------------------------------------ memory
    def alloc(self, st, v):
        n = st.n
        st.n += 1
        st.cells[n] = v
        return T("loc", n)

    def read(self, st, lv):
        o = lv.op
        if o == "loc":
            return st.cells.get(lv.a[0], T("dead"))
        if o == "rv":
            return lv.a[0]
        if o == "ext":
            x = lv.a[0]
            v = st.store.get((x, "@"))
            if v is None:
                v = x
                if x.op == "field":
                    w = st.store.get((x.a[0], "@"))
                    if w is not None and w.op == "cat":
                        # the owner was changed by calls that may reach x
                        via = [T("via", p) for p in w.a[1:] if p.op in ("do", "whilep", "loop", "loopu", "via")]
                        if via:
                            v = mkcat(x, via)
            return v
        if o == "fld":
            b = self.read(st, lv.a[0])
            return self.get_field(st, b, lv.a[1])
        if o == "slot":
            m = self.read(st, lv.a[0])
            return self.map_value(m, lv.a[1])
        if o == "idxlv":
            v = self.read(st, lv.a[0])
            return mk_at(v, lv.a[1])
        if o == "optin":
            v = self.read(st, lv.a[0])
            return v.a[0] if v.op == "some" else T("val", v)
        if o == "mapent":
            m = self.read(st, lv.a[0])
            if m.op == "cat" and m.a[-1].op == "put" and m.a[-1].a[0] is lv.a[1]:
                return T("pair", lv.a[1], m.a[-1].a[1])
            return T("pair", lv.a[1], lv.a[2])
        raise AssertionError(lv)

    def map_value(self, m, k):
        if m.op == "cat":
            for p in reversed(m.a[1:]):
                if p.op == "put" and p.a[0] is k:
                    return p.a[1]
                break
        return T("slotval", m, k)

    def get_field(self, st, b, name):
        if b.op == "addr":
            return self.get_field(st, self.read(st, b.a[0]), name)
        if b.op == "struct":
            for n, v in b.a[1]:
                if n == name:
                    return v
            return T("uninit", name)
        if b.op == "upd":
            for n, v in b.a[1]:
                if n == name:
                    return v
            return self.get_field(st, b.a[0], name)
        if b.op == "cat" and len(b.a) > 1 and b.a[1].op in ("do", "whilep", "loop", "loopu") and name in self.prog.fixed_fields():
            return self.get_field(st, b.a[0], name)
        short = name.split("::")[-1]
        if short in ("first", "second") and (name.startswith("std::") or name.startswith("llvm::")):
            return self.get_i(b, 0 if short == "first" else 1)
        if (b, name) in st.store:
            return st.store[(b, name)]
        return T("field", b, name)

    def get_i(self, b, i):
        if b.op == "pair":
            return b.a[i]
        if b.op == "find":
            return T("at", b.a[0], b.a[1]) if i == 1 else b.a[1]
        if b.op == "struct":
            rec = self.prog.records.get(b.a[0])
            names = [f["n"] for f in rec["fields"]] if rec else []
            want = names[i] if i < len(names) and any(n == names[i] for n, _ in b.a[1]) else str(i)
            for n, v in b.a[1]:
                if n == want:
                    return v
            if i < len(b.a[1]):
                return b.a[1][i][1]
        return T("get", b, i)

    def write(self, st, lv, v):
        o = lv.op
        if o == "loc":
            st.cells[lv.a[0]] = v
        elif o == "ext":
            st.store[(lv.a[0], "@")] = v
        elif o == "fld":
            base = lv.a[0]
            b = self.read(st, base)
            if b.op == "addr":
                self.write(st, T("fld", b.a[0], lv.a[1]), v)
            elif b.op == "struct":
                self.write(st, base, STRUCT(b.a[0], tuple((n, v if n == lv.a[1] else w) for n, w in b.a[1])
                                            if any(n == lv.a[1] for n, _ in b.a[1]) else b.a[1] + ((lv.a[1], v),)))
            elif base.op == "mapent":
                self.write(st, T("slot", base.a[0], base.a[1]), v)
            elif base.op == "ext" or self.is_external(st, base):
                if b.op == "upd":
                    fs = dict(b.a[1])
                    fs[lv.a[1]] = v
                    self.write(st, base, T("upd", b.a[0], tuple(sorted(fs.items(), key=lambda p: p[0]))))
                else:
                    st.store[(b, lv.a[1])] = v
            elif b.op == "pair":
                i = 0 if lv.a[1].endswith("first") else 1
                na = list(b.a)
                na[i] = v
                self.write(st, base, T("pair", *na))
            elif self.root(base).op == "loc":
                if b.op == "upd":
                    fs = dict(b.a[1])
                    fs[lv.a[1]] = v
                    self.write(st, base, T("upd", b.a[0], tuple(sorted(fs.items(), key=lambda p: p[0]))))
                elif self.value_like(b):
                    self.write(st, base, T("upd", b, ((lv.a[1], v),)))
                else:
                    st.store[(b, lv.a[1])] = v
            else:
                st.store[(b, lv.a[1])] = v
        elif o == "slot":
            self.mutate(st, lv.a[0], [T("put", lv.a[1], v)])
        elif o == "idxlv":
            b = self.read(st, lv.a[0])
            it = seq_items(b)
            if it is not None and lv.a[1].op == "int" and lv.a[1].a[0] < len(it):
                it[lv.a[1].a[0]] = v
                self.write(st, lv.a[0], mkcat(EMPTY, [T("push", x) for x in it]))
            else:
                self.mutate(st, lv.a[0], [T("put", lv.a[1], v)])
        elif o == "optin":
            self.write(st, lv.a[0], T("some", v))
        elif o == "mapent":
            self.write(st, T("slot", lv.a[0], lv.a[1]), self.get_i(v, 1))
        elif o == "rv":
            b = lv.a[0]
            if not is_const(b):
                st.store[(b, "@")] = v

    def value_like(self, b):
        """Local object that was copied from an external value."""
        return True

    def root(self, lv):
        while lv.op in ("fld", "optin", "slot", "idxlv", "mapent"):
            lv = lv.a[0]
        return lv

    def is_external(self, st, lv):
        return self.root(lv).op == "ext"

    def mutate(self, st, lv, pieces):
        v = self.read(st, lv)
        if v.op == "alias":
            return self.mutate(st, v.a[0], pieces)
        if v.op == "addr":
            return self.mutate(st, v.a[0], pieces)
        if v.op == "null" or v.op == "none":
            v = EMPTY
        self.write(st, lv, append(v, pieces))

    def deref(self, v):
        if v.op == "addr":
            return v.a[0]
        if v.op == "dyn" or v.op == "dynn":
            return self.deref(v.a[1])
        if v.op == "some":
            return T("rv", v.a[0])
        if v.op == "find":
            return T("rv", v)
        if v.op == "itat":
            return T("ext", v.a[0]) if v.a[0].op != "pair" else T("rv", v.a[0])
        if v.op == "iter" or v.op == "next" and v.a[0].op == "iter":
            from builtins_cpp import deref_iter
            w, _ = deref_iter(self, None, v)
            if w.op != "deref":
                return T("ext", w) if w.op == "at" else T("rv", w)
        return T("ext", v)

    # ------------------------------------------------ truth
    def assume(self, st, atom, val):
        """State restricted to atom == val, or None."""
        atom = canon_atom(atom)
        r = self.theory.implied(st.pc, atom)
        if r is not None:
            return st if r == val else None
        st.pc[atom] = val
        return st

    def fork(self, st, atom):
        atom = canon_atom(atom)
        if atom.op == "bool":
            return [(st, atom.a[0])]
        r = self.theory.implied(st.pc, atom)
        if r is not None:
            return [(st, r)]
        s2 = st.copy()
        st.pc[atom] = True
        s2.pc[atom] = False
        return [(st, True), (s2, False)]

    def fork_not(self, res):
        return [(s, not b) for s, b in res]

    def truth(self, st, v, ty=""):
        o = v.op
        if o == "bool":
            return [(st, v.a[0])]
        if o == "int":
            return [(st, v.a[0] != 0)]
        if o in ("null", "none"):
            return [(st, False)]
        if o in ("addr", "make", "newobj", "str", "some", "closure", "func"):
            return [(st, True)]
        if o == "not":
            return self.fork_not(self.truth(st, v.a[0]))
        if o == "br":
            out = []
            for cons, leaf in tree_paths(v):
                s = st.copy()
                ok = True
                for a, val in cons.items():
                    s = self.assume(s, a, val)
                    if s is None:
                        ok = False
                        break
                if ok:
                    out += self.truth(s, leaf, ty)
            return out
        if o == "ite":
            out = []
            for s, b in self.truth(st, v.a[0]):
                out += self.truth(s, v.a[1] if b else v.a[2], ty)
            return out
        if o == "dyn":
            return self.isa(st, v.a[1], v.a[0])
        if o == "dynn":
            out = []
            for s, b in self.truth(st, v.a[1], "*"):
                out += self.isa(s, v.a[1], v.a[0]) if b else [(s, False)]
            return out
        if o == "eq":
            return self.t_eq(st, v.a[0], v.a[1])
        if o == "lt2":
            return self.t_lt(st, v.a[0], v.a[1])
        if o in ("isa", "nonnull", "has", "contains", "any", "lt", "eqc", "p", "first"):
            return self.fork(st, v)
        if o == "count":
            return self.fork(st, T("contains", v.a[0], v.a[1]))
        if o == "binbits":
            return self.fork(st, T("p", v))
        if is_opt_t(ty):
            return self.t_has(st, v)
        if o in ("size", "add", "idx") or is_int_t(ty):
            return self.fork_not(self.t_eq(st, v, INT(0)))
        if is_bool_t(ty) or ty == "":
            return self.fork(st, T("p", v))
        return self.fork(st, T("nonnull", v))

    def t_has(self, st, v):
        if v.op == "some":
            return [(st, True)]
        if v.op in ("none", "null"):
            return [(st, False)]
        if v.op == "ite":
            out = []
            for s, b in self.truth(st, v.a[0]):
                out += self.t_has(s, v.a[1] if b else v.a[2])
            return out
        return self.fork(st, T("has", v))

    def isa(self, st, x, cls):
        if x.op in ("dyn", "dynn"):
            x = x.a[1]
        if x.op == "null":
            return [(st, False)]
        if x.op in ("make", "newobj"):
            c = x.a[0]
            return [(st, cls in self.theory.ancestors(c))]
        if cls == "clang::Decl":
            # every declaration (context) is one
            return self.truth(st, x, "*")
        return self.fork(st, T("isa", x, cls))

    def norm_obj(self, v):
        while v.op in ("dyn", "dynn"):
            v = v.a[1]
        return v

    def t_eq(self, st, a, b):
        if a is b:
            return [(st, True)]
        if a.op == "ite" or b.op == "ite":
            out = []
            w, o = (a, b) if a.op == "ite" else (b, a)
            for s, c in self.truth(st, w.a[0]):
                out += self.t_eq(s, w.a[1] if c else w.a[2], o)
            return out
        if is_const(a) and not is_const(b):
            a, b = b, a
        if is_const(a) and is_const(b):
            if {a.op, b.op} == {"int", "char"}:
                x = a.a[0] if a.op == "int" else ord(a.a[0])
                y = b.a[0] if b.op == "int" else ord(b.a[0])
                return [(st, x == y)]
            if a.op == "enum" and b.op == "enum":
                return [(st, self.enum_val(a) == self.enum_val(b))]
            return [(st, False)]
        if b.op == "null":
            return self.fork_not(self.truth(st, a, "*"))
        if b.op == "none":
            return self.fork_not(self.t_has(st, a))
        if b.op == "bool":
            r = self.truth(st, a)
            return r if b.a[0] else self.fork_not(r)
        # iterators
        for x, y in ((a, b), (b, a)):
            if y.op == "iter" and y.a[1] == "end":
                if x.op == "find":
                    return self.fork_not(self.fork(st, T("contains", x.a[0], x.a[1])))
                if x.op == "itat":
                    return [(st, False)]
                if x.op == "iter" and x.a[1] == "begin":
                    return self.t_lt(st, mk_size(x.a[0]), INT(1))
        if a.op == "some" and b.op != "some":
            return self.t_eq(st, a.a[0], b)
        if b.op == "some" and a.op != "some":
            out = []
            for s, h in self.t_has(st, a):
                out += self.t_eq(s, T("val", a), b.a[0]) if h else [(s, False)]
            return out
        if a.op == "some" and b.op == "some":
            return self.t_eq(st, a.a[0], b.a[0])
        if b.op == "int":
            k = b.a[0]
            if a.op == "add":
                a, k = a.a[0], k - a.a[1]
            if a.op == "count":
                r = self.fork(st, T("contains", a.a[0], a.a[1]))
                return r if k == 1 else self.fork_not(r)
            if a.op == "char":
                return [(st, False)]
            out = []
            for s, x in self.fork(st, T("lt", a, k)):
                if x:
                    out.append((s, False))
                else:
                    out += self.fork(s, T("lt", a, k + 1))
            return out
        if b.op == "str":
            if b.a[0] == "":
                return self.t_lt(st, mk_size(a), INT(1))
            if a.op == "cat":
                return self.fork(st, T("eqc", a, b))
            return self.fork(st, T("eqc", self.norm_obj(a), b))
        if b.op in ("enum", "char"):
            return self.fork(st, T("eqc", a, b))
        if a.op == "func" and b.op == "func":
            return [(st, a is b)]
        a, b = self.norm_obj(a), self.norm_obj(b)
        if a is b:
            return [(st, True)]
        if a.op == "addr" and b.op == "addr":
            return [(st, False)]
        if a.d > b.d:
            a, b = b, a
        return self.fork(st, T("eq", a, b))

    def enum_val(self, c):
        for n, v in self.prog.enums.get(c.a[0], []):
            if n == c.a[1]:
                return v
        return c.a[1]

    def t_lt(self, st, a, b):
        if a.op == "ite" or b.op == "ite":
            out = []
            w = a if a.op == "ite" else b
            for s, c in self.truth(st, w.a[0]):
                x = w.a[1] if c else w.a[2]
                out += self.t_lt(s, x, b) if w is a else self.t_lt(s, a, x)
            return out

        def num(x):
            if x.op == "int":
                return x.a[0]
            if x.op == "char":
                return ord(x.a[0])
            return None
        na, nb = num(a), num(b)
        if na is not None and nb is not None:
            return [(st, na < nb)]
        if nb is not None:
            k = nb
            if a.op == "add":
                a, k = a.a[0], k - a.a[1]
            return self.fork(st, T("lt", a, k))
        if na is not None:
            k = na
            if b.op == "add":
                b, k = b.a[0], k - b.a[1]
            return self.fork_not(self.fork(st, T("lt", b, k + 1)))
        if a.op == "add" and b.op == "add":
            k = min(a.a[1], b.a[1])
            a, b = mk_add(a, -k), mk_add(b, -k)
        if a is b:
            return [(st, False)]
        return self.fork(st, T("lt2", a, b))

    # ------------------------------------------------ statements
    def loc_str(self, node):
        return "%s:%s" % (self.cur["file"] if self.cur else "?", node[1] if node else "?")

    def merge(self, rs):
        """Joins states that agree on everything but a redundant atom."""
        if len(rs) < 2:
            return rs
        if len(rs) > MAX_STATES:
            raise TooComplex("too many paths in %s" % (self.cur and self.cur["q"]))
        groups = {}
        order = []
        for st, ctl in rs:
            self.gc(st, ctl)
            k = (frozenset(st.cells.items()), frozenset(st.store.items()), frozenset(st.env.items()), ctl)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(st)
        out = []
        for k in order:
            g = groups[k]
            if len(g) > 1:
                g = self.consensus(g)
            out += [(s, k[3]) for s in g]
        return out

    def consensus(self, sts):
        pcs = [dict(s.pc) for s in sts]
        changed = True
        while changed and len(pcs) > 1:
            changed = False
            # subsumption + single-atom consensus
            sets = {frozenset(p.items()): p for p in pcs}
            keys = list(sets)
            for k in keys:
                if k not in sets:
                    continue
                for (a, v) in k:
                    other = (k - {(a, v)}) | {(a, not v)}
                    if other in sets and other != k:
                        merged = k - {(a, v)}
                        del sets[other]
                        del sets[k]
                        sets[merged] = dict(merged)
                        changed = True
                        break
            pcs = list(sets.values())
            if len(pcs) <= 64:
                # drop constraint sets implied by a weaker one
                ks = list(sets)
                for x in ks:
                    for y in ks:
                        if x is not y and x in sets and y in sets and y < x:
                            del sets[x]
                            changed = True
                pcs = list(sets.values())
        out = []
        base = sts[0]
        base.n = max(s.n for s in sts)
        for i, p in enumerate(pcs):
            s = base if i == 0 else base.copy()
            s.pc = p
            out.append(s)
        return out

    def gc(self, st, ctl=None):
        if not any(k >= st.mark for k in st.cells):
            return
        live = set()
        work = []

        def add(t):
            for n in locs_of(t):
                if n not in live:
                    live.add(n)
                    work.append(n)
        for v in st.env.values():
            add(v)
        for (o, _), v in st.store.items():
            add(o)
            add(v)
        if isinstance(ctl, tuple):
            add(ctl[1])
        for n, v in st.cells.items():
            if n < st.mark:
                add(v)
        while work:
            n = work.pop()
            if n in st.cells:
                add(st.cells[n])
        for n in [n for n in st.cells if n >= st.mark and n not in live]:
            del st.cells[n]

    def block(self, st, stmts):
        """Executes statements; returns [(state, ctl)]."""
        env0 = set(st.env)
        cur = [(st, None)]
        done = []
        for s in stmts:
            nxt = []
            for stt, _ in cur:
                for r in self.stmt(stt, s):
                    if r[1] is None:
                        nxt.append(r)
                    else:
                        done.append(r)
            cur = self.merge(nxt)
            if not cur:
                break
        out = done + cur
        guards = [v for d in stmts if d is not None and d[0] == "decl" for v in d[2] if base_name(v.get("t", "")) in GUARDS]
        for v in reversed(guards):
            nxt = []
            for x, flow in out:
                l = x.env.get(v["id"])
                g = self.read(x, l) if l is not None else UNIT
                if g.op == "restore":
                    self.write(x, g.a[0], g.a[1])
                    nxt.append((x, flow))
                elif g.op == "atexit":
                    nxt += [(y, flow) for y, _ in self.apply(x, g.a[0], [])]
                else:
                    nxt.append((x, flow))
            out = nxt
        for stt, _ in out:
            for k in [k for k in stt.env if k not in env0]:
                del stt.env[k]
        return self.merge(out)

    def stmt(self, st, s):
        if s is None:
            return [(st, None)]
        k = s[0]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(st, s)
        return [(x, None) for x, _ in self.ev(st, s)]

    def s_compound(self, st, s):
        return self.block(st, s[2])

    def s_nullstmt(self, st, s):
        return [(st, None)]

    def s_tovoid(self, st, s):
        return [(x, None) for x, _ in self.ev(st, s[2])]

    def s_break(self, st, s):
        return [(st, "break")]

    def s_continue(self, st, s):
        return [(st, "continue")]

    def s_return(self, st, s):
        if s[2] is None:
            return [(st, ("ret", UNIT))]
        rt = self.cur.get("rt", "") if self.cur else ""
        out = []
        if is_lref(rt):
            for x, l in self.lv(st, s[2]):
                out.append((x, ("ret", self.addr_of(x, l))))
            return out
        for x, v in self.ev(st, s[2]):
            if is_opt_t(rt) and self.needs_some(s[2], v):
                v = T("some", v)
            out.append((x, ("ret", v)))
        return out

    def needs_some(self, node, v):
        return False

    def addr_of(self, st, l):
        if l.op == "ext":
            return l.a[0]
        if l.op == "rv":
            return l.a[0]
        return T("addr", l)

    def declare(self, st, v):
        """Declares one variable; returns [state]."""
        self.vtype[v["id"]] = v["t"]
        out = []
        init = v.get("init")
        if v.get("bind"):
            for x, val in self.ev(st, init) if init else [(st, T("uninit"))]:
                for i, b in enumerate(v["bind"]):
                    x.env[b["id"]] = self.alloc(x, self.get_i(val, i))
                    if "hid" in b:
                        x.env[b["hid"]] = x.env[b["id"]]
                out.append(x)
            return out
        if is_ref(v["t"]) and init:
            for x, l in self.lv(st, init):
                if l.op == "rv":
                    l = self.alloc(x, l.a[0])
                x.env[v["id"]] = l
                out.append(x)
            return out
        if init is None:
            val = self.default_value(st, v["t"])
            st.env[v["id"]] = self.alloc(st, val)
            return [st]
        if init[0] == "construct" and base_name(v["t"]) in STREAMS:
            # string stream: writes go to the underlying buffer
            for x, ls in self.lvs(st, init[3][:1]):
                x.env[v["id"]] = self.alloc(x, T("alias", ls[0]) if ls else EMPTY)
                out.append(x)
            return out
        b = base_name(v["t"])
        if b == "llvm::SaveAndRestore" and init[0] == "construct" and init[3]:
            # restored at the end of the block
            for x, ls in self.lvs(st, init[3]):
                x.env[v["id"]] = self.alloc(x, T("restore", ls[0], self.read(x, ls[0])))
                if len(ls) > 1:
                    self.write(x, ls[0], self.read(x, ls[1]))
                out.append(x)
            return out
        own = None
        if b in ("std::function", "llvm::unique_function"):
            # may refer to itself
            own = st.env[v["id"]] = self.alloc(st, T("uninit"))
        for x, val in self.ev(st, init):
            if val.op == "null" and is_string_t(v["t"]):
                val = EMPTYSTR
            if own is not None:
                self.write(x, own, val)
            else:
                x.env[v["id"]] = self.alloc(x, val)
            out.append(x)
        return out

    def default_value(self, st, t):
        b = base_name(t)
        if is_opt_t(t):
            return NONE
        if is_ptr(t):
            return T("uninit")
        if b in STRINGS:
            return EMPTYSTR
        if is_container_t(t):
            return EMPTY
        return T("uninit")

    def s_decl(self, st, s):
        cur = [st]
        for v in s[2]:
            cur = [y for x in cur for y in self.declare(x, v)]
        return [(x, None) for x in cur]

    def with_init(self, st, init, condvar):
        cur = [st]
        if init is not None:
            cur = [x for s0 in cur for x, _ in self.stmt(s0, init)]
        if condvar is not None:
            cur = [x for s0 in cur for x in self.declare(s0, condvar)]
        return cur

    def s_if(self, st, s):
        env0 = set(st.env)
        out = []
        for x in self.with_init(st, s[2], s[3]):
            for y, b in self.cond(x, s[4]):
                br = s[5] if b else s[6]
                out += self.stmt(y, br) if br is not None else [(y, None)]
        for x, _ in out:
            for k in [k for k in x.env if k not in env0]:
                del x.env[k]
        return self.merge(out)

    def s_switch(self, st, s):
        env0 = set(st.env)
        out = []
        body = s[5]
        items = []   # (labels or None for default, stmt)
        stmts = body[2] if body[0] == "compound" else [body]
        flat = []
        for b in stmts:
            labels = []
            while b is not None and b[0] in ("case", "default"):
                if b[0] == "case":
                    labels.append(b[2])
                    b = b[4]
                else:
                    labels.append(None)
                    b = b[2]
            flat.append((labels, b))
        for x in self.with_init(st, s[2], s[3]):
            for y, v in self.ev(x, s[4]):
                pend = y
                entries = []
                default = None
                for i, (labels, _) in enumerate(flat):
                    for l in labels:
                        if l is None:
                            default = i
                            continue
                        if pend is None:
                            continue
                        (_, c), = self.ev(pend.copy(), l)
                        nxt = None
                        for z, b in self.t_eq(pend, v, c):
                            if b:
                                entries.append((z, i))
                            else:
                                nxt = z if nxt is None else nxt
                        pend = nxt
                if pend is not None:
                    entries.append((pend, default if default is not None else len(flat)))
                for z, i in entries:
                    rs = self.block(z, [b for _, b in flat[i:]]) if i < len(flat) else [(z, None)]
                    out += [(w, None if c == "break" else c) for w, c in rs]
        for x, _ in out:
            for k in [k for k in x.env if k not in env0]:
                del x.env[k]
        return self.merge(out)

    s_case = s_default = lambda self, st, s: self.stmt(st, s[4] if s[0] == "case" else s[2])

    # ------------------------------------------------ loops
    def s_rangefor(self, st, s):
        var, rng, body, init = s[2], s[3], s[4], s[5]
        out = []
        for x in self.with_init(st, init, None):
            for y, c in self.own_range(x, rng) or self.ev(x, rng):
                def bind(z, e, var=var):
                    if var.get("bind"):
                        for i, b in enumerate(var["bind"]):
                            z.env[b["id"]] = self.alloc(z, self.get_i(e, i))
                            if "hid" in b:
                                z.env[b["hid"]] = z.env[b["id"]]
                    elif is_ref(var["t"]) and not is_const(e) and e.op not in ("pair", "struct"):
                        z.env[var["id"]] = T("ext", e)
                    else:
                        z.env[var["id"]] = self.alloc(z, e)
                    self.vtype[var["id"]] = var["t"]
                    self.note_type(e, var["t"])
                    return [z]

                def run(z, e):
                    res = []
                    env0 = set(z.env)
                    for w in bind(z, e):
                        res += self.stmt(w, body)
                    for w, _ in res:
                        for k in [k for k in w.env if k not in env0]:
                            del w.env[k]
                    return res
                out += self.each(y, self.coll(y, c), run)
        return self.merge(out)

    def own_range(self, st, rng, at=None, cls=None):
        """What begin() and end() of a class of the program delimit."""
        if cls is None:
            cls = base_name(self.ty(rng))
        if cls not in self.prog.records:
            return None
        fns = [self.prog.functions[k] for k in self.prog.by_q.get(cls + "::begin", [])]
        fns = [f for f in fns if f.get("body") is not None and not f.get("params")]
        if not fns:
            return None
        self.quiet += 1
        try:
            out = []
            ls = [(st.copy(), at)] if at is not None else self.receiver(st.copy(), rng, {})
            for x, l in ls:
                for y, v in self.enter(x, fns[0], [], l):
                    if v is None or v.op != "iter" or v.a[1] != "begin":
                        return None
                    out.append((y, v.a[0]))
            return out
        finally:
            self.quiet -= 1

    def coll(self, st, c):
        """Canonical form of an iterated collection."""
        if c.op == "pair" and len(c.a) == 2 and c.a[0].op == "iter" and c.a[1].op == "iter" and c.a[0].a[0] is c.a[1].a[0]:
            return c.a[0].a[0]
        if c.op == "addr":
            return self.coll(st, self.read(st, c.a[0]))
        return c

    def each(self, st, coll, run, fuse=True):
        """run(state, element) for every element of coll."""
        if coll.op == "range" and coll.a[0].op == "int" and coll.a[0].a[0] == 0 and coll.a[1].op == "size" and filled(coll.a[1].a[0]) is None:
            seq = coll.a[1].a[0]
            return self.each(st, seq, lambda z, e: run(z, T("idx", seq)), fuse)
        if coll.op == "ite":
            out = []
            for s, b in self.truth(st, coll.a[0]):
                out += self.each(s, coll.a[1] if b else coll.a[2], run)
            return out
        if coll.op == "isafilter":
            base, cls = coll.a

            def run2(z, e):
                res = []
                for y, b in self.isa(z, e, cls):
                    if b:
                        res += run(y, e)
                    else:
                        res.append((y, None))
                return res
            return self.each(st, base, run2, fuse)
        if coll.op == "filterby":
            base, f = coll.a

            def run2(z, e):
                res = []
                for y, v in self.apply(z, f, [T("rv", e)]):
                    for w, b in self.truth(y, self.strip_addr(y, v), "bool"):
                        if b:
                            res += run(w, e)
                        else:
                            res.append((w, None))
                return res
            return self.each(st, base, run2, fuse)
        if coll.op == "mapped":
            base, f = coll.a

            def run2(z, e):
                res = []
                for y, v in self.apply(z, f, [T("rv", e)]):
                    res += run(y, self.strip_addr(y, v))
                return res
            return self.each(st, base, run2, fuse)
        items = seq_items(coll)
        if items is not None and len(items) <= 4:
            cur = [st]
            out = []
            for it in items:
                nxt = []
                for s in cur:
                    for x, c in run(s, it):
                        if c in (None, "continue"):
                            nxt.append(x)
                        else:
                            out.append((x, None if c == "break" else c))
                cur = [x for x, _ in self.merge([(n, None) for n in nxt])]
            return out + [(x, None) for x in cur]
        if coll.op == "cat" and coll.a[0] is EMPTY and all(p.op in ("push", "loop") for p in coll.a[1:]) \
                and all(self.simple_pushes(p) for p in coll.a[1:] if p.op == "loop") and self.stateless(st, coll, run):
            cur = [st]
            out = []
            for p in coll.a[1:]:
                nxt = []
                for s in cur:
                    if p.op == "push":
                        res = run(s, p.a[0])
                        for x, c in res:
                            if c in (None, "continue"):
                                nxt.append(x)
                            else:
                                out.append((x, None if c == "break" else c))
                    else:
                        for x, c in self.each_loop(s, p.a[0], self.fused(p, run)):
                            if c is None:
                                nxt.append(x)
                            elif c == "brk":
                                out.append((x, None))
                            else:
                                out.append((x, c))
                cur = nxt
            return out + [(x, None) for x in cur]
        return [(x, None if c == "brk" else c) for x, c in self.each_loop(st, coll, run)]

    def stateless(self, st, coll, run):
        """Does the loop body depend on nothing but the element?  Only then
        can the loop be merged with the one that filled the collection."""
        n = len(self.aborts)

        def carried(x):
            out = set()
            for v in list(x.store.values()) + list(x.cells.values()):
                out |= {t for t in find_ops(v, {"phi", "idx", "first"}) if t.a[0] is coll}
            return out
        before = carried(st)
        try:
            res = self.each_loop(st.copy(), coll, run)
        finally:
            del self.aborts[n:]
        return all(carried(x) <= before for x, _ in res)

    def simple_pushes(self, p):
        if find_ops(p, {"phi", "first", "idx"}):
            return False
        return all(l.op == "cat" and all(q.op == "push" for q in l.a[1:]) for _, l in tree_paths(p.a[1]))

    def fused(self, p, run):
        tree = p.a[1]

        def body(st, e):
            out = []
            e0 = elem_of(p.a[0])
            for cons, leaf in tree_paths(tree):
                s = st.copy()
                ok = True
                for a, v in cons.items():
                    a = subst(a, {e0: e}) if e is not e0 else a
                    s = self.assume(s, a, v) if a.op != "bool" else (s if a.a[0] == v else None)
                    if s is None:
                        ok = False
                        break
                if not ok:
                    continue
                cur = [(s, None)]
                for q in leaf.a[1:]:
                    x = subst(q.a[0], {e0: e}) if e is not e0 else q.a[0]
                    nxt = []
                    for t, c in cur:
                        if c is None:
                            for u, c2 in run(t, x):
                                nxt.append((u, None if c2 == "continue" else c2))
                        else:
                            nxt.append((t, c))
                    cur = nxt
                out += cur
            return out
        return body

    def each_loop(self, st, coll, run, is_while=False):
        perm = None
        for _try in range(3):
            snap = st.copy()
            aborts = len(self.aborts)
            r = self.each_loop1(st, coll, run, is_while, perm)
            if r[0] == "again":
                perm = r[1] or perm
                st = snap
                del self.aborts[aborts:]
                continue
            return r[1]

    def phi_tags(self, st, known, perm):
        """Names for the loop-carried locations that do not depend on the
        order of their declaration."""
        tags, count = {}, {}
        for m in known:
            init = self.get_loc(st, m)
            if m[0] == "s":
                t = "s:%s:%s" % (m[1][0].d, m[1][1])
            else:
                t = "c:%s" % (init.d if init is not None else "?")
            n = count.get(t, 0)
            count[t] = n + 1
            tags[m] = (t, n)
        if perm:
            for m in known:
                if m in perm:
                    tags[m] = perm[m]
        return tags

    def phi_order(self, coll, known, tags, overrides, res, base_pc, st):
        """A permutation of equally named locations in order of what happens
        to them, or None if they are in that order."""
        groups = {}
        for m in known:
            groups.setdefault(tags[m][0], []).append(m)
        perm = {}
        for g, ms in groups.items():
            ms = [m for m in ms if T("phi", coll, tags[m]) in find_ops(overrides[m], {"phi"})]
            if len(ms) < 2:
                continue
            sig = {}
            for m in ms:
                me = T("phi", coll, tags[m])
                sub = {T("phi", coll, tags[x]): T("phi", coll, "other") for x in ms}
                sub[me] = T("phi", coll, "self")
                memo = {}
                rows = []
                for x, c in res:
                    v = self.get_loc(x, m)
                    rows.append(({subst(a, sub, memo): b for a, b in self.new_pc(x, base_pc).items()},
                                 T("sig", v if v is None else subst(v, sub, memo), str(c) if not isinstance(c, tuple) else "ret")))
                sig[m] = blurred(build(self.theory, rows), {})
            want = sorted(ms, key=lambda m: sig[m])
            have = sorted(ms, key=lambda m: tags[m][1])
            if want != have:
                idx = sorted(tags[m][1] for m in ms)
                for m, i in zip(want, idx):
                    perm[m] = (g, i)
        return perm or None

    def each_loop1(self, st, coll, run, is_while, perm):
        depth = sum(1 for c in self.loop_stack if c is coll)
        elem = elem_of(coll, depth) if not is_while else None
        first = T("first", coll) if depth == 0 else T("first", coll, depth)
        base_pc = st.pc
        overrides = {}     # location -> value at the start of an iteration
        self.loop_stack.append(coll)
        try:
            known = []
            tags = {}
            for _round in range(8):
                s0 = st.copy()
                s0.mark = s0.n
                for key, val in overrides.items():
                    self.set_loc(s0, key, val)
                start = s0.copy()
                n0 = len(self.inloop)
                res = run(s0, elem)
                lost = self.inloop[n0:]
                del self.inloop[n0:]
                self.lost = [({a: v for a, v in p.items() if base_pc.get(a) is None}, DC if q == "__assert_fail" else T("abort"))
                             for p, q in lost] if MODE["dc"] else []
                res = [(x, None if c == "continue" else c) for x, c in res]
                # modified locations
                mod = []
                for x, c in res:
                    for n, v in x.cells.items():
                        if n < start.n and start.cells.get(n) is not v and ("c", n) not in mod:
                            mod.append(("c", n))
                    for k, v in x.store.items():
                        if start.store.get(k) is not v and ("s", k) not in mod:
                            mod.append(("s", k))
                new = [m for m in mod if m not in overrides]
                perelem = [m for m in new if m[0] == "s" and elem is not None and elem in subterms(m[1][0])]
                new = [m for m in new if m not in perelem]
                if new:
                    new.sort(key=lambda m: (m[0], m[1] if m[0] == "c" else (m[1][0].d, m[1][1])))
                    known += new
                    tags = self.phi_tags(st, known, perm)
                    for m in new:
                        overrides[m] = self.phi_value(st, m, coll, tags[m])
                    continue
                # classify
                changed = False
                for j, m in enumerate(known):
                    cur_val = overrides[m]
                    phis = find_ops(cur_val, {"phi"})
                    ph = T("phi", coll, tags[m])
                    if ph not in phis:
                        continue
                    vals = [(x, c, self.get_loc(x, m)) for x, c in res]
                    nxt = [(x, v) for x, c, v in vals if c is None]
                    cl = self.classify(st, m, coll, ph, cur_val, nxt, base_pc, first, is_while)
                    if cl is not None:
                        overrides[m] = cl
                        changed = True
                if not changed:
                    break
            else:
                pass
            if coll in self.fresh and coll not in self.stale and \
                    not all(self.only_key(st, m, T("phi", coll, tags[m]), overrides[m], res) for m in known
                            if T("phi", coll, tags[m]) in {p for p, _ in self.fresh[coll]}):
                self.stale.add(coll)
                return ("again", None)
            if perm is None:
                perm = self.phi_order(coll, known, tags, overrides, res, base_pc, st)
                if perm:
                    return ("again", perm)
            out = self.loop_post(st, coll, elem, res, known, overrides, perelem, base_pc, is_while, tags)
            if not is_while:
                out = self.close_phis(st, coll, out, res, known, overrides, tags, base_pc)
            return ("done", out)
        finally:
            self.loop_stack.pop()

    def only_key(self, st, m, ph, cur, res):
        """Is every entry made by an iteration made for the key that was
        taken to be new?"""
        keys = {k for p, k in self.fresh[ph.a[0]] if p is ph}
        if len(keys) != 1 or self.get_loc(st, m) is not EMPTY and self.get_loc(st, m) is not EMPTYCAT:
            return False
        k = next(iter(keys))
        return all((v is cur or v.op == cur.op == "cat" and v.a[:len(cur.a)] == cur.a) and all(p.op in ("put", "putnew", "ensure", "add") and p.a[0] is k for p in app_pieces(v, cur, ph))
                   for v in (self.get_loc(x, m) for x, _ in res))

    def new_key(self, c, k):
        """Key of the current element of a traversal that visits no element
        twice, looked up in a table filled by that traversal: not there yet
        (confirmed at the end of the loop)."""
        if c.op != "cat" or len(c.a) != 1 or c.a[0].op != "phi" or len(c.a[0].a) != 2:
            return False
        coll = c.a[0].a[0]
        if coll.op not in ("dfs", "po", "nodes") or coll in self.stale or coll not in self.loop_stack:
            return False
        e = elem_of(coll)
        if k is not e and not (k.op == "field" and k.a[0] is e and k.a[1].endswith("DeclContextNode::decl")):
            return False
        self.fresh.setdefault(coll, set()).add((c.a[0], k))
        return True

    def close_phis(self, st, coll, out, res, known, overrides, tags, base_pc):
        """A loop-carried value without closed form is known by what it starts
        with and by how an iteration changes it (and what that depends on)."""
        mine = {T("phi", coll, tags[m]): m for m in known if T("phi", coll, tags[m]) in find_ops(overrides[m], {"phi"})}
        if not mine:
            return out

        def used(v):
            return {t for t in find_ops(v, {"phi"}) if t in mine} if isinstance(v, Term) else set()
        need = set()
        for s, c in out:
            for n, v in s.cells.items():
                if st.cells.get(n) is not v:
                    need |= used(v)
            for k, v in s.store.items():
                if st.store.get(k) is not v:
                    need |= used(v)
            for a in s.pc:
                if a not in base_pc:
                    need |= used(a)
            if isinstance(c, tuple):
                need |= used(c[1])
        if not need:
            return out
        step, deps = {}, {}

        def steps(ph):
            if ph in step:
                return
            m = mine[ph]
            rows = []
            init = self.get_loc(st, m)
            for x, c in res:
                if c is not None:
                    continue
                v = self.get_loc(x, m)
                if init is not None and init.op == "bool" and not is_const(v):
                    rows += [(self.new_pc(y, base_pc), BOOL(b)) for y, b in self.truth(x.copy(), v, "bool")]
                else:
                    rows.append((self.new_pc(x, base_pc), v))
            step[ph] = build(self.theory, rows + self.lost) if rows else UNIT
            deps[ph] = used(step[ph])
            for q in deps[ph]:
                steps(q)
        for ph in need:
            steps(ph)
        sub = {}
        for ph in need:
            seen, todo = {ph}, [ph]
            while todo:
                for q in deps[todo.pop()]:
                    if q not in seen:
                        seen.add(q)
                        todo.append(q)
            sys_ = tuple(T("step", q.a[1], self.get_loc(st, mine[q]), step[q]) for q in sorted(seen, key=lambda q: q.d))
            sub[ph] = T("phi", coll, ph.a[1], T("steps", ph.a[1], sys_))
        memo = {}
        fin = []
        for s, c in out:
            for n, v in list(s.cells.items()):
                if st.cells.get(n) is not v and used(v):
                    s.cells[n] = subst(v, sub, memo)
            for k, v in list(s.store.items()):
                if st.store.get(k) is not v and used(v):
                    s.store[k] = subst(v, sub, memo)
            if any(used(a) for a in s.pc if a not in base_pc):
                s.pc = {(subst(a, sub, memo) if a not in base_pc and used(a) else a): v for a, v in s.pc.items()}
            fin.append((s, ("ret", subst(c[1], sub, memo)) if isinstance(c, tuple) else c))
        return fin

    def phi_value(self, st, m, coll, j):
        ph = T("phi", coll, j)
        init = self.get_loc(st, m)
        if init is not None and (init.op == "cat" or init is EMPTY or init.op == "str"):
            return T("cat", ph)
        if init is not None and init.op == "lsep":
            return T("lsep", init.a[0], ph)
        if m[0] == "s":
            return ph
        return ph

    def get_loc(self, st, m):
        if m[0] == "c":
            return st.cells.get(m[1])
        v = st.store.get(m[1])
        if v is None:
            o, f = m[1]
            return o if f == "@" else T("field", o, f)
        return v

    def set_loc(self, st, m, v):
        if m[0] == "c":
            st.cells[m[1]] = v
        else:
            st.store[m[1]] = v

    def new_pc(self, st, base):
        return {a: v for a, v in st.pc.items() if base.get(a) is None}

    def classify(self, st, m, coll, ph, cur, nxt, base_pc, first, is_while):
        """Closed form for the value of m at the start of an iteration."""
        init = self.get_loc(st, m)
        if not nxt:
            return init
        if init.op == "bool" and cur is ph:
            # a path on which the flag is known leaves it at that value
            def fixed(x, v):
                for a in (ph, T("p", ph), T("tb", ph)):
                    if v is ph and a in x.pc:
                        return BOOL(x.pc[a])
                return v
            nxt = [(x, fixed(x, v)) for x, v in nxt]
        vals = [v for _, v in nxt]
        if cur.op == "lsep":
            c0, c1 = init.a[1], None
            outs = {v.a[1] for v in vals if v.op == "lsep"}
            if len(outs) == 1 and is_const(next(iter(outs))):
                c1 = next(iter(outs))
                return T("lsep", cur.a[0], T("ite", first, c0, c1) if c0 is not c1 else c0)
            return None
        if all(v is cur or v is init and is_const(v) for v in vals):
            return init
        # accumulator?
        if all(is_append(v, cur, ph) for v in vals):
            return None
        if is_while:
            return None
        if all(v.op == "add" and v.a[0] is ph for v in vals) and len({v.a[1] for v in vals}) == 1:
            k = vals[0].a[1]
            i = T("idx", coll)
            if init.op == "int" and k == 1:
                return mk_add(i, init.a[0])
            return None
        if all(not mentions_phi(v, coll) for v in vals):
            if len(set(vals)) == 1 and not has_elem(vals[0], coll):
                c1 = vals[0]
                return c1 if c1 is init else T("ite", first, init, c1)
        ok = all(v is cur or not mentions_phi(v, coll) for v in vals) and \
            all(not any(mentions_phi(a, coll) for a in self.new_pc(x, base_pc)) for x, _ in nxt)
        if ok:
            upd = [v for v in vals if v is not cur]
            if len(set(upd)) == 1 and not has_elem(upd[0], coll):
                rows = [(self.new_pc(x, base_pc), BOOL(v is not cur)) for x, v in nxt]
                X = build(self.theory, rows)
                return T("ite", T("p", T("anyprior", coll, X)), upd[0], init)
            rows = [(self.new_pc(x, base_pc), T("keep") if v is cur else v) for x, v in nxt]
            return T("lastprior", coll, build(self.theory, rows), init)
        return None

    def loop_post(self, st, coll, elem, res, known, overrides, perelem, base_pc, is_while, tags):
        exits = [(x, c) for x, c in res if c is not None]
        nxt = [x for x, c in res if c is None]
        rows_all = [(self.new_pc(x, base_pc), c) for x, c in res]
        X = build(self.theory, [(p, BOOL(c is not None)) for p, c in rows_all]) if res else FALSE
        ex_rows = exits
        fw = T("fw", coll, X)
        post = {}

        def pieces_of(v, cur, ph):
            return list(v.a[len(cur.a):]) if cur.op == "cat" else list(v.a[1:])

        # value after all iterations
        for j, m in enumerate(known):
            cur = overrides[m]
            ph = T("phi", coll, tags[m])
            init = self.get_loc(st, m)
            if ph in find_ops(cur, {"phi"}) and not is_while:
                vals = [(x, self.get_loc(x, m)) for x in nxt]
                if vals and all(is_append(v, cur, ph) for _, v in vals):
                    rows = [(self.new_pc(x, base_pc), v) for x, v in vals]
                    strip = {v: piececat(app_pieces(v, cur, ph)) for _, v in vals}
                    if any(p.op == "add" for l in strip.values() for p in l.a[1:]):
                        flat = tree_paths(build(self.theory, rows))
                        rows = flat if all(v in strip for _, v in flat) else rows
                    rows = [(c, strip[v]) for c, v in rows]
                    tree = build(self.theory, rows + self.lost if any(l is not EMPTYCAT for _, l in rows) else rows)
                    if tree is EMPTYCAT:
                        post[m] = (init, [])
                    else:
                        post[m] = (init, [T("loop", coll, tree)])
                else:
                    rows = [(self.new_pc(x, base_pc), v) for x, v in vals]
                    post[m] = (T("fold", coll, tags[m], init, build(self.theory, rows + self.lost) if rows else UNIT), None)
            elif is_while:
                post[m] = None
            else:
                # closed form of the value after the loop
                vals = [(x, self.get_loc(x, m)) for x in nxt]
                post[m] = (self.after(st, m, coll, cur, vals, base_pc), None)
        if is_while:
            return self.while_post(st, coll, res, known, overrides, base_pc, tags)
        out = []
        complete = None
        if nxt or not res:
            complete = st.copy()
            for m, (v, pieces) in post.items():
                self.set_loc(complete, m, v if pieces is None else append(v, pieces))
            for m in perelem:
                rows = [(self.new_pc(x, base_pc), self.get_loc(x, m)) for x in nxt]
                self.set_loc(complete, m, T("each", coll, build(self.theory, rows)))
        if not exits:
            return [(complete, None)]
        if X is TRUE:
            anyat = None
            empty_res = self.t_lt(st.copy(), mk_size(coll), INT(1))
        elif X is FALSE:
            return [(complete, None)] if complete else []
        else:
            anyat = T("any", coll, X)
        # completed without exit
        if anyat is not None:
            if complete is not None:
                c2 = self.assume(complete, anyat, False)
                if c2 is not None:
                    out.append((c2, None))
        else:
            e = st.copy()
            for s, b in self.t_lt(e, mk_size(coll), INT(1)):
                if b:
                    out.append((s, None))
            fw = mk_at(coll, INT(0))
        # left at the first element that satisfies X
        memo = {}
        for x, c in exits:
            s = st.copy()
            if anyat is not None:
                s = self.assume(s, anyat, True)
            else:
                s2 = None
                for t, b in self.t_lt(s, mk_size(coll), INT(1)):
                    if not b:
                        s2 = t
                s = s2
            if s is None:
                continue
            sub = {elem: fw, T("idx", coll): T("idxof", coll, X)}
            if elem.op == "pair":
                sub = {elem.a[1]: fw, elem.a[0]: T("idxof", coll, X)}
            ok = True
            if len(exits) > 1:
                for a, v in self.new_pc(x, base_pc).items():
                    b = subst(a, sub, memo)
                    if b.op == "bool":
                        if b.a[0] != v:
                            ok = False
                            break
                        continue
                    if b.op == "first":
                        continue
                    s = self.assume(s, b, v)
                    if s is None:
                        ok = False
                        break
            if not ok:
                continue
            for j, m in enumerate(known):
                cur = overrides[m]
                ph = T("phi", coll, tags[m])
                v = self.get_loc(x, m)
                init = self.get_loc(st, m)
                if ph in find_ops(cur, {"phi"}) and is_append(v, cur, ph):
                    pre = []
                    if post[m][1]:
                        tree = post[m][1][0].a[1]
                        pre = [T("loopu", coll, X, tree)]
                    mine = [subst(p, sub, memo) for p in app_pieces(v, cur, ph)]
                    self.set_loc(s, m, append(init, pre + mine))
                else:
                    self.set_loc(s, m, subst(v, sub, memo))
            for m in perelem:
                self.set_loc(s, ("s", (subst(m[1][0], sub, memo), m[1][1])), subst(self.get_loc(x, m), sub, memo))
            if isinstance(c, tuple):
                # values that live in cells allocated inside the loop
                rv = c[1]
                for n in locs_of(rv):
                    if n in x.cells and n not in s.cells:
                        s.cells[n] = subst(x.cells[n], sub, memo)
                s.n = max(s.n, x.n)
                out.append((s, ("ret", subst(rv, sub, memo))))
            else:
                out.append((s, "brk" if c == "break" else c))
        return out

    def after(self, st, m, coll, cur, vals, base_pc):
        init = self.get_loc(st, m)
        if not vals:
            return init
        vs = [v for _, v in vals]
        if cur.op == "lsep":
            return T("lsep", cur.a[0], T("uninit"))
        if all(v is cur for v in vs) and cur is init:
            return init
        if cur.op == "idx" or (cur.op == "add" and cur.a[0].op == "idx"):
            return mk_add(mk_size(coll), cur.a[1] if cur.op == "add" else 0)
        if cur.op == "ite" and cur.a[0].op == "p" and cur.a[0].a[0].op == "anyprior":
            X = cur.a[0].a[0].a[1]
            return T("ite", T("any", coll, X), cur.a[1], cur.a[2])
        if cur.op == "ite" and cur.a[0].op == "first":
            return T("ite", T("lt", mk_size(coll), 1), cur.a[1], cur.a[2]) if mk_size(coll).op != "int" else cur.a[2]
        if cur.op == "lastprior":
            return T("last", coll, cur.a[1], cur.a[2])
        if len(set(vs)) == 1 and not has_elem(vs[0], coll):
            return vs[0]
        rows = [(self.new_pc(x, base_pc), v) for x, v in vals]
        return T("lastval", coll, build(self.theory, rows + self.lost), init)

    def while_post(self, st, coll, res, known, overrides, base_pc, tags):
        """Loop without a recognisable collection: canonical fixpoint."""
        rows = []
        # variables that are the same at the start of every iteration
        still = {m for m in known if is_const(overrides[m]) and overrides[m] is self.get_loc(st, m)
                 and all(self.get_loc(x, m) is overrides[m] for x, c in res if c is None)}
        order = sorted((m for m in known if m not in still), key=lambda m: tags[m])
        for x, c in res:
            rows.append((self.new_pc(x, base_pc),
                         T("again", tuple(self.get_loc(x, m) for m in order)) if c is None else T("exit")))
        inits = tuple(self.get_loc(st, m) for m in order)
        tree = build(self.theory, rows + self.lost) if rows else UNIT
        L = T("while", inits, tree)
        # the values at the start of the iteration that leaves the loop
        sub = {}
        for m in order:
            cur, ph, init = overrides[m], T("phi", coll, tags[m]), self.get_loc(st, m)
            if ph not in find_ops(cur, {"phi"}):
                continue
            if init is not None and all(is_append(self.get_loc(x, m), cur, ph) for x, c in res):
                sub[ph] = append(init, [T("whilep", L, tags[m])])
            else:
                sub[ph] = T("wval", L, tags[m])
        memo, out = {}, []
        for x, c in res:
            if c is None:
                continue
            s = st.copy()
            for a, v in self.new_pc(x, base_pc).items():
                b = subst(a, sub, memo)
                if b.op == "bool":
                    s = s if b.a[0] == v else None
                else:
                    s = self.assume(s, b, v)
                if s is None:
                    break
            if s is None:
                continue
            s.n = max(s.n, x.n)
            for m in known:
                self.set_loc(s, m, subst(self.get_loc(x, m), sub, memo))
            if isinstance(c, tuple):
                for n in locs_of(c[1]):
                    if n in x.cells and n not in s.cells:
                        s.cells[n] = subst(x.cells[n], sub, memo)
                out.append((s, ("ret", subst(c[1], sub, memo))))
            else:
                out.append((s, "brk"))
        return out

    def flags(self, st, cond):
        """Plain boolean locals among the conjuncts of a loop condition:
        ([(variable, wanted value)], the other conjuncts or None)."""
        flags, rest = [], None

        def conj(c):
            if c[0] == "bin" and c[2] == "&&":
                return conj(c[3]) + conj(c[4])
            return [c]
        for c in conj(cond):
            r, want = c, True
            while r[0] == "un" and r[2] == "!":
                r, want = r[3], not want
            if r[0] == "ref" and isinstance(r[2], dict) and is_bool_t(r[2].get("t", "")) and st.env.get(r[2].get("id")) is not None \
                    and st.env[r[2]["id"]].op == "loc":
                flags.append((r, want))
            else:
                rest = c if rest is None else ["bin", c[1], "&&", rest, c, "bool"]
        return flags, rest

    def flagged(self, st, cond, body, go):
        """while (flag && c) b is if (flag) while (c) { b; if (!flag) break; }"""
        flags, rest = self.flags(st, cond) if cond is not None else ([], cond)
        if not flags:
            return None
        body = ["flagbody", body[1], body, flags]
        out = []
        for x, ok in self.test_flags(st, flags):
            out += go(x, rest, body) if ok else [(x, None)]
        return out

    def test_flags(self, st, flags):
        res = [(st, True)]
        for r, want in flags:
            nxt = []
            for x, ok in res:
                if not ok:
                    nxt.append((x, ok))
                    continue
                for y, b in self.cond(x, r):
                    if b == want:
                        y.cells[y.env[r[2]["id"]].a[0]] = BOOL(want)
                    nxt.append((y, b == want))
            res = nxt
        return res

    def s_flagbody(self, st, s):
        out = []
        for x, c in self.stmt(st, s[2]):
            if c in (None, "continue"):
                out += [(y, c if ok else "break") for y, ok in self.test_flags(x, s[3])]
            else:
                out.append((x, c))
        return out

    def s_while(self, st, s):
        cond, body, cv = s[2], s[3], s[4]
        if cv is None:
            r = self.flagged(st, cond, body, lambda x, c, b: self.s_while(x, [s[0], s[1], c, b, None]))
            if r is not None:
                return self.merge(r)
        # i = a; while (i < n) { ...; ++i; } is a for loop
        if cv is None and body and body[0] == "compound" and body[2]:
            inc = body[2][-1]
            if inc and (inc[0] == "un" and inc[2] == "++" or inc[0] == "call" and inc[2].get("op") == "++") and not has_continue(body[2][:-1]):
                r = self.counted(st, None, cond, inc, [body[0], body[1], body[2][:-1]])
                if r is not None:
                    return self.merge(r)
        return self.generic_while(st, cond, body, None, cv)

    def s_do(self, st, s):
        # do { body } while (cond): the condition leaves the loop at the end
        return self.generic_while(st, None, s[2], None, None, s[3])

    def generic_while(self, st, cond, body, inc, cv, last=None):
        coll = T("whilectl", sum(1 for c in self.loop_stack if c.op == "whilectl"))

        def run(z, _e):
            out = []
            env0 = set(z.env)
            for x in (self.declare(z, cv) if cv else [z]):
                for y, b in (self.cond(x, cond) if cond is not None else [(x, True)]):
                    if not b:
                        out.append((y, "break"))
                        continue
                    for w, c in self.stmt(y, body):
                        if c in (None, "continue") and inc is not None:
                            out += [(v, None) for v, _ in self.ev(w, inc)]
                        elif c in (None, "continue") and last is not None:
                            out += [(v, None if again else "break") for v, again in self.cond(w, last)]
                        else:
                            out.append((w, c))
            for x, _ in out:
                for k in [k for k in x.env if k not in env0]:
                    del x.env[k]
            return out
        return [(x, None if c == "brk" else c) for x, c in self.each_loop(st, coll, run, is_while=True)]

    def s_for(self, st, s):
        init, cond, inc, body = s[2], s[3], s[4], s[5]
        env0 = set(st.env)
        out = []
        def go(x, cond, body):
            r = self.counted(x, init, cond, inc, body)
            return self.generic_while(x, cond, body, inc, None) if r is None else r
        for x in self.with_init(st, init, None):
            r = self.flagged(x, cond, body, go) if init is not None else None
            out += go(x, cond, body) if r is None else r
        for x, _ in out:
            for k in [k for k in x.env if k not in env0]:
                del x.env[k]
        return self.merge(out)

    def counted(self, st, init, cond, inc, body):
        """for (i = 0; i < n; ++i) and for (it = begin; it != end; ++it)."""
        if inc is None or cond is None:
            return None
        var = None
        if inc[0] == "un" and inc[2] == "++" and inc[3][0] == "ref":
            var = inc[3][2]["id"]
        elif inc[0] == "call" and inc[2].get("op") == "++" and inc[3] and inc[3][0][0] == "ref":
            var = inc[3][0][2]["id"]
        if var is None or var not in st.env or assigns(body, var):
            return None
        lvv = st.env[var]
        if lvv.op != "loc":
            return None
        start = self.read(st, lvv)
        if cond[0] == "bin" and cond[2] in ("<", "!="):
            op, l, r = cond[2], cond[3], cond[4]
        elif cond[0] == "bin" and cond[2] == ">":
            op, l, r = "<", cond[4], cond[3]
        elif cond[0] == "call" and cond[2].get("op") == "!=":
            op, l, r = "!=", cond[3][0], cond[3][1]
        elif cond[0] == "un" and cond[2] == "!" and cond[3][0] == "call" and cond[3][2].get("op") == "==":
            op, l, r = "!=", cond[3][3][0], cond[3][3][1]
        else:
            return None
        if not (l[0] == "ref" and l[2]["id"] == var):
            if op == "!=" and r[0] == "ref" and r[2]["id"] == var:
                l, r = r, l
            else:
                return None
        self.quiet += 1
        rr = self.ev(st.copy(), r)
        self.quiet -= 1
        if len(rr) != 1:
            return None
        end = rr[0][1]
        if start.op == "iter" and start.a[1] == "begin" and end.op == "iter" and end.a[1] == "end" and start.a[0] is end.a[0]:
            coll = start.a[0]

            def run(z, e):
                z.cells[lvv.a[0]] = T("itat", e, coll)
                return self.stmt(z, body)
        elif start.op == "int" and not (end.op == "iter"):
            n = end
            coll = None
            if start.a[0] == 0:
                sized = self.size_of(st, r)
                if sized is not None and not self.simple_pushes(filled(sized)[1]):
                    coll = sized
                elif n.op == "size":
                    coll = n.a[0]
                elif n.op == "call" and n.a[0].endswith("::getNumParams"):
                    coll = T("call", "clang::FunctionDecl::parameters", (), n.a[2])
                elif n.op == "call" and re.search(r"::(getNumArgs)$", n.a[0]):
                    coll = T("call", n.a[0].replace("getNumArgs", "arguments"), (), n.a[2])
            if coll is not None:
                def run(z, e):
                    z.cells[lvv.a[0]] = T("idx", coll)
                    if e is elem_of(coll):
                        return self.stmt(z, body)
                    old = _idx_elem.get(coll)
                    _idx_elem[coll] = e
                    try:
                        return self.stmt(z, body)
                    finally:
                        _idx_elem[coll] = old
            elif start.a[0] == 0 and self.size_of(st, r) is not None:
                v = self.size_of(st, r)
                k, p = filled(v)
                saved = st.cells[lvv.a[0]]
                out, cur = [], [st]
                for j in range(k):
                    nxt = []
                    for z in cur:
                        z.cells[lvv.a[0]] = INT(j)
                        for y, c in self.stmt(z, body):
                            if c in (None, "continue"):
                                nxt.append(y)
                            else:
                                out.append((y, None if c == "break" else c))
                    cur = nxt

                def run(z, e):
                    z.cells[lvv.a[0]] = mk_add(T("idx", p.a[0]), k)
                    old = _idx_elem.get(p.a[0])
                    _idx_elem[p.a[0]] = None if e is elem_of(p.a[0]) else e
                    try:
                        return self.stmt(z, body)
                    finally:
                        _idx_elem[p.a[0]] = old
                for z in cur:
                    out += self.each(z, p.a[0], run)
                for y, c in out:
                    if c is None:
                        y.cells[lvv.a[0]] = T("uninit")
                return out
            else:
                coll = T("range", start, n)

                def run(z, e):
                    z.cells[lvv.a[0]] = e
                    return self.stmt(z, body)
        else:
            return None
        saved = st.cells[lvv.a[0]]
        out = []
        for x, c in self.each(st, coll, run):
            x.cells[lvv.a[0]] = T("uninit") if c is None else x.cells.get(lvv.a[0], saved)
            out.append((x, c))
        return out

    def size_of(self, st, e):
        """The sequence whose size the expression is, if it is known how it was filled."""
        while e[0] in ("cast", "paren", "icast") and isinstance(e[-1], list):
            e = e[-1]
        if e[0] != "call" or not e[2]["q"].endswith("::size") or len(e[3]) != 1:
            return None
        self.quiet += 1
        try:
            ls = self.lv(st.copy(), e[3][0])
        finally:
            self.quiet -= 1
        if len(ls) != 1:
            return None
        v = self.read(*ls[0])
        return v if filled(v) is not None else None

    # ------------------------------------------------ conditions
    def cond(self, st, e):
        k = e[0]
        if k == "bin" and e[2] == "&&":
            out = []
            for x, b in self.cond(st, e[3]):
                out += self.cond(x, e[4]) if b else [(x, False)]
            return out
        if k == "bin" and e[2] == "||":
            out = []
            for x, b in self.cond(st, e[3]):
                out += [(x, True)] if b else self.cond(x, e[4])
            return out
        if k == "un" and e[2] == "!":
            return self.fork_not(self.cond(st, e[3]))
        if k == "tobool":
            out = []
            for x, v in self.ev(st, e[2]):
                out += self.truth(x, v, e[3])
            return out
        out = []
        for x, v in self.ev(st, e):
            out += self.truth(x, v, self.ty(e))
        return out

    def ty(self, e):
        k = e[0]
        if k == "ref":
            return e[2].get("t", "")
        if k in ("call", "construct"):
            return e[2].get("t", "")
        if k == "member":
            return e[4]
        if k == "bin":
            return e[6]
        if k == "un":
            return e[5]
        if k == "cast":
            return e[2]
        if k in ("int",):
            return e[3]
        if k == "assign":
            return e[5]
        if k == "this":
            return e[2]
        if k == "cond":
            return self.ty(e[3])
        return ""

    # ------------------------------------------------ expressions
    def evs(self, st, es):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in cur:
                for y, v in self.ev(x, e):
                    nxt.append((y, vs + [v]))
            cur = nxt
        return cur

    def lvs(self, st, es):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in cur:
                for y, v in self.lv(x, e):
                    nxt.append((y, vs + [v]))
            cur = nxt
        return cur

    def note_type(self, v, t):
        if v.op in CONST_SKIP or not t:
            return
        b = strip_t(t)
        if b in self.prog.bases and v not in self.theory.stype:
            self.theory.stype[v] = b

    def ev(self, st, e):
        if e is None:
            return [(st, UNIT)]
        k = e[0]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.unknown[k] = self.unknown.get(k, 0) + 1
            return [(st, T("opaque", k))]
        return m(st, e)

    def e_int(self, st, e):
        return [(st, INT(int(e[2])))]

    def e_char(self, st, e):
        return [(st, T("char", chr(e[2])))]

    def e_str(self, st, e):
        return [(st, STR(e[2]))]

    def e_bool(self, st, e):
        return [(st, BOOL(e[2]))]

    def e_typeid(self, st, e):
        return [(st, T("typeid", e[2]))]

    def e_nullptr(self, st, e):
        return [(st, NULL)]

    def e_this(self, st, e):
        return [(st, self.addr_of(st, st.env["this"]) if "this" in st.env else T("this"))]

    def e_zeroinit(self, st, e):
        t = e[2]
        if is_ptr(t):
            return [(st, NULL)]
        if is_bool_t(t):
            return [(st, FALSE)]
        if is_int_t(t):
            return [(st, INT(0))]
        return [(st, self.default_struct(st, t))]

    def default_struct(self, st, t):
        rec = self.prog.records.get(base_name(t))
        if rec and "<" not in t:
            fs = []
            for f in rec["fields"]:
                if f.get("init"):
                    (_, v), = self.ev(st.copy(), f["init"])[:1]
                else:
                    v = self.default_value(st, f["t"])
                fs.append((f["n"], v))
            return STRUCT(rec["q"], tuple(fs))
        return self.default_value(st, t)

    def e_tobool(self, st, e):
        out = []
        for x, v in self.ev(st, e[2]):
            if is_const(v):
                out += [(y, BOOL(b)) for y, b in self.truth(x, v, e[3])]
            elif is_ptr(e[3]):
                out.append((x, T("nonnull", v) if v.op not in ("dyn", "dynn", "addr", "make") else T("tb", v)))
            else:
                out += [(y, BOOL(b)) for y, b in self.truth(x, v, e[3])]
        # resolve the deferred ones
        res = []
        for x, v in out:
            if v.op == "tb":
                res += [(y, BOOL(b)) for y, b in self.truth(x, v.a[0], "*")]
            else:
                res.append((x, v))
        return res

    def e_tovoid(self, st, e):
        return [(x, UNIT) for x, _ in self.ev(st, e[2])]

    def e_ref(self, st, e):
        out = []
        r = e[2]
        if r["k"] == "enumconst":
            return [(st, T("enum", r["enum"], r["q"].split("::")[-1]))]
        if r["k"] == "func":
            self.funcs[r["c"]["key"]] = r["c"]
            return [(st, T("func", r["c"]["key"], r["c"]["q"]))]
        for x, l in self.lv(st, e):
            v = self.read(x, l)
            self.note_type(v, r.get("t", ""))
            out += self.split(x, v)
        return out

    def split(self, st, v):
        if v.op == "ite":
            out = []
            for s, b in self.truth(st, v.a[0]):
                out += self.split(s, v.a[1] if b else v.a[2])
            return out
        return [(st, v)]

    def e_member(self, st, e):
        out = []
        for x, l in self.lv(st, e):
            v = self.read(x, l)
            self.note_type(v, e[4])
            out += self.split(x, v)
        return out

    def e_memfn(self, st, e):
        return [(st, T("func", e[3]["key"], e[3]["q"]))]

    def e_un(self, st, e):
        op, sub, post = e[2], e[3], e[4]
        if op == "!":
            return [(x, BOOL(not b)) for x, b in self.cond(st, sub)]
        if op == "&":
            return [(x, self.addr_of(x, l)) for x, l in self.lv(st, sub)]
        if op == "*":
            out = []
            for x, l in self.lv(st, e):
                v = self.read(x, l)
                self.note_type(v, e[5])
                out.append((x, v))
            return out
        if op in ("++", "--"):
            out = []
            for x, l in self.lv(st, sub):
                v = self.read(x, l)
                d = 1 if op == "++" else -1
                if v.op in ("iter", "itat", "next"):
                    nv = T("next", v, d)
                else:
                    nv = mk_add(v, d)
                self.write(x, l, nv)
                out.append((x, v if post else nv))
            return out
        out = []
        for x, v in self.ev(st, sub):
            if op == "-" and v.op == "int":
                out.append((x, INT(-v.a[0])))
            elif op == "+":
                out.append((x, v))
            else:
                out.append((x, T("unop", op, v)))
        return out

    def e_bin(self, st, e):
        op = e[2]
        if op in ("&&", "||"):
            return [(x, BOOL(b)) for x, b in self.cond(st, e)]
        if op == ",":
            out = []
            for x, _ in self.ev(st, e[3]):
                out += self.ev(x, e[4])
            return out
        out = []
        for x, (a, b) in self.evs(st, [e[3], e[4]]):
            out += self.binop(x, op, a, b, e[5])
        return out

    def binop(self, st, op, a, b, lt=""):
        if op == "==":
            return [(y, BOOL(v)) for y, v in self.t_eq(st, a, b)]
        if op == "!=":
            return [(y, BOOL(not v)) for y, v in self.t_eq(st, a, b)]
        if op == "<":
            return [(y, BOOL(v)) for y, v in self.t_lt(st, a, b)]
        if op == ">":
            return [(y, BOOL(v)) for y, v in self.t_lt(st, b, a)]
        if op == "<=":
            return [(y, BOOL(not v)) for y, v in self.t_lt(st, b, a)]
        if op == ">=":
            return [(y, BOOL(not v)) for y, v in self.t_lt(st, a, b)]
        if op in ("+", "-"):
            if a.op == "int" and b.op == "int":
                return [(st, INT(a.a[0] + b.a[0] if op == "+" else a.a[0] - b.a[0]))]
            if b.op == "int":
                return [(st, mk_add(a, b.a[0] if op == "+" else -b.a[0]))]
            if a.op == "int" and op == "+":
                return [(st, mk_add(b, a.a[0]))]
        if op in ("*", "/", "%") and a.op == "int" and b.op == "int" and b.a[0]:
            x, y = a.a[0], b.a[0]
            return [(st, INT(x * y if op == "*" else x // y if op == "/" else x % y))]
        if op in ("+", "*", "&", "|", "^"):
            if op in ("|", "^", "&") and is_bool_t(lt):
                out = []
                for x, p in self.truth(st, a, "bool"):
                    for y, q in self.truth(x, b, "bool"):
                        out.append((y, BOOL(p ^ q if op == "^" else (p and q) if op == "&" else (p or q))))
                return out
            if op == "^" and (is_const(a) and a.op == "bool" or is_const(b) and b.op == "bool"):
                return [(st, BOOL(a.a[0] ^ b.a[0]))] if is_const(a) and is_const(b) else [(st, T("binbits", op, a, b))]
            if op == "+":
                # the first character of a string, by pointer or by iterator
                a, b = [t.a[0] if t.op == "iter" and t.a[1] == "begin" else t for t in (a, b)]
            if a.d > b.d:
                a, b = b, a
        return [(st, T("binbits", op, a, b) if op in ("&", "|", "^", "<<", ">>") else T("arith", op, a, b))]

    def e_assign(self, st, e):
        return [(x, self.read(x, l)) for x, l in self.lv(st, e)]

    def e_cond(self, st, e):
        out = []
        for x, b in self.cond(st, e[2]):
            out += self.ev(x, e[3] if b else e[4])
        return out

    def e_cast(self, st, e):
        out = []
        for x, v in self.ev(st, e[3]):
            if is_bool_t(e[2]) and not is_bool_t(e[5]) and e[4] not in ("ConstructorConversion",):
                out += [(y, BOOL(b)) for y, b in self.truth(x, v, e[5])]
            elif is_int_t(e[2]) and not is_bool_t(e[2]) and (is_bool_t(e[5]) or v.op in ("bool", "p") or is_bool_t(self.ty(e[3]))):
                if v.op == "bool":
                    out.append((x, INT(int(v.a[0]))))
                else:
                    out += [(y, INT(int(b))) for y, b in self.truth(x, v, "bool")]
            elif v.op == "char" and is_int_t(e[2]) and strip_t(e[2]) not in ("unsigned char", "signed char"):
                out.append((x, INT(ord(v.a[0]))))
            else:
                out.append((x, v))
        return out

    def e_initlist(self, st, e):
        t = e[2]
        fields = e[4] if len(e) > 4 else []
        out = []
        b = base_name(t)
        for x, vs in self.evs(st, e[3]):
            if "[" in t or b == "std::initializer_list":
                out.append((x, T("list", *vs)))
            elif fields and len(fields) == len(vs):
                out.append((x, STRUCT(b, tuple(zip(fields, vs)))))
            elif len(vs) == 1 and not fields:
                out.append((x, vs[0]))
            elif not vs and is_ptr(t):
                out.append((x, NULL))
            elif not vs and is_int_t(t):
                out.append((x, INT(0)))
            elif not vs and is_bool_t(t):
                out.append((x, FALSE))
            else:
                out.append((x, STRUCT(b, tuple(zip([str(i) for i in range(len(vs))], vs)))))
        return out

    def e_new(self, st, e):
        out = []
        n = e[3]
        if n is not None and base_name(e[2]) == "std::basic_string":
            return [(x, T("make", "std::basic_string", self.strip_addr(x, v))) for x, v in self.ev(st, n)]
        if n is not None and n[0] == "construct" and isinstance(n[2], dict) and n[2].get("rec") and n[2]["rec"] == base_name(e[2]):
            # the same object as std::make_unique<T>(args...) gives
            return [(x, T("make", base_name(e[2]), *[self.strip_addr(x, v) for v in vs])) for x, vs in self.evs(st, n[3])]
        for x, v in (self.ev(st, e[3]) if e[3] is not None else [(st, UNIT)]):
            out.append((x, T("newobj", base_name(e[2]), v)))
        return out

    def e_delete(self, st, e):
        out = []
        for x, v in self.ev(st, e[2]):
            self.mutate(x, T("ext", HEAP), [T("delete", v)])
            out.append((x, UNIT))
        return out

    def e_subscript(self, st, e):
        return [(x, self.read(x, l)) for x, l in self.lv(st, e)]

    def e_other(self, st, e):
        self.unknown[e[2]] = self.unknown.get(e[2], 0) + 1
        ch = e[3] if len(e) > 3 else []
        return [(x, T("opaque", e[2], *vs)) for x, vs in self.evs(st, ch)]

    def e_lambda(self, st, e):
        o = e[2]
        self.lambdas[o["id"]] = o
        caps = []
        cur = [(st, [])]
        for c in o["caps"]:
            nxt = []
            for x, cs in cur:
                if c.get("this"):
                    nxt.append((x, cs + [("this", x.env.get("this", T("ext", T("this"))))]))
                elif c["byref"]:
                    for y, l in self.lv(x, c["init"]):
                        nxt.append((y, cs + [(c["id"], l)]))
                else:
                    for y, v in self.ev(x, c["init"]):
                        nxt.append((y, cs + [(c["id"], T("rv", v))]))
            cur = nxt
        return [(x, T("closure", o["id"], tuple(cs))) for x, cs in cur]

    # ------------------------------------------------ lvalues
    def lv(self, st, e):
        k = e[0]
        if k == "ref":
            r = e[2]
            i = r["id"]
            if i in st.env:
                l = st.env[i]
                return [(st, l)]
            if r["q"] == "std::nullopt":
                return [(st, T("rv", NONE))]
            if r["k"] == "global":
                g = self.prog.globals.get(i)
                if g and g.get("const") and g.get("init"):
                    return [(x, T("rv", v)) for x, v in self.ev(st, g["init"])]
                return [(st, T("ext", T("global", r["q"])))]
            if r["k"] in ("enumconst", "func"):
                return [(x, T("rv", v)) for x, v in self.e_ref(st, e)]
            return [(st, T("ext", T("unbound", r["q"])))]
        if k == "member":
            out = []
            if e[5]:
                for x, v in self.ev(st, e[2]):
                    out += self.member_lv(x, self.deref(v), e)
            else:
                for x, l in self.lv(st, e[2]):
                    out += self.member_lv(x, l, e)
            return out
        if k == "un" and e[2] == "*":
            return [(x, self.deref(v)) for x, v in self.ev(st, e[3])]
        if k == "un" and e[2] in ("++", "--") and not e[4]:
            out = []
            for x, _ in self.e_un(st, e):
                out += self.lv(x, e[3])
            return out
        if k == "this":
            return [(st, T("rv", self.e_this(st, e)[0][1]))]
        if k == "subscript":
            out = []
            for x, l in self.lv(st, e[2]):
                for y, i in self.ev(x, e[3]):
                    out.append((y, T("idxlv", l, i)))
            return out
        if k == "assign":
            return self.assign(st, e)
        if k == "cond":
            out = []
            for x, b in self.cond(st, e[2]):
                out += self.lv(x, e[3] if b else e[4])
            return out
        if k == "cast":
            return self.lv(st, e[3])
        if k == "call":
            return self.call(st, e, want_lv=True)
        if k == "bin" and e[2] == ",":
            out = []
            for x, _ in self.ev(st, e[3]):
                out += self.lv(x, e[4])
            return out
        return [(x, T("rv", v)) for x, v in self.ev(st, e)]

    def member_lv(self, st, l, e):
        # resolve references held in fields
        b = self.read(st, l)
        if b.op == "addr":
            l = b.a[0]
            b = self.read(st, l)
        if b.op == "alias":
            l = b.a[0]
        if b.op in ("dyn", "dynn"):
            l = T("ext", b.a[1])
        name = e[3]
        f = T("fld", l, name)
        if l.op == "rv":
            v = self.get_field(st, l.a[0], name)
            if v.op == "addr":
                return [(st, v.a[0])]
            if v.op == "field" and v.a[0] is l.a[0]:
                return [(st, T("fld", T("ext", l.a[0]), name))]
            return [(st, T("rv", v))]
        if is_ref(e[4]):
            v = self.read(st, f)
            return [(st, v.a[0] if v.op == "addr" else T("ext", v))]
        return [(st, f)]

    def plain_local(self, st, le):
        if not (isinstance(le, list) and le and le[0] == "ref"):
            return False
        l = st.env.get(le[2]["id"])
        return l is not None and l.op == "loc"

    def assign(self, st, e):
        op, le, re_ = e[2], e[3], e[4]
        out = []
        for x, v in self.ev(st, re_):
            vs = [(x, v)]
            if is_bool_t(e[5]) and op == "=" and not is_const(v) and not self.plain_local(x, le):
                vs = [(y, BOOL(b)) for y, b in self.truth(x, v, "bool")]
            for y, w in vs:
                for z, l in self.lv(y, le):
                    if op == "=":
                        if w.op == "itat" and len(w.a) == 2 and is_ptr(e[5]) and not self.plain_local(x, le):
                            w = w.a[0]      # an element pointer
                        self.write(z, l, w)
                        out.append((z, l))
                    else:
                        old = self.read(z, l)
                        for u, nv in self.binop(z, op[:-1], old, w, e[5]):
                            self.write(u, l, nv)
                            out.append((u, l))
        return out

    # ------------------------------------------------ construction
    def e_construct(self, st, e):
        o, args = e[2], e[3]
        rec = o["rec"]
        t = o["t"]
        self.sites += 1
        if (o.get("copy") or o.get("move")) and len(args) >= 1 and \
                (o.get("defaulted") or not o.get("repo") or self.value_copy(o)):
            out = []
            for x, v in self.ev(st, args[0]):
                if v.op == "addr":
                    v = self.read(x, v.a[0])
                out.append((x, v))
            return out
        fn = self.prog.functions.get(o["key"])
        if fn is not None and fn.get("body") is not None or (fn is not None and fn.get("inits") is not None and o.get("repo")):
            return self.construct_repo(st, e, fn)
        if o.get("repo") or rec in self.prog.records:
            if not args:
                return [(st, self.default_struct(st, t))]
        return self.construct_ext(st, e)

    def value_copy(self, o):
        """A user-provided copy/move constructor: copies the value (which is
        decided where the constructor itself is a unit)."""
        fn = self.prog.functions.get(o["key"])
        return fn is not None and fn["q"] in self.cuts and not self.in_header(fn)

    def in_header(self, fn):
        return fn["file"].endswith(".h") and fn["q"] not in HEADER_CUTS

    def is_cut(self, fn):
        return fn["q"] in self.cuts and not self.in_header(fn)

    def construct_repo(self, st, e, fn):
        o, args = e[2], e[3]
        rec = self.prog.records.get(o["rec"])
        q = fn["q"]
        if o["rec"] in self.opts.get("opaque_classes", ()) or self.is_cut(fn):
            return [(x, T("make", o["rec"], *vs)) for x, vs in self.evs(st, args)]
        out = []
        for x, bound in self.bind_args(st, args, fn["params"], o):
            fs = []
            if rec:
                for f in rec["fields"]:
                    fs.append((f["n"], self.default_value(x, f["t"])))
            loc = self.alloc(x, STRUCT(o["rec"], tuple(fs)))
            for y, _ in self.enter(x, fn, bound, loc):
                out.append((y, self.read(y, loc)))
        return out

    def construct_ext(self, st, e):
        o, args = e[2], e[3]
        rec, t = o["rec"], o["t"]
        out = []
        if rec == "llvm::ListSeparator":
            return [(x, T("lsep", vs[0] if vs else STR(", "), TRUE)) for x, vs in self.evs(st, args)]
        for x, vs in self.evs(st, args):
            vs = [v for v in vs if not (v.op == "newobj" and "allocator" in str(v.a[0])) and
                  not (v.op == "obj" and "allocator" in v.a[0])]
            if rec == "std::optional" or rec.startswith("std::_Optional"):
                if not vs:
                    out.append((x, NONE))
                elif args and self.is_nullopt(args[0]) or vs[0] is NONE:
                    out.append((x, NONE))
                elif is_opt_t(o["at"][0]) if o.get("at") else False:
                    out.append((x, vs[0]))
                else:
                    out.append((x, T("some", vs[0])))
                continue
            if rec == "llvm::StringSwitch":
                out.append((x, T("ssw", vs[0], T("unset"))))
                continue
            if rec == "std::nullopt_t":
                out.append((x, NONE))
                continue
            if rec in ("llvm::Expected", "llvm::ErrorOr"):
                at0 = base_name((o.get("at") or [""])[0])
                if at0 in ("llvm::Expected", "llvm::ErrorOr"):
                    out.append((x, vs[0]))
                elif at0 in ("llvm::Error", "std::error_code", "std::errc", "llvm::ErrorSuccess"):
                    out.append((x, vs[0] if vs[0].op in ("errval", "noerror") else T("errval", vs[0].a[0] if vs[0].op == "err" else vs[0])))
                else:
                    out.append((x, T("someok", vs[0] if vs else UNIT)))
                continue
            if rec in ("llvm::Error", "llvm::ErrorSuccess"):
                out.append((x, vs[0] if vs and vs[0].op != "null" else T("noerror")))
                continue
            if rec in ("std::unique_ptr", "std::shared_ptr", "std::function", "llvm::function_ref", "llvm::IntrusiveRefCntPtr",
                       "std::reference_wrapper", "std::allocator", "clang::QualType", "llvm::Twine", "llvm::iterator_range",
                       "llvm::unique_function"):
                if rec == "llvm::iterator_range" and len(vs) == 2:
                    out.append((x, self.range_of(vs[0], vs[1])))
                elif rec == "llvm::Twine" and len(vs) == 2:
                    out.append((x, mkcat(EMPTY, as_pieces(vs[0]) + as_pieces(vs[1]))))
                elif rec == "llvm::Twine" and not vs:
                    out.append((x, EMPTYSTR))
                else:
                    out.append((x, vs[0] if vs else NULL))
                continue
            if rec in ("std::pair", "std::tuple"):
                if not vs:
                    out.append((x, T("pair", self.default_value(x, "?"), self.default_value(x, "?"))))
                elif len(vs) == 1 and rec == "std::pair":
                    out.append((x, vs[0]))
                else:
                    out.append((x, T("pair", *vs)))
                continue
            if rec in STRINGS:
                if not vs or vs[0].op == "null":
                    out.append((x, EMPTYSTR))
                elif len(vs) == 2 and vs[0].op == "int" and vs[1].op == "char":
                    out.append((x, STR(vs[1].a[0] * vs[0].a[0])))
                elif len(vs) >= 2 and vs[0].op == "iter":
                    out.append((x, vs[0].a[0]))
                elif len(vs) >= 2 and not (len(o.get("at", [])) > 1 and "allocator" in o["at"][1]):
                    out.append((x, T("substr", *vs)))
                else:
                    out.append((x, vs[0]))
                continue
            if rec.startswith("std::priority_queue"):
                vs = [self.read(x, v.a[0]) if v.op == "addr" else v for v in vs]
                vs = [self.closure_summary(x, v) if v.op == "closure" else self.function_summary(x, v) if v.op == "func" else v for v in vs]
                vs = [v for v in vs if v is not EMPTY]
            if is_container_t(t) or CONT.match(rec):
                out.append((x, self.make_container(x, vs, o)))
                continue
            if rec in STREAMS:
                out.append((x, EMPTY))
                continue
            if rec.endswith("specific_decl_iterator") and len(vs) == 1 and vs[0].op == "iter":
                mm = re.search(r"specific_decl_iterator<([\w:]+)>", t)
                if mm:
                    out.append((x, T("iter", T("isafilter", vs[0].a[0], mm.group(1)), vs[0].a[1])))
                    continue
            if rec.startswith("__gnu_cxx::") or "iterator" in rec.lower():
                if len(vs) == 1:
                    out.append((x, vs[0]))
                    continue
            out.append((x, T("obj", rec, *vs)))
        return out

    def is_nullopt(self, e):
        return e[0] == "ref" and e[2].get("q", "").endswith("nullopt")

    def range_of(self, a, b):
        if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0] and a.a[1] == "begin" and b.a[1] == "end":
            return a.a[0]
        if a.op == "call" and b.op == "call":
            n, m = a.a[0].split("::")[-1], b.a[0].split("::")[-1]
            if n.endswith("begin") and m.endswith("end") and a.a[2:] == b.a[2:]:
                n = re.sub(r"_?begin$", "", n)
                return T("call", re.sub(r"_?begin$", "", a.a[0]), a.a[1], *a.a[2:])
        return T("rangeof", a, b)

    def make_container(self, st, vs, o):
        if not vs:
            return EMPTY
        at = o.get("at", [])
        if len(vs) >= 1 and (vs[0].op == "list"):
            if is_map_t(o["t"]):
                return mkcat(EMPTY, [T("putnew", self.get_i(v, 0), self.get_i(v, 1)) for v in vs[0].a])
            if is_set_t(o["t"]):
                return mkcat(EMPTY, [T("add", v) for v in vs[0].a])
            return mkcat(EMPTY, [T("push", v) for v in vs[0].a])
        if len(vs) >= 2 and vs[0].op == "iter" and vs[1].op == "iter":
            c = self.range_of(vs[0], vs[1])
            return self.copy_into(o["t"], c)
        if len(vs) == 1 and at and is_int_t(at[0]):
            if re.match(r"^(llvm::(DenseMap|StringMap|SmallDenseMap|DenseSet|SmallPtrSet\w*))$", base_name(o["t"])):
                return EMPTY
            return T("filled", vs[0])
        if len(vs) == 1:
            return vs[0]
        if len(vs) == 2 and at and is_int_t(at[0]):
            return T("filled", vs[0], vs[1])
        return T("obj", o["rec"], *vs)

    def copy_into(self, t, c):
        if is_set_t(t):
            return mkcat(EMPTY, [T("loop", c, piececat([T("add", elem_of(c))]))])
        return mkcat(EMPTY, [T("loop", c, piececat([T("push", elem_of(c))]))]) if seq_items(c) is None else c

    # ------------------------------------------------ calls
    def bind_args(self, st, args, params, o):
        """[(state, [(param id, lvalue or value)])]"""
        cur = [(st, [])]
        for i, a in enumerate(args):
            if i >= len(params):
                nxt = []
                for x, b in cur:
                    for y, v in self.ev(x, a):
                        nxt.append((y, b))
                cur = nxt
                continue
            p = params[i]
            self.vtype[p["id"]] = p["t"]
            nxt = []
            for x, b in cur:
                if is_ref(p["t"]):
                    for y, l in self.lv(x, a):
                        if l.op == "rv":
                            v = l.a[0]
                            if v.op in ("struct", "cat", "closure", "list", "alias", "some", "upd", "pair") or is_const(v):
                                l = self.alloc(y, v)
                        nxt.append((y, b + [(p["id"], l)]))
                else:
                    for y, v in self.ev(x, a):
                        if is_bool_t(p["t"]) and not is_const(v):
                            for z, bb in self.truth(y, v, "bool"):
                                nxt.append((z, b + [(p["id"], ("val", BOOL(bb)))]))
                        else:
                            nxt.append((y, b + [(p["id"], ("val", v))]))
            cur = nxt
        return cur

    def enter(self, st, fn, bound, this=None):
        """Runs a repo function; returns [(state, return value)]."""
        key = fn["key"]
        self.functions_seen.add(key)
        if self.call_stack.count(key) >= 1:
            return [(st, None)]
        self.call_stack.append(key)
        saved_cur = self.cur
        self.cur = fn
        try:
            saved_env = st.env
            saved_mark = st.mark
            st.stack = st.stack + (saved_env,)
            st.env = {}
            st.mark = st.n
            for pid, l in bound:
                if isinstance(l, tuple):
                    st.env[pid] = self.alloc(st, l[1])
                else:
                    st.env[pid] = l
            if this is not None:
                st.env["this"] = this
            cur = [st]
            for i in fn.get("inits", []):
                nxt = []
                for x in cur:
                    if "field" in i:
                        f = T("fld", this, i["field"])
                        fr = self.field_type(fn, i["field"])
                        if is_ref(fr):
                            for y, l in self.lv(x, i["init"]):
                                self.write(y, f, self.addr_of(y, l))
                                nxt.append(y)
                        else:
                            for y, v in self.ev(x, i["init"]):
                                self.write(y, f, v)
                                nxt.append(y)
                    elif i.get("delegate"):
                        for y, v in self.ev(x, i["init"]):
                            self.write(y, this, v)
                            nxt.append(y)
                    else:
                        for y, v in self.ev(x, i["init"]):
                            b = self.read(y, this)
                            if v.op == "struct" and b.op == "struct":
                                have = {n for n, _ in b.a[1]}
                                self.write(y, this, STRUCT(b.a[0], tuple(p for p in v.a[1] if p[0] not in have) + b.a[1]))
                            elif v.op in ("obj", "make", "call") and len(v.a) > (2 if v.op == "call" else 1):
                                # what a library base class is given
                                self.write(y, T("fld", this, "(base)"), v)
                            nxt.append(y)
                cur = nxt
            out = []
            for x in cur:
                out += self.stmt(x, fn["body"]) if fn.get("body") is not None else [(x, None)]
            res = []
            for x, c in out:
                rv = c[1] if isinstance(c, tuple) else UNIT
                res.append((x, ("ret", rv)))
            for x, _ in res:
                x.env = {}
            # forget the callee's locals unless they are still referenced
            for x, c in res:
                self.gc(x, c)
            for x, _ in res:
                x.env = dict(x.stack[-1])
                x.stack = x.stack[:-1]
                x.mark = saved_mark
            res = self.merge_ret(res)
            return [(x, c[1]) for x, c in res]
        finally:
            self.cur = saved_cur
            self.call_stack.pop()

    def merge_ret(self, res):
        if len(res) < 2:
            return res
        groups, order = {}, []
        for st, c in res:
            k = (frozenset(st.cells.items()), frozenset(st.store.items()), c)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(st)
        out = []
        for k in order:
            g = groups[k]
            if len(g) > 1:
                g = self.consensus(g)
            out += [(s, k[2]) for s in g]
        if len(out) > MAX_STATES:
            raise TooComplex("too many paths in %s" % (self.cur and self.cur["q"]))
        return out

    def field_type(self, fn, field):
        rec = self.prog.records.get(fn.get("cls", ""))
        if rec:
            for f in rec["fields"]:
                if f["n"] == field:
                    return f["t"]
        return ""

    def call_closure(self, st, clo, args, key=None):
        """Calls a closure with argument values/lvalues."""
        o = self.lambdas[clo.a[0]]
        op = None
        for f in o["ops"]:
            if key is not None and f["key"] == key:
                op = f
        if op is None:
            cands = [f for f in o["ops"] if len(f["params"]) == len(args)]
            op = cands[0] if cands else (o["ops"][0] if o["ops"] else None)
        if op is None:
            return [(st, T("opaque", "lambda"))]
        fn = {"key": op["key"], "q": "(lambda)", "file": o["file"], "body": op["body"], "rt": op.get("rt", ""),
              "params": op["params"]}
        bound = []
        for cid, l in clo.a[1]:
            bound.append((cid, ("val", l.a[0]) if l.op == "rv" and cid != "this" else l))
        this = None
        bound2 = []
        for cid, l in bound:
            if cid == "this":
                this = l
            else:
                bound2.append((cid, l))
        for p, a in zip(op["params"], args):
            self.vtype[p["id"]] = p["t"]
            if isinstance(a, tuple):
                bound2.append((p["id"], a))
            elif is_ref(p["t"]):
                if a.op == "rv":
                    v = a.a[0]
                    a = self.alloc(st, v) if v.op in ("struct", "cat", "closure", "list", "alias", "some", "upd", "pair") or is_const(v) else T("ext", v)
                bound2.append((p["id"], a))
            else:
                v = self.read(st, a)
                self.note_type(v, p["t"])
                bound2.append((p["id"], ("val", v)))
        if op["key"] in self.call_stack:
            # recursion through a closure
            vals = [a[1] if isinstance(a, tuple) else self.read(st, a) for a in args]
            vals = [v for v in vals if v.op != "closure"]
            vals = [v for v in vals if not (v.op == "addr" and self.read(st, v.a[0]).op == "closure")]
            how = self.recursive_summary(st, clo, op, fn)
            if how is not None:
                vals.append(how)
            self.recursion_touches(st, op["key"], vals, [a for a in args if not self.is_closure(st, a)])
            return [(st, T("recval", *vals))]
        self.rec_pc[op["key"]] = dict(st.pc)
        self.rec_done.pop(op["key"], None)
        return self.enter(st, fn, bound2, this)

    def recursive_summary(self, st, clo, op, fn):
        """What a closure that calls itself does for arbitrary arguments."""
        key = op["key"]
        if key in self.rec_done:
            return self.rec_done[key]
        self.rec_done[key] = None        # (seen from within itself)
        s = st.copy()
        s.pc = dict(self.rec_pc.get(key, {}))
        bound, this = [], None
        for cid, l in clo.a[1]:
            if cid == "this":
                this = l
            else:
                bound.append((cid, ("val", l.a[0]) if l.op == "rv" else l))
        i = 0
        for p in op["params"]:
            if "lambda" in p["t"] or "auto" in p["t"]:
                bound.append((p["id"], self.alloc(s, clo)))
                continue
            v = T("arg", i)
            i += 1
            bound.append((p["id"], T("ext", v) if is_ref(p["t"]) else ("val", v)))
            self.note_type(v, p["t"])
        return self.recursive_effects(s, fn, bound, this)

    def recursive_function(self, st, e, fn):
        """A helper calling itself; parameters that are only passed on are
        taken as what they are in the outermost call."""
        o, args = e[2], e[3]
        key = fn["key"]
        same = self.passed_on(fn)
        if same is None or key not in self.rec_bound or key == self.call_stack[0]:
            return None
        bound0, this = self.rec_bound[key]
        bound0 = dict(bound0)
        a = args[1:] if o.get("m") and len(args) > len(fn["params"]) else args
        out = []
        for x, bound in self.bind_args(st, a, fn["params"], o):
            vals = [l[1] if isinstance(l, tuple) else self.read(x, l) for p, l in bound if p not in same]
            vals = [self.strip_addr(x, v) for v in vals]
            if key not in self.rec_done:
                self.rec_done[key] = None
                s = x.copy()
                s.pc = dict(self.rec_pc.get(key, {}))
                b, i = [], 0
                for p in fn["params"]:
                    if p["id"] in same and p["id"] in bound0:
                        b.append((p["id"], bound0[p["id"]]))
                        continue
                    v = T("arg", i)
                    i += 1
                    b.append((p["id"], T("ext", v) if is_ref(p["t"]) else ("val", v)))
                    self.note_type(v, p["t"])
                self.recursive_effects(s, fn, b, this)
            how = self.rec_done[key]
            if how is not None:
                vals.append(how)
            self.recursion_touches(x, key, vals, [l for p, l in bound if p not in same])
            out.append((x, T("recval", *vals)))
        return out

    def is_closure(self, st, a):
        v = a[1] if isinstance(a, tuple) else self.read(st, a)
        return v.op == "closure" or (v.op == "addr" and self.read(st, v.a[0]).op == "closure")

    def recursion_touches(self, st, key, vals, args):
        """What a call to itself changes: what the function changes."""
        rec = T("recurse", *vals)
        for m in sorted(self.rec_touch.get(key, ()), key=str):
            if m[0] == "s":
                ob = m[1][0]
                while ob.op == "field":
                    ob = ob.a[0]
                if ob.op == "arg":
                    if ob.a[0] < len(args) and not isinstance(args[ob.a[0]], tuple) and args[ob.a[0]].op != "rv":
                        self.mutate(st, args[ob.a[0]], [rec])
                    continue
            v = self.get_loc(st, m)
            if v.op in ("alias", "cat") or v is EMPTY:
                self.set_loc(st, m, append(v, [rec]))
            else:
                self.set_loc(st, m, T("out", rec, v))

    def passed_on(self, fn):
        """The parameters a function calling itself passes on unchanged."""
        memo = self.prog.__dict__.setdefault("_passed_on", {})
        if fn["key"] not in memo:
            same = {p["id"] for p in fn["params"]}
            todo, ok = [fn.get("body")], True
            while todo:
                n = todo.pop()
                if isinstance(n, dict):
                    todo += n.values()
                elif isinstance(n, list):
                    if len(n) > 3 and n[0] == "call" and isinstance(n[2], dict) and n[2].get("key") == fn["key"]:
                        a = n[3]
                        if n[2].get("m") and len(a) > len(fn["params"]):
                            if not n[2].get("static") and a[0][0] != "this":
                                ok = False
                            a = a[1:]
                        for p, x in zip(fn["params"], a):
                            if not (x[0] == "ref" and x[2].get("id") == p["id"]):
                                same.discard(p["id"])
                    todo += n
            memo[fn["key"]] = same if ok else None
        return memo[fn["key"]]

    def recursive_effects(self, s, fn, bound, this):
        key = fn["key"]
        base = dict(s.pc)
        s0 = s.copy()
        self.quiet += 1
        stack = self.call_stack
        self.call_stack = [k for k in stack if k != key]
        self.rec_touch[key] = set()
        try:
            first = self.enter(s.copy(), fn, bound, this)
            self.rec_touch[key] = self.touched_by(s0, first)
            res = self.enter(s, fn, bound, this) if self.rec_touch[key] else first
        finally:
            self.quiet -= 1
            self.call_stack = stack
        self.rec_touch[key] = self.touched_by(s0, res)
        rows = [(self.new_pc(x, base), self.closure_leaf(s0, x, UNIT if v is None else self.strip_addr(x, v))) for x, v in res]
        r = T("self", build(self.theory, rows) if rows else UNIT)
        self.rec_done[key] = r
        return r

    @staticmethod
    def touched_by(s0, res):
        return {("c", n) for x, _ in res for n, w in x.cells.items() if n in s0.cells and s0.cells[n] is not w} | \
            {("s", k) for x, _ in res for k, w in x.store.items() if s0.store.get(k) is not w}

    def callable_value(self, st, v):
        while v.op == "addr":
            v = self.read(st, v.a[0])
        return v

    def apply(self, st, f, args):
        """Calls a callable value (closure or function)."""
        f = self.callable_value(st, f)
        if f.op == "closure":
            return self.call_closure(st, f, args)
        vals = [a[1] if isinstance(a, tuple) else self.read(st, a) for a in args]
        if f.op == "func":
            fn = self.prog.functions.get(f.a[0])
            if fn is not None and fn.get("body") is not None and not self.is_cut(fn) and fn["key"] not in self.call_stack:
                bound = []
                for p, a in zip(fn["params"], args):
                    if is_ref(p["t"]):
                        bound.append((p["id"], a if not isinstance(a, tuple) else self.alloc(st, a[1])))
                    else:
                        bound.append((p["id"], ("val", a[1] if isinstance(a, tuple) else self.read(st, a))))
                return self.enter(st, fn, bound)
            return [(st, T("call", f.a[1], (), *vals))]
        if f.op == "obj" and f.a[0] in self.prog.records:
            pass
        if f.op in ("struct", "make"):
            cls = f.a[0]
            for q in self.prog.by_q.get(cls + "::operator()", []):
                fn = self.prog.functions[q]
                if len(fn["params"]) == len(args):
                    pass
        vals = [self.strip_addr(st, v) for v in vals]
        r = T("apply", f, *vals)
        self.mutate(st, T("ext", T("effects")), [T("do", r)])
        return [(st, r)]

    def e_call(self, st, e):
        out = []
        rt = e[2].get("rt", "") or e[2].get("t", "")
        for x, v in self.call(st, e, want_lv=False):
            if v.op == "addr" and is_ref(rt):
                v = self.read(x, v.a[0])
            self.note_type(v, e[2].get("t", ""))
            out += self.split(x, v)
        return out

    def ret(self, rs, want_lv, ref=False):
        """Wraps values as lvalues if needed."""
        if not want_lv:
            return rs
        return [(x, v.a[0] if v.op == "addr" and ref else (T("ext", v) if ref else T("rv", v))) for x, v in rs]

    def call(self, st, e, want_lv):
        o, args = e[2], e[3]
        q = o["q"]
        self.sites += 1
        rt = o.get("rt", "")
        if o.get("noret") or q in ("llvm::llvm_unreachable_internal", "__assert_fail", "abort", "exit1"):
            if not self.quiet:
                (self.inloop if self.loop_stack else self.aborts).append((dict(st.pc), q))
            return []
        if q == "llvm::make_scope_exit" and len(args) == 1:
            return self.ret([(x, T("atexit", v)) for x, v in self.ev(st, args[0])], want_lv)
        from builtins_cpp import builtin
        r = builtin(self, st, e, want_lv)
        if r is not None:
            return r
        key = o.get("key")
        # call of a closure
        if o.get("lam") is not None or q == "std::function::operator()" or q in ("llvm::function_ref::operator()", "llvm::unique_function::operator()"):
            out = []
            for x, fl in self.lv(st, args[0]):
                f = self.callable_value(x, self.read(x, fl))
                for y, ls in self.lvs(x, args[1:]):
                    if f.op == "closure":
                        for z, v in self.call_closure(y, f, ls, key):
                            out.append((z, v))
                    else:
                        out += self.apply(y, f, ls)
            return self.ret(out, want_lv, is_lref(rt))
        fn = self.prog.functions.get(key) if key else None
        if fn is not None and not self.is_cut(fn) and (fn.get("body") is not None) and not self.unresolved_virtual(st, e, fn):
            return self.inline(st, e, fn, want_lv)
        if o.get("virt") and q not in self.cuts:
            return self.virtual(st, e, fn, want_lv)
        if fn is not None and q.endswith("::operator=") and len(args) == 2 and len(fn["params"]) == 1 and \
                strip_t(fn["params"][0]["t"]) == fn.get("cls"):
            from builtins_cpp import assign
            return assign(self, st, e, want_lv)
        return self.opaque(st, e, want_lv)

    def unresolved_virtual(self, st, e, fn):
        return bool(e[2].get("virt"))

    def virtual(self, st, e, fn, want_lv):
        """Virtual call: resolved only if the receiver's class is known."""
        o, args = e[2], e[3]
        key = o["key"]
        overr = self.prog.overriders.get(key, [])
        if fn is None and not overr:
            return self.opaque(st, e, want_lv)
        out = []
        for x, fl in self.lv(st, args[0]):
            v = self.read(x, fl)
            cls = None
            if v.op == "this" and self.dyn_class:
                cls = self.dyn_class
            elif v.op in ("make", "newobj", "struct"):
                cls = v.a[0]
            target = None
            if cls:
                meth = o["q"].split("::")[-1]
                for c in self.mro(cls):
                    for k in self.prog.by_q.get(c + "::" + meth, []):
                        if k == key or k in overr:
                            target = self.prog.functions[k]
                            break
                    if target:
                        break
            elif fn is not None and not overr:
                target = fn
            if target is not None and not self.is_cut(target) and target.get("body") is not None:
                for y, bound in self.bind_args(x, args[1:], target["params"], o):
                    out += [(z, v2) for z, v2 in self.enter2(y, target, bound, fl, e)]
            else:
                out += self.opaque(x, e, False)
        return self.ret(out, want_lv, is_lref(o.get("rt", "")))

    def mro(self, cls):
        out = [cls]
        for b in self.prog.bases.get(cls, []):
            for c in self.mro(b):
                if c not in out:
                    out.append(c)
        return out

    def enter2(self, st, fn, bound, this, e):
        if fn["key"] in self.call_stack:
            return self.opaque(st, e, False)
        return self.enter(st, fn, bound, this)

    def inline(self, st, e, fn, want_lv):
        o, args = e[2], e[3]
        rt = o.get("rt", "")
        if fn["key"] in self.call_stack:
            r = self.recursive_function(st, e, fn)
            if r is not None:
                return self.ret(r, want_lv, is_lref(rt))
            return self.opaque(st, e, want_lv, rec=True)
        out = []
        if o.get("m") and not o.get("static"):
            # receiver: a pointer (->) or an object
            for x, fl in self.receiver(st, args[0], o):
                for y, bound in self.bind_args(x, args[1:], fn["params"], o):
                    self.outermost(y, fn, bound, fl)
                    out += self.enter(y, fn, bound, fl)
        else:
            a = args[1:] if o.get("m") and o.get("static") and len(args) > len(fn["params"]) else args
            for x, bound in self.bind_args(st, a, fn["params"], o):
                self.outermost(x, fn, bound, None)
                out += self.enter(x, fn, bound)
        return self.ret(out, want_lv, is_lref(rt))

    def outermost(self, st, fn, bound, this):
        """(recorded for functions that call themselves)"""
        key = fn["key"]
        self.rec_bound[key] = (list(bound), this)
        self.rec_pc[key] = dict(st.pc)
        self.rec_done.pop(key, None)

    def receiver(self, st, node, o):
        t = o.get("ot", "")
        if is_ptr(t):
            return [(x, self.deref(v)) for x, v in self.ev(st, node)]
        out = []
        for x, l in self.lv(st, node):
            if l.op == "rv":
                v = l.a[0]
                l = self.alloc(x, v) if v.op in ("struct", "cat", "upd", "some", "pair") else T("ext", v)
            else:
                v = self.read(x, l)
                if v.op == "addr":
                    l = v.a[0]
            out.append((x, l))
        return out

    def opaque(self, st, e, want_lv, rec=False):
        """External (or deliberately uninterpreted) function."""
        o, args = e[2], e[3]
        q = o["q"]
        rt = o.get("rt", "")
        pts = o.get("pt", [])
        method = o.get("m") and not o.get("static")
        out = []
        if o.get("m") and o.get("static") and len(args) > len(pts):
            args = args[1:]
        off = 1 if method else 0
        for x, ls in self.lvs(st, args):
            vals = []
            for i, l in enumerate(ls):
                v = self.read(x, l)
                if i >= off and i - off < len(pts) and is_bool_t(pts[i - off]) and not is_const(v):
                    pass
                vals.append(v)
            if method and is_ptr(o.get("ot", "")) and vals and vals[0].op not in CONST_SKIP and vals[0].op not in ("addr", "closure"):
                # the result depends on the current state of the receiver
                vals[0] = x.store.get((self.norm_obj(vals[0]), "@"), vals[0])
            # closures passed to unknown code
            touched = {}
            vals = [self.closure_summary(x, v, touched=touched) if v.op == "closure" else self.function_summary(x, v) if v.op == "func" else v for v in vals]
            vals = [self.strip_addr(x, v) for v in vals]
            vals = [self.norm_obj(v) if v.op == "dyn" else v for v in vals]
            # static return types / name based normalisation
            name = q.split("::")[-1]
            if name in CONTEXT_Q and not vals[1:]:
                out.append((x, T(CONTEXT_Q[name])))
                continue
            ta = tuple(o.get("ta", [])[:1]) if name in ("getAs", "castAs", "get", "getAttr", "hasAttr", "specific_attrs", "specific_decls", "getAsAdjusted", "holds_alternative", "find_if1") else ()
            mm = ITER_PAIR.match(q)
            if mm and len(vals) == 1:
                cn = ITER_NAME.get(mm.group(2))
                if cn:
                    out.append((x, T("iter", T("call", mm.group(1) + "::" + cn, (), *vals), mm.group(3))))
                    continue
            if name == "specific_attrs" and len(vals) == 1 and o.get("ta"):
                out.append((x, T("isafilter", T("call", "clang::Decl::attrs", (), *vals), base_name(o["ta"][0]))))
                continue
            # output arguments
            mutated = []
            kept = set()        # objects from outside: part of the call as well
            for i, l in enumerate(ls):
                if i < off:
                    continue
                pt = pts[i - off] if i - off < len(pts) else ""
                tgt = l
                vv = self.read(x, l)
                if (is_lref(pt) and not const_target(pt)) or (is_lref(pt) and is_stream_t(pt)):
                    if is_stream_t(pt) or is_container_t(pt) or vv.op in ("alias", "cat", "uninit") or tgt.op in ("loc", "fld"):
                        mutated.append((i, tgt))
                    elif o.get("repo"):
                        mutated.append((i, tgt))
                        kept.add(i)
                elif is_ptr(pt) and not const_target(pt) and vv.op == "addr":
                    mutated.append((i, vv.a[0]))
            muti = {i for i, _ in mutated}
            reads = fields_read(self.prog, o.get("key"))
            vals = [self.having(x, v, reads) if i not in muti or i in kept else v for i, v in enumerate(vals)]
            if q in IDEMPOTENT and vals[0].op == "cat":
                vals[0] = mkcat(vals[0].a[0], [p for p in vals[0].a[1:] if not commutes(p)])
            eargs = tuple(v for i, v in enumerate(vals) if i not in muti or i in kept)
            if o.get("repo") and not ta:
                ta = self.overload(q, pts)
            call = T("call", ("rec:" if rec else "") + q, ta, *eargs)
            if o.get("repo") and not q.endswith("::supports") and o.get("key") in reporting(self.prog):
                self.mutate(x, T("ext", DIAG), [T("emit", call)])
            for i, tgt in mutated:
                cur = self.read(x, tgt)
                if cur.op == "alias" or is_stream_t(pts[i - off]) or cur.op == "cat" or cur is EMPTY or is_container_t(pts[i - off]):
                    self.mutate(x, tgt, [T("emit", call)])
                else:
                    self.write(x, tgt, T("out", call, i, cur))
            for m, tree in touched.items():
                cur = self.get_loc(x, m)
                if cur.op in ("alias", "cat") or cur is EMPTY:
                    self.set_loc(x, m, append(cur, [T("emit", call, tree)]))
                else:
                    self.set_loc(x, m, T("out", call, tree, cur))
            recv_mut = False
            if method:
                recv_mut = self.method_effect(x, ls[0], vals, o, call, q)
                if o.get("const") and strip_t(rt) == "void" and not o.get("repo") and not mutated and not touched:
                    # nothing to return and nothing to change: it acts on the outside
                    self.mutate(x, T("ext", T("effects")), [T("do", call)])
            elif not mutated and (strip_t(rt) == "void" or FREE_EFFECTS.search(q)):
                self.mutate(x, T("ext", T("effects")), [T("do", call)])
            res = call
            if is_bool_t(rt):
                res = T("p", call)
                # boolean results become atoms when tested
                out.append((x, res if not is_const(res) else res))
                continue
            out.append((x, res))
        return self.ret(out, want_lv, is_lref(rt))

    def having(self, st, v, reads):
        """An object from outside handed to other code, with what has become of its members."""
        if v.op not in ("this", "param", "field"):
            return v
        ch = []
        for (ob, f), w in st.store.items():
            if f != "@" and ob is v and w.op != "same" and w is not T("field", v, f):
                n = f
            elif f == "@" and ob.op == "field" and ob.a[0] is v and w is not ob and w is not T("alias", ob):
                n = ob.a[1]
            else:
                continue
            if reads is None or n.split("::")[-1] in reads:
                ch.append((n, self.resolve(st, w)))
        if not ch:
            return v
        ch.sort(key=lambda c: c[0])
        return T("having", v, tuple(n for n, _ in ch), *[w for _, w in ch])

    def overload(self, q, pts):
        """Parameter types, if needed to tell overloaded functions apart."""
        ks = self.prog.by_q.get(q, ())
        if len(ks) < 2 or "operator" in q or "GraphTraits" in q:
            return ()
        fs = [self.prog.functions[k] for k in ks]
        if any(f.get("ta") for f in fs) or len({len(f["params"]) for f in fs}) == len(fs) or all(not f["params"] for f in fs):
            return ()
        return tuple(base_name(t) for t in pts)

    def strip_addr(self, st, v):
        n = 0
        while v.op == "addr" and n < 5:
            v = self.read(st, v.a[0])
            n += 1
        return v

    def closure_touches(self, s0, st, res, touched):
        """The locations outside of a closure that calling it changes, and how."""
        for x, _ in res:
            ms = [("c", n) for n, w in x.cells.items() if n in s0.cells and s0.cells[n] is not w]
            ms += [("s", k) for k, w in x.store.items() if s0.store.get(k) is not w]
            for m in ms:
                if m not in touched:
                    touched[m] = build(self.theory, [
                        (self.new_pc(y, st.pc), T("same") if self.get_loc(y, m) is self.get_loc(s0, m) else
                         self.resolve(y, changed_by(self.get_loc(s0, m), self.get_loc(y, m)))) for y, _ in res])

    def closure_summary(self, st, clo, nargs=None, touched=None):
        """Effect-free description of a closure handed to unknown code."""
        o = self.lambdas[clo.a[0]]
        if not o["ops"] or o["ops"][0]["key"] in self.call_stack:
            return T("fn")
        op = o["ops"][0]
        s = st.copy()
        base = s.pc
        args = []
        for i, p in enumerate(op["params"]):
            v = T("arg", i)
            args.append(T("ext", v))
        s0 = s.copy()
        self.quiet += 1
        try:
            res = self.call_closure(s, clo, args)
        except TooComplex:
            return T("fn")
        finally:
            self.quiet -= 1
        rows = []
        if touched is not None:
            self.closure_touches(s0, st, res, touched)
        for x, v in res:
            v2 = self.strip_addr(x, v)
            if is_bool_t(op.get("rt", "")):
                for y, b in self.truth(x, v2, "bool"):
                    rows.append((self.new_pc(y, st.pc), self.closure_leaf(s0, y, BOOL(b))))
            else:
                rows.append((self.new_pc(x, st.pc), self.closure_leaf(s0, x, v2)))
        return T("fn", build(self.theory, rows) if rows else UNIT)

    def function_summary(self, st, f):
        """A function handed to unknown code is what a closure that calls it is."""
        c = self.funcs.get(f.a[0])
        if not c or not c.get("pt") or any(is_ref(t) or is_ptr(t) for t in c["pt"]):
            return f
        s = st.copy()
        self.quiet += 1
        try:
            res = self.apply(s, f, [("val", T("arg", i)) for i in range(len(c["pt"]))])
        except TooComplex:
            return f
        finally:
            self.quiet -= 1
        rows = []
        for x, v in res:
            v = self.strip_addr(x, v)
            if is_bool_t(c.get("rt", "")):
                rows += [(self.new_pc(y, st.pc), self.closure_leaf(st, y, BOOL(b))) for y, b in self.truth(x, v, "bool")]
            else:
                rows.append((self.new_pc(x, st.pc), self.closure_leaf(st, x, v)))
        return T("fn", build(self.theory, rows) if rows else UNIT)

    def closure_leaf(self, s0, x, v):
        eff = []

        def change(old, w):
            return changed_by(old, w)
        for n, w in x.cells.items():
            if n in s0.cells and s0.cells[n] is not w:
                eff.append(self.resolve(x, change(s0.cells[n], w)))
        for k, w in x.store.items():
            if s0.store.get(k) is not w:
                eff.append(T("w", k[0], k[1], self.resolve(x, change(s0.store.get(k), w))))
        eff.sort(key=lambda t: t.d)
        return T("res", v, *eff) if eff else v

    def acting(self, cls):
        """May methods of the class change objects outside of it?"""
        r = self._acting.get(cls)
        if r is None:
            self._acting[cls] = False
            rec = self.prog.records.get(cls)
            r = rec is None
            for f in rec["fields"] if rec else ():
                t = f["t"].strip()
                if is_ref(t) or is_ptr(t):
                    r = r or not t.startswith("const ") and not base_name(t).startswith("std::")
                elif base_name(t) in self.prog.records:
                    r = r or self.acting(base_name(t))
            for b in self.prog.bases.get(cls, []):
                r = r or b in self.prog.records and self.acting(b)
            self._acting[cls] = r
        return r

    def method_effect(self, st, l, vals, o, call, q):
        """Effects of external non-const methods on their receiver."""
        rt = strip_t(o.get("rt", ""))
        if o.get("const"):
            return False
        cls = "::".join(q.split("::")[:-1])
        name = q.split("::")[-1]
        if re.search(EFFECT_METHODS, q) or rt == "void" or (o.get("repo") and not o.get("static")):
            ot = o.get("ot", "")
            tgt = l
            v = self.read(st, l)
            if v.op == "addr":
                tgt = v.a[0]
            elif is_ptr(ot):
                tgt = T("ext", v)
            elif l.op == "rv":
                tgt = T("ext", v)
            c = T("do", T("call", q, (), *vals[1:]))
            local = l.op == "rv" and v.op in ("make", "struct") or self.root(tgt).op == "loc"
            if o.get("repo") and local and self.acting(cls):
                # a local object may act on others it knows
                if q in IDEMPOTENT and v.op == "cat":
                    v = mkcat(v.a[0], [p for p in v.a[1:] if not commutes(p)])
                self.mutate(st, T("ext", T("effects")), [T("do", T("call", q, (), self.anonymous(st, self.resolve(st, v)), *vals[1:]))])
                if l.op == "rv":
                    return True
            self.mutate(st, tgt, [c])
            if tgt.op == "ext":
                for (ob, f) in list(st.store):
                    if f == "@" and ob.op == "field" and ob.a[0] is tgt.a[0]:
                        self.mutate(st, T("ext", ob), [T("via", c)])
            return True
        return False

    # ------------------------------------------------ roots
    def run_root(self, fn, this_cls=None, pre=None):
        """Summary of a function: [(constraints, {channel: value})]."""
        st = State()
        self.call_stack = []
        self.loop_stack = []
        self.inloop = []
        self.fresh = {}
        self.stale = set()
        self.dyn_class = this_cls
        bound = []
        for i, p in enumerate(fn["params"]):
            v = T("param", i)
            self.vtype[p["id"]] = p["t"]
            b = strip_t(p["t"])
            if b in self.prog.bases:
                self.theory.stype[v] = b
            if is_ref(p["t"]):
                bound.append((p["id"], T("ext", v)))
            else:
                bound.append((p["id"], ("val", v)))
        this = None
        ctor = fn["q"].endswith("(ctor)")
        if fn.get("cls") and not fn.get("static"):
            if ctor:
                rec = self.prog.records.get(fn["cls"])
                fs = tuple((f["n"], self.default_value(st, f["t"])) for f in rec["fields"]) if rec else ()
                this = self.alloc(st, STRUCT(fn["cls"], fs))
                st.env["keep"] = this
            else:
                this = T("ext", T("this"))
                if this_cls:
                    self.theory.stype[T("this")] = this_cls
        res = self.enter(st, fn, bound, this)
        rows = []
        for x, rv in res:
            if ctor:
                rv = self.read(x, this)
            rows += self.outcome(x, rv, fn)
        self.paths += len(rows)
        return rows

    def outcome(self, st, rv, fn):
        out = []
        cur = []
        rv = self.strip_addr(st, rv)
        if is_bool_t(fn.get("rt", "")):
            cur = [(x, BOOL(b)) for x, b in self.truth(st, rv, "bool")]
        else:
            cur = self.split(st, rv)
        for x, v in cur:
            ch = {}
            v = self.resolve(x, v)
            if is_string_t(fn.get("rt", "")) and x.pc.get(T("lt", mk_size(v), 1)):
                v = EMPTYSTR
            if fn.get("rt", "void") != "void" or fn["q"].endswith("(ctor)"):
                ch["return"] = v
            for (o, f), w in x.store.items():
                w = self.resolve(x, w)
                if w is (o if f == "@" else T("field", o, f)):
                    continue
                if f != "@" and w in (TRUE, FALSE) and x.pc.get(T("p", T("field", o, f)), x.pc.get(T("field", o, f))) is (w is TRUE):
                    continue    # the value it had
                ch[(self.anonymous(x, o), f)] = w
            pc = {}
            for a, b in x.pc.items():
                a2 = self.anonymous(x, a)
                pc[a if pc.get(a2, b) != b else a2] = b
            out.append((pc, ch))
        return out

    def anonymous(self, st, v):
        """Names local objects by what they are, not by their number."""
        if not locs_of(v):
            return v

        def what(t, depth=0):
            w = self.read(st, t)
            while w.op in ("cat", "upd"):
                w = w.a[0]
            if depth > 3 or not locs_of(w):
                return w
            return subst(w, {a: what(a.a[0], depth + 1) for a in find_ops(w, {"addr"})})
        return subst(v, {t: T("local", what(t.a[0])) for t in find_ops(v, {"addr"})})

    def resolve(self, st, v):
        """Replaces references to local cells by their contents."""
        seen = 0
        while locs_of(v) and seen < 6:
            m = {}
            for t in find_ops(v, {"addr", "closure"}):
                if t.op == "addr":
                    m[t] = self.read(st, t.a[0])
                else:
                    m[t] = T("lambda", *[T("fn")])
            if not m:
                break
            v = subst(v, m)
            seen += 1
        return v


GUARDS = {"llvm::SaveAndRestore", "llvm::detail::scope_exit", "llvm::scope_exit"}


def const_target(t):
    """Whether what a pointer or reference type refers to directly is const."""
    t = t.strip()
    if t.endswith(" const"):
        t = t[:-6].strip()
    t = t[:-1].strip() if t[-1:] in "*&" else t
    return t.endswith("const") if t.endswith(("*", "const")) else t.startswith("const ")


def fields_read(prog, key):
    """The members (by name) that a function of the repository can look at; None if unknown."""
    if key not in prog.functions or prog.functions[key].get("body") is None:
        return None
    memo = prog.__dict__.setdefault("_fields_read", {})
    if key not in memo:
        seen, todo, names = {key}, [key], set()
        while todo:
            f = prog.functions[todo.pop()]
            nodes = [f.get("body"), f.get("inits")]
            while nodes:
                n = nodes.pop()
                if isinstance(n, dict):
                    ks = [n["key"]] if "key" in n and "q" in n else []
                    for k in ks + list(prog.overriders.get(ks[0], [])) if ks else []:
                        if k in prog.functions and k not in seen:
                            seen.add(k)
                            todo.append(k)
                    nodes += n.values()
                elif isinstance(n, list):
                    if len(n) > 3 and n[0] == "member" and isinstance(n[3], str):
                        names.add(n[3].split("::")[-1])
                    nodes += n
        memo[key] = names
    return memo[key]


def reporting(prog):
    """Functions of the repository that may report a diagnostic."""
    r = prog.__dict__.get("_reporting")
    if r is None:
        calls, r = {}, set()
        for k, f in prog.functions.items():
            ks, todo = set(), [f.get("body"), f.get("inits")]
            while todo:
                n = todo.pop()
                if isinstance(n, dict):
                    if "key" in n and "q" in n:
                        ks.add(n["key"])
                        if n["q"] in ("clang::DiagnosticsEngine::Report", "clang::Decl::dump"):
                            r.add(k)
                    todo += n.values()
                elif isinstance(n, list):
                    todo += n
            calls[k] = ks
        while True:
            more = {k for k, ks in calls.items() if k not in r and ks & r}
            more = {k for k in more if not prog.functions[k]["q"].endswith("::supports")}
            if not more:
                break
            r |= more
        prog.__dict__["_reporting"] = r
    return r


# external functions that change the state of their receiver although they
# return a value (all other non-void external methods are taken as queries)
EFFECT_METHODS = re.compile(
    r"^clang::Sema::(?!get|is|has|Lookup|lookup|runWith)|^clang::(Preprocessor)?Lexer::(Lex|set)|^clang::Preprocessor::(Handle|Add|Remove|Lex)|"
    r"^clang::CompilerInstance::(create|set)|^clang::tooling::ClangTool::(run|append)|^clang::tooling::.*::create$|"
    r"^clang::RecursiveASTVisitor::Traverse|^clang::TextTreeStructure::Add")

FREE_EFFECTS = re.compile(r"^PyErr_|^_?Py_(INC|DEC)REF|^(std::)?(setenv|unsetenv|putenv|remove|rename|system|unlink|fputs|puts|printf|fprintf|fopen)$|"
                          r"^llvm::sys::fs::(remove|rename|create|copy|resize|set|open)|^llvm::sys::(ExecuteAndWait|Execute|RemoveFileOnSignal|DontRemoveFileOnSignal)")

ITER_PAIR = re.compile(r"^(clang::\w+)::(\w+?)_(begin|end)$")
ITER_NAME = {"param": "parameters", "decls": "decls", "bases": "bases", "vbases": "vbases", "method": "methods",
             "field": "fields", "ctor": "ctors", "spec": "specializations", "attr": "attrs", "enumerator": "enumerators",
             "redecls": "redecls", "arg": "arguments", "capture": "captures", "shadow": "shadows",
             "noload_decls": "noload_decls", "friend": "friends", "args": "arguments"}

CONST_SKIP = {"bool", "null", "none", "str", "int", "char", "enum", "unit", "uninit", "empty"}

_subterms = {}


def subterms(t):
    out = set()

    def rec(x):
        if isinstance(x, Term):
            if x in out:
                return
            out.add(x)
            for y in x.a:
                rec(y)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    rec(t)
    return out


def has_elem(v, coll):
    return any((t.op in ("elem", "idx") and t.a[0] is coll) for t in find_ops(v, {"elem", "idx"})) or \
        any(coll.op == "enumerate" and t.a[0] is coll.a[0] for t in find_ops(v, {"elem", "idx"}))


def mentions_phi(v, coll):
    return any(t.a[0] is coll for t in find_ops(v, {"phi"}))


def is_append(v, cur, ph):
    """v extends the placeholder cur by pieces that do not mention it."""
    if v is cur or v is ph:
        return True
    if v.op != "cat":
        return False
    base = cur.a[0] if cur.op == "cat" else cur
    if v.a[0] is not base:
        return False
    rest = v.a[1:] if cur.op != "cat" else v.a[len(cur.a):]
    if cur.op == "cat" and v.a[:len(cur.a)] != cur.a:
        return False
    return not any(ph in find_ops(p, {"phi"}) for p in rest)


def app_pieces(v, cur, ph):
    if v is cur or v is ph:
        return []
    return list(v.a[len(cur.a):]) if cur.op == "cat" else list(v.a[1:])


def has_continue(node):
    """continue statements that belong to the enclosing loop"""
    if isinstance(node, list):
        if node and node[0] == "continue":
            return True
        if node and node[0] in ("for", "while", "do", "rangefor", "lambda"):
            return False
        return any(has_continue(c) for c in node if isinstance(c, list))
    return False


def assigns(node, var):
    """Does the statement assign to (or take the address of) a variable?"""
    if isinstance(node, list):
        if len(node) > 2 and node[0] == "assign" and node[3][0] == "ref" and node[3][2]["id"] == var:
            return True
        if len(node) > 3 and node[0] == "un" and node[2] in ("++", "--", "&") and node[3][0] == "ref" and node[3][2]["id"] == var:
            return True
        if len(node) > 3 and node[0] == "call" and isinstance(node[2], dict) and node[2].get("op") in ("++", "--", "=", "+=") and node[3] and node[3][0][0] == "ref" and node[3][0][2]["id"] == var:
            return True
        if len(node) > 3 and node[0] == "call" and isinstance(node[2], dict) and node[2].get("m") and not node[2].get("const") and node[3] and node[3][0][0] == "ref" and node[3][0][2]["id"] == var and not node[2].get("op"):
            return True
        return any(assigns(c, var) for c in node)
    if isinstance(node, dict):
        return any(assigns(c, var) for c in node.values() if isinstance(c, (list, dict)))
    return False
