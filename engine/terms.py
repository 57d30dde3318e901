"""Hash-consed terms, path constraints and canonical decision trees."""
import hashlib

_tab = {}


class Term:
    __slots__ = ("op", "a", "d", "_fv")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        h = hashlib.blake2b(digest_size=12)
        h.update(op.encode())
        for x in a:
            _feed(h, x)
        self.d = h.hexdigest()
        self._fv = None

    def __repr__(self):
        return show(self)


def _feed(h, x):
    if isinstance(x, Term):
        h.update(b"T" + x.d.encode())
    elif isinstance(x, tuple):
        h.update(b"(")
        for y in x:
            _feed(h, y)
        h.update(b")")
    else:
        h.update(type(x).__name__.encode() + repr(x).encode() + b";")


def _k(x):
    # 1 == True in Python: keep them apart in the intern table
    if isinstance(x, tuple):
        return tuple(_k(y) for y in x)
    if isinstance(x, bool):
        return ("b", x)
    return x


def T(op, *a):
    k = (op, _k(a))
    t = _tab.get(k)
    if t is None:
        t = Term(op, a)
        _tab[k] = t
    return t


TRUE = T("bool", True)
FALSE = T("bool", False)
NULL = T("null")
NONE = T("none")
EMPTYSTR = T("str", "")
UNIT = T("unit")
CONST_OPS = {"bool", "null", "none", "str", "int", "char", "enum", "unit"}


def INT(v):
    return T("int", int(v))


def STR(s):
    return T("str", s)


def STRUCT(name, fields):
    """A record value; the order of its fields carries no meaning."""
    return T("struct", name, tuple(sorted(fields, key=lambda p: p[0])))


def BOOL(b):
    return TRUE if b else FALSE


def is_const(t):
    return t.op in CONST_OPS


# ---------------------------------------------------------------- theory
def _mask(f):
    return sum(1 << c for c in range(256) if f(chr(c) if c < 128 else None))


_W = _mask(lambda c: c is not None and (c.isalpha() or c == "_"))
_D = _mask(lambda c: c is not None and c.isdigit())
CHAR_CLASSES = {
    "clang::isDigit": _D, "isdigit": _D, "std::isdigit": _D, "llvm::isDigit": _D,
    "clang::isAsciiIdentifierStart": _W, "clang::isAsciiIdentifierContinue": _W | _D,
    "clang::isHorizontalWhitespace": _mask(lambda c: c is not None and c in " \t\f\v"),
    "clang::isVerticalWhitespace": _mask(lambda c: c is not None and c in "\r\n"),
    "clang::isWhitespace": _mask(lambda c: c is not None and c in " \t\f\v\r\n"),
    "clang::isLetter": _mask(lambda c: c is not None and c.isalpha()), "llvm::isAlpha": _mask(lambda c: c is not None and c.isalpha()),
    "clang::isAlphanumeric": _mask(lambda c: c is not None and c.isalnum()), "llvm::isAlnum": _mask(lambda c: c is not None and c.isalnum()),
    "clang::isLowercase": _mask(lambda c: c is not None and c.islower()), "clang::isUppercase": _mask(lambda c: c is not None and c.isupper()),
}
_ALLCHARS = (1 << 256) - 1


def char_class(a):
    """(character, set of values for which the atom holds, certain)."""
    if a.op == "eqc" and a.a[1].op == "char":
        c = a.a[1].a[0]
        return a.a[0], 1 << ((ord(c) if isinstance(c, str) else c) & 255), True
    if a.op == "lt" and isinstance(a.a[1], int) and -128 <= a.a[1] <= 128:
        return a.a[0], sum(1 << (v & 255) for v in range(-128, a.a[1])), False
    if a.op == "p" and a.a[0].op == "call" and a.a[0].a[0] in CHAR_CLASSES and len(a.a[0].a) >= 3:
        c = a.a[0]
        if len(c.a) > 3 and not (c.a[3].op == "bool" and c.a[3].a[0] is False):
            return None
        return c.a[2], CHAR_CLASSES[c.a[0]], True
    return None


_char_memo = {}


def char_class_of(a):
    r = _char_memo.get(a, 0)
    if r == 0:
        r = _char_memo[a] = char_class(a)
    return r


def nonnull_call(x):
    return x.op == "call" and x.a[0].endswith(("::getTranslationUnitDecl", "::getCanonicalDecl", "::getFirstDecl", "::getMostRecentDecl",
                                               "::getPrimaryContext", "::getRedeclContext"))


NONNULL = set()         # values known to refer to something


class Theory:
    """Relations between atoms that every path has to respect."""

    def __init__(self, prog):
        self.bases = prog.bases
        self.enums = prog.enums
        self._anc = {}
        self._desc = None
        self._excl = {}
        self.stype = {}
        self.unsigned = set()

    def ancestors(self, c):
        r = self._anc.get(c)
        if r is None:
            r = {c}
            self._anc[c] = r
            for b in self.bases.get(c, []):
                r |= self.ancestors(b)
        return r

    def exclusive(self, a, b):
        k = (a, b)
        r = self._excl.get(k)
        if r is None:
            if self._desc is None:
                self._desc = {}
                for c in list(self.bases):
                    for x in self.ancestors(c):
                        self._desc.setdefault(x, set()).add(c)
            da = self._desc.get(a, {a})
            db = self._desc.get(b, {b})
            r = not (da & db) and a in self.bases and b in self.bases
            self._excl[k] = r
        return r

    def implied(self, pc, atom):
        r = pc.get(atom)
        if r is not None:
            return r
        op = atom.op
        k = char_class_of(atom)
        if k is not None:
            x, mask, sure = k
            cur, n = _ALLCHARS, 0
            for b, v in pc.items():
                kb = char_class_of(b)
                if kb is not None and kb[0] is x:
                    cur &= kb[1] if v else ~kb[1]
                    sure = sure or kb[2]
                    n += 1
            if sure and n:
                if not cur & mask:
                    return False
                if not cur & ~mask:
                    return True
            if op == "p" or op == "eqc":
                return None
        if op == "isa":
            x, t = atom.a
            s = self.stype.get(x)
            if s is not None:
                if t in self.ancestors(s):
                    return True
                if self.exclusive(s, t):
                    return False
            for b, v in pc.items():
                if b.op == "isa" and b.a[0] is x:
                    u = b.a[1]
                    if v:
                        if t in self.ancestors(u):
                            return True
                        if self.exclusive(u, t):
                            return False
                    elif u in self.ancestors(t):
                        return False
                elif b.op == "nonnull" and b.a[0] is x and not v:
                    return False
            return None
        if op == "eqc":
            x, c = atom.a
            n = 0
            for b, v in pc.items():
                if b.op == "eqc" and b.a[0] is x:
                    if v:
                        return b.a[1] is c
                    n += 1
                elif b.op == "lt" and v and c.op == "str" and b.a[0].op == "size" and b.a[0].a[0] is x and b.a[1] <= len(c.a[0].encode()):
                    return False
            if c.op == "enum":
                dom = self.enums.get(c.a[0])
                if dom and n >= len({v for _, v in dom}) - 1:
                    return True
            return None
        if op == "lt":
            x, k = atom.a
            if k <= 0 and (x.op in ("size", "idx", "count") or x in self.unsigned):
                return False
            for b, v in pc.items():
                if b.op == "lt" and b.a[0] is x:
                    if v and b.a[1] <= k:
                        return True
                    if not v and b.a[1] >= k:
                        return False
                elif v and b.op == "eqc" and x.op == "size" and b.a[0] is x.a[0] and b.a[1].op == "str":
                    return len(b.a[1].a[0].encode()) < k
                elif v and b.op == "any" and x.op == "size" and b.a[0] is x.a[0] and k <= 1:
                    return False
                elif v and b.op == "contains" and x.op == "size" and b.a[0] is x.a[0] and k <= 1:
                    return False
            return None
        if op == "nonnull":
            x = atom.a[0]
            if x.op == "pathat" or x in NONNULL or nonnull_call(x):
                return True
            if x.op == "elem" and x.a[0].op == "field" and x.a[0].a[1].endswith("::lookup_contexts"):
                return True
            for b, v in pc.items():
                if v and b.op == "isa" and b.a[0] is x:
                    return True
                if v and b.op == "eq" and (b.a[0] is x and nonnull_call(b.a[1]) or b.a[1] is x and nonnull_call(b.a[0])):
                    return True
            return None
        if op == "any":
            x = atom.a[0]
            for b, v in pc.items():
                if v and b.op == "lt" and b.a[0].op == "size" and b.a[0].a[0] is x and b.a[1] <= 1:
                    return False
            return None
        if op == "contains":
            x = atom.a[0]
            for b, v in pc.items():
                if v and b.op == "lt" and b.a[0].op == "size" and b.a[0].a[0] is x and b.a[1] <= 1:
                    return False
            return None
        return None

    def compatible(self, pc, cons):
        """May a path with constraints `cons` be taken under `pc`?"""
        for a, v in cons.items():
            r = self.implied(pc, a)
            if r is not None and r != v:
                return False
        return True


class TooComplex(Exception):
    pass


def readded(atom, hi, lo):
    """Adding what a set contains changes nothing: the set with the element
    added stands for both cases."""
    c, k = atom.a
    if lo.op != "cat":
        return False
    if hi is c:
        return lo.a == (c.a if c.op == "cat" else (c,)) + (T("add", k),)
    n = len(c.a) if c.op == "cat" else 1
    if hi.op != "cat" or len(lo.a) != len(hi.a) + 1 or hi.a[:n] != (c.a if c.op == "cat" else (c,)):
        return False
    return lo.a[n] is T("add", k) and lo.a[:n] == hi.a[:n] and lo.a[n + 1:] == hi.a[n:]


def build(theory, paths, limit=200000):
    """Canonical decision tree for [(constraints, leaf)]."""
    budget = [limit]
    memo = {}

    def rec(ps, assigned):
        budget[0] -= 1
        if budget[0] < 0:
            raise TooComplex("decision tree too large")
        first = ps[0][1]
        if all(p[1] is first for p in ps):
            return first
        # atoms still open on any path
        best = None
        for cons, _ in ps:
            for a in cons:
                if a not in assigned and (best is None or a.d < best.d):
                    best = a
        if best is None:
            # contradictory leaves for one valuation: keep all of them
            leaves = sorted({p[1] for p in ps}, key=lambda t: t.d)
            return T("amb", *leaves)
        r = theory.implied(assigned, best)
        res = []
        for v in ((True, False) if r is None else (r,)):
            asg = dict(assigned)
            asg[best] = v
            sub = []
            for p in ps:
                x = p[0].get(best)
                if x is not None:
                    if x == v:
                        sub.append(p)
                    continue
                sub.append(p)
            # drop the paths that the theory rules out
            sub2 = []
            for p in sub:
                ok = True
                for a, val in p[0].items():
                    if a in asg:
                        if asg[a] != val:
                            ok = False
                            break
                        continue
                    i = theory.implied(asg, a)
                    if i is not None and i != val:
                        ok = False
                        break
                if ok:
                    sub2.append(p)
            res.append(rec(sub2, asg) if sub2 else None)
        if len(res) == 1:
            return res[0] if res[0] is not None else first
        hi, lo = res
        if hi is None:
            return lo
        if lo is None:
            return hi
        if best.op == "contains" and readded(best, hi, lo):
            return lo
        if hi is lo:
            return hi
        return T("br", best, hi, lo)

    if not paths:
        return T("nopath")
    return rec(paths, {})


MAX_ROWS = 50000


def tree_paths(tree, limit=None, keep=False):
    """Rows (constraints, leaf) of a decision tree."""
    out = []
    top = limit or MAX_ROWS

    def rec(t, cons):
        if t.op == "br":
            c = dict(cons)
            c[t.a[0]] = True
            rec(t.a[1], c)
            c = dict(cons)
            c[t.a[0]] = False
            rec(t.a[2], c)
        elif keep or t.op not in ("dontcare", "abort") or not cons:
            out.append((cons, t))
            if len(out) > top:
                if limit is None:
                    raise TooComplex("decision tree with more than %d rows" % top)
                raise StopIteration

    try:
        rec(tree, {})
    except StopIteration:
        pass
    return out


def leaves(tree):
    out, seen, todo = set(), set(), [tree]
    while todo:
        t = todo.pop()
        if t.op == "br":
            if t not in seen:
                seen.add(t)
                todo += [t.a[1], t.a[2]]
        else:
            out.add(t)
    return out


# ---------------------------------------------------------------- printing
def short(q):
    for p in ("genpybind::annotations::", "genpybind::", "clang::", "llvm::", "std::"):
        if q.startswith(p):
            q = q[len(p):]
    return q


_show = {}


MAX_SHOW = 16000


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x) for x in t) + ")"
        return repr(t) if isinstance(t, str) else str(t)
    s = _show.get(t)
    if s is None:
        s = _show1(t)
        if len(s) > MAX_SHOW:
            s = s[:MAX_SHOW] + "~" + t.d
        _show[t] = s
    return s


def _cond(cons):
    if not cons:
        return "always"
    return " & ".join(sorted(("" if v else "!") + show(a) for a, v in cons.items()))


def show_tree(tree, ind=""):
    rows = tree_paths(tree, 100)
    out = []
    for cons, leaf in rows:
        out.append((_cond(cons), show(leaf)))
    out.sort()
    if len(out) == 1 and out[0][0] == "always":
        return out[0][1]
    return "{" + " | ".join("%s -> %s" % r for r in out) + "}"


def _show1(t):
    o, a = t.op, t.a
    if o in ("bool", "int"):
        return str(a[0]).lower() if o == "bool" else str(a[0])
    if o == "str":
        return '"' + a[0].replace("\n", "\\n") + '"'
    if o == "char":
        return "'%s'" % a[0].replace("\n", "\\n")
    if o == "enum":
        return a[1]
    if o in ("null", "none", "unit", "this", "ASTContext", "SourceManager", "nopath"):
        return o
    if o == "param":
        return "p%s" % a[0]
    if o == "br":
        return show_tree(t)
    if o == "amb":
        return "AMBIGUOUS(" + ", ".join(show(x) for x in a) + ")"
    if o == "field":
        return show(a[0]) + "." + a[1].split("::")[-1]
    if o == "call":
        q = short(a[0]).split("::")
        name = q[-1]
        ta = "<%s>" % ", ".join(short(x) for x in a[1]) if a[1] else ""
        return "%s%s(%s)" % ("::".join(q[-2:]) if len(q) > 1 else name, ta, ", ".join(show(x) for x in a[2:]))
    if o == "eqc" or o == "eq":
        return "%s==%s" % (show(a[0]), show(a[1]))
    if o == "lt" or o == "lt2":
        if o == "lt" and a[1] == 1 and a[0].op == "size":
            return "empty(%s)" % show(a[0].a[0])
        return "%s<%s" % (show(a[0]), show(a[1]))
    if o == "isa":
        return "isa<%s>(%s)" % (short(a[1]), show(a[0]))
    if o == "p":
        return show(a[0])
    if o == "cat":
        return "[" + " ".join(show(x) for x in a) + "]"
    if o == "h":
        return "<%s>" % show(a[0])
    return "%s(%s)" % (o, ", ".join(show(x) for x in a))
