"""Rules that are decided apart from the function summaries.  Every rule
returns a Finding list, the number of obligations it looked at, and samples."""
import json
import os
import re
import subprocess

import load
import model
from diffrun import call_keys
from model import has_code, is_repo_src


class Rule:
    def __init__(self, name, text):
        self.name, self.text = name, text
        self.obligations = 0
        self.findings = []       # (file, line, what, expected, found)
        self.samples = []
        self.undecided = []

    def bad(self, file, line, what, expected, found):
        self.findings.append((file, line, what, expected, found))


def nodes(n):
    """All expression and statement nodes below n (and n)."""
    if isinstance(n, list):
        if n and isinstance(n[0], str) and len(n) > 1 and isinstance(n[1], int):
            yield n
        for c in n:
            if isinstance(c, (list, dict)):
                yield from nodes(c)
    elif isinstance(n, dict):
        for c in n.values():
            if isinstance(c, (list, dict)):
                yield from nodes(c)


def line_of(f, n):
    return n[1] if len(n) > 1 and isinstance(n[1], int) else f.get("line", 0)


# ------------------------------------------------------------ options
OPT = re.compile(r"^llvm::cl::(opt|list|alias|bits)<")


def option_table(prog):
    """{option name: (kind and type, default, occurrences, where, variable)}"""
    out = {}

    def add(t, init, where, line, var):
        if not isinstance(init, list) or init[0] != "construct" or not OPT.match(t):
            return
        name, default, occ = "", "", ""
        for i, a in enumerate(init[3]):
            strs = [n[2] for n in nodes(a) if n[0] == "str"]
            at = (init[2].get("at") or [""] * 20)[i] if i < len(init[2].get("at") or []) else ""
            enums = [n[2] for n in nodes(a) if n[0] == "ref" and isinstance(n[2], dict) and n[2].get("k") == "enum"]
            text = json.dumps(a)
            if "cl::desc" in at or "cl::cat" in at or "value_desc" in at:
                continue
            if at.startswith("const char["):
                name = strs[0] if strs else ""
            elif "cl::initializer" in at:
                default = repr([n[2] for n in nodes(a) if n[0] in ("bool", "int", "str", "enum")] or strs or text[:80])
            elif "NumOccurrencesFlag" in at:
                occ = flag(a)
        base = re.match(r"llvm::cl::(\w+)<(.*)>$", t)
        out[name] = ("cl::%s<%s>" % (base.group(1), base.group(2)) if base else t, default, occ, where, line, var)

    def flag(a):
        for n in nodes(a):
            for x in n[2:]:
                if isinstance(x, dict) and "q" in x:
                    return x["q"].split("::")[-1]
                if isinstance(x, str) and "llvm::cl::" in x:
                    return x.split("::")[-1]
                if n[0] == "enum" and isinstance(x, str):
                    return x
                if n[0] == "int" and isinstance(x, (str, int)):
                    return str(x)
        return ""
    for g in prog.globals.values():
        init = g.get("init")
        if isinstance(init, list) and init[0] == "construct":
            add(init[2].get("cls", "") or init[2].get("t", ""), init, g.get("file", "src/tool.cpp"), line_of(g, init), g["q"])
    for f in prog.functions.values():
        if not is_repo_src(f):
            continue
        for n in nodes(f.get("body")):
            if n[0] == "decl":
                for v in n[2]:
                    if isinstance(v, dict) and isinstance(v.get("init"), list):
                        add(v.get("t", ""), v["init"], f["file"], n[1], v.get("n", ""))
    return out


def options(ref, cur):
    r = Rule("options", "every command line option of the reviewed tree exists with the same kind, default value, number of occurrences and variable")
    a, b = option_table(ref), option_table(cur)
    for name, x in sorted(a.items()):
        r.obligations += 1
        y = b.get(name)
        if y is None:
            r.bad(x[3], x[4], "command line option -%s is gone" % name, x[0], "none")
            continue
        for what, i in (("type", 0), ("default value", 1), ("number of occurrences", 2)):
            if i == 1 and {x[1], y[1]} <= {"", "[False]"}:
                continue
            if i == 2 and {x[2], y[2]} <= {"", "Optional"} and "cl::opt" in x[0]:
                continue
            if i == 2 and {x[2], y[2]} <= {"", "ZeroOrMore"} and "cl::list" in x[0]:
                continue
            if x[i] != y[i]:
                r.bad(y[3], y[4], "%s of command line option -%s" % (what, name), x[i] or "(none)", y[i] or "(none)")
        # two options that swap variables
        other = [n for n, z in b.items() if n != name and z[5] == x[5]]
        if y[5] != x[5] and other and other[0] in a:
            r.bad(y[3], y[4], "variable of command line option -%s" % name, x[5], y[5])
        r.samples.append("-%s: %s default %s occurrences %s" % (name, y[0][:80], y[1] or "-", y[2] or "-"))
    for name, y in sorted(b.items()):
        if name not in a:
            r.samples.append("new option -%s" % name)
    return r


# ------------------------------------------------------------ macros
def canon_ast(text):
    out = []
    names = {}
    for l in text.splitlines():
        if l.startswith("Dumping") or not l.strip():
            continue
        if re.search(r"-(UnusedAttr|value:|DefinitionData|\w*Constructor |\w*Assignment|Destructor )", l):
            continue
        l = re.sub(r"0x[0-9a-f]+", "", l)
        l = re.sub(r"\(lambda at [^()]*\)", "(lambda)", l)
        prev = None
        while prev != l:
            prev = l
            l = re.sub(r"<(<invalid sloc>|<scratch space>[:\d]*|<built-in>[:\d]*|(col|line):[\d:]+|[\w./-]+:\d+:\d+)(, (<invalid sloc>|<scratch space>[:\d]*|(col|line):[\d:]+|[\w./-]+:\d+:\d+))?>", "", l)
            l = re.sub(r"(?<![\w\"'])(<invalid sloc>|<scratch space>[:\d]*|(col|line):[\d:]+|/?[\w./-]+\.h:\d+:\d+)", "", l)
        m = re.search(r"VarDecl\s+(\w*\d+)\s+'const[^']*\(lambda\)'", l)
        if m:
            names.setdefault(m.group(1), len(names))
        depth = len(re.match(r"[|` -]*", l).group(0))
        out.append("%d %s" % (depth, re.sub(r"\s+", " ", re.sub(r"^[|` -]*", "", l)).strip()))
    res = []
    for l in out:
        for n, i in names.items():
            l = re.sub(r"\b%s\b" % n, "MANUAL%d" % i, l)
        l = re.sub(r" (static|inline|constexpr|cinit|used|referenced)\b", lambda m: m.group(0) if m.group(1) in ("static", "constexpr") else "", l)
        res.append(l)
    return res


def clang(args):
    r = subprocess.run(["clang++", "-std=c++17", "-w", "-xc++"] + args, capture_output=True, text=True)
    return r


def macros(ref, cur):
    r = Rule("macros", "a witness that uses the macros on every kind of declaration has the same syntax tree, token sequence and attributes as with the specified macros")
    src = os.path.join(load.VERIF, "spec", "macros.h")
    spec = os.path.join(load.VERIF, "spec", "include")
    head = "public/genpybind/genpybind.h"
    pub = load.REPO + "/public"
    trees = []
    for inc in (spec, pub):
        p = clang(["-I" + inc, "-D__GENPYBIND__", "-fsyntax-only", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=witness", src])
        if p.returncode:
            if inc == spec:
                raise load.AnalysisError("witness does not parse: " + p.stderr[-500:])
            r.obligations += 1
            r.bad(head, 1, "annotated witness during analysis", "parses", p.stderr.strip().splitlines()[0] if p.stderr.strip() else "does not parse")
            return r
        trees.append(canon_ast(p.stdout))
    a, b = trees
    r.obligations += len(a)
    if a != b:
        for i in range(max(len(a), len(b))):
            x = a[i] if i < len(a) else "(nothing)"
            y = b[i] if i < len(b) else "(nothing)"
            if x != y:
                r.bad(head, 1, "syntax tree of the annotated witness during analysis (node %d)" % i, x, y)
                break
    r.samples += [l for l in b if "AnnotateAttr" in l][:4]
    toks = []
    for inc in (spec, pub):
        p = clang(["-I" + inc, "-E", src])
        keep, on = [], False
        for l in p.stdout.splitlines():
            m = re.match(r'# \d+ "([^"]*)"', l)
            if m:
                on = m.group(1).endswith(("spec/macros.h", "genpybind/genpybind.h"))
                continue
            if on:
                keep += l.split()
        toks.append((p.returncode, " ".join(keep)))
    r.obligations += len(toks[0][1].split())
    if toks[0] != toks[1]:
        r.bad(head, 1, "tokens left by the macros in a normal build", toks[0][1][:600], toks[1][1][:600])
    for std in ("-std=c++11", "-std=c++20"):
        p = subprocess.run(["clang++", std, "-w", "-xc++", "-fsyntax-only", "-I" + pub, "-"], capture_output=True, text=True,
                           input="#include <genpybind/genpybind.h>\n#include <genpybind/genpybind.h>\nstruct GENPYBIND(visible) A {};\nGENPYBIND_MANUAL({ not even C++ })\nint x;\n")
        r.obligations += 1
        if p.returncode:
            r.bad(head, 1, "normal build with %s" % std, "annotations have no effect", p.stderr.strip()[:300])
    return r


# ------------------------------------------------------------ order
UNORDERED = re.compile(r"(DenseMapIterator|DenseSetImpl<.*>::(Const)?Iterator|SmallPtrSetIterator|_Node_iterator|_Node_const_iterator|StringMap(Const)?Iterator|_Hashtable)")
PTRTREE = re.compile(r"_Rb_tree_(const_)?iterator<(std::pair<)?(const )?[^,<>]*\*( ?const)?[,>]|SmallSetIterator<(const )?[^,<>]*\*")
UNORDERED_T = re.compile(r"^(const )?(llvm::(DenseMap|DenseSet|SmallDenseMap|SmallDenseSet|SmallPtrSet|SmallPtrSetImpl|StringMap|StringSet)|std::(unordered_\w+))<|"
                         r"^(const )?std::(set|map|multiset|multimap)<(const )?[^,<>]*\*|^(const )?llvm::SmallSet<(const )?[^,<>]*\*")
ORDERED_T = re.compile(r"^(const )?(llvm::(SetVector|SmallSetVector|MapVector|SmallMapVector|SmallVector|SmallVectorImpl|SmallSet|TinyPtrVector)|std::(vector|set|map|list|deque|multimap))<")


def unordered_loops(prog):
    """Loops whose sequence is determined by addresses or hashes."""
    for f in prog.functions.values():
        if not is_repo_src(f) or not has_code(f):
            continue
        for n in nodes([f.get("body"), f.get("inits")]):
            if n[0] == "rangefor":
                init = n[2].get("init") if isinstance(n[2], dict) else None
                it = ""
                if isinstance(init, list) and init[0] in ("call", "construct"):
                    for x in nodes(init):
                        if x[0] == "call" and isinstance(x[2], dict) and x[2].get("op") == "*":
                            it = x[2].get("a0", "") or x[2].get("cls", "")
                            break
                if UNORDERED.search(it) or PTRTREE.search(it):
                    yield f, n, it


SINK = re.compile(r"^(genpybind::Diagnostics::report|clang::DiagnosticsEngine::Report|llvm::raw_ostream::.*|llvm::outs|llvm::errs)$")


def order(ref, cur):
    r = Rule("unordered-iteration", "no loop whose sequence depends on addresses or hashes reports, prints, or appends to a sequence that is not sorted before use")
    for f, n, it in unordered_loops(cur):
        r.obligations += 1
        body = n[4:] if len(n) > 4 else n
        var = n[2]
        text_sorted = set()
        sorts = []
        for x in nodes(f.get("body")):
            if x[0] == "call" and isinstance(x[2], dict) and re.search(r"(^|::)(stable_sort|sort|make_heap|push_heap|pop_heap)$", x[2].get("q", "")):
                for y in nodes(x[3]):
                    if y[0] in ("ref",) and isinstance(y[2], dict):
                        text_sorted.add(y[2].get("id"))
                    if y[0] == "member":
                        text_sorted.add(y[3])
        popped = {y[2].get("id") for x in nodes(f.get("body")) if x[0] == "call" and isinstance(x[2], dict) and x[2].get("q", "").split("::")[-1] in ("pop_back", "pop_back_val", "pop", "pop_front")
                  for y in nodes(x[3][:1]) if y[0] == "ref" and isinstance(y[2], dict)}
        inside = {v.get("id") for x in nodes(body) if x[0] == "decl" for v in x[2] if isinstance(v, dict)} | {var.get("id")}
        for x in nodes(body):
            if x[0] != "call" or not isinstance(x[2], dict):
                continue
            q = x[2].get("q", "")
            what = None
            if SINK.match(q) or (x[2].get("op") == "<<" and "ostream" in (x[2].get("a0", "") + x[2].get("rt", ""))):
                # printing into a local of the loop body is harmless
                tgt = [y[2].get("id") for y in nodes(x[3][:1]) if y[0] == "ref" and isinstance(y[2], dict)]
                if tgt and all(t in inside for t in tgt):
                    continue
                what = "prints or reports in an order that depends on addresses"
            elif q.split("::")[-1] in ("push_back", "emplace_back", "append") and re.match(r"^(std::vector|llvm::SmallVector\w*|std::basic_string|llvm::SmallString)::", q):
                tgt = [y[2].get("id") for y in nodes(x[3][:1]) if y[0] == "ref" and isinstance(y[2], dict)] + [y[3] for y in nodes(x[3][:1]) if y[0] == "member"]
                if not isinstance(x[3][0], list) or x[3][0][0] not in ("ref", "member"):
                    r.undecided.append("%s:%d %s: appends to an element" % (f["file"], line_of(f, x), f["q"]))
                    continue
                if not tgt or any(t in inside or t in text_sorted for t in tgt):
                    continue
                if any(t in popped for t in tgt):
                    r.undecided.append("%s:%d %s: order in which a worklist is filled" % (f["file"], line_of(f, x), f["q"]))
                    continue
                what = "appends in an order that depends on addresses to a sequence that is not sorted"
            if what:
                r.bad(f["file"], line_of(f, x), "loop over %s in %s %s" % (it[:80], f["q"], what), "source order", q)
        r.samples.append("%s:%d %s iterates %s" % (f["file"], n[1], f["q"], it[:60]))
    return r


def containers(ref, cur):
    r = Rule("ordered-fields", "sequences that are iterated keep a container whose order is that of insertion or of values")

    def table(prog):
        out = {}
        for q, rec in prog.records.items():
            if q.startswith(("genpybind", "(anonymous", "Record", "Graph")) or True:
                for fl in rec["fields"]:
                    out[fl["n"]] = (fl["t"], fl.get("l", 0), rec.get("file", ""))
        return out
    a, b = table(ref), table(cur)
    iterated = {}
    for f in cur.functions.values():
        if not is_repo_src(f):
            continue
        for n in nodes([f.get("body"), f.get("inits")]):
            tgt = None
            if n[0] == "rangefor" and isinstance(n[3], list):
                tgt = n[3]
            elif n[0] == "call" and isinstance(n[2], dict) and n[2].get("q", "").split("::")[-1] in ("begin", "takeVector", "pop_back_val", "front", "back"):
                tgt = n[3][0] if n[3] else None
            if isinstance(tgt, list):
                for y in nodes(tgt):
                    if y[0] == "member":
                        iterated.setdefault(y[3], (f["file"], n[1]))
                    if y is not tgt and y[0] == "call":
                        break
    for n, (t, line, file) in sorted(b.items()):
        if n not in iterated:
            continue
        r.obligations += 1
        if n in a and ORDERED_T.search(a[n][0]) and not UNORDERED_T.search(a[n][0]) and UNORDERED_T.search(t):
            w = iterated[n]
            r.bad(w[0], w[1], "member %s, which is iterated here," % n, a[n][0], t)
        else:
            r.samples.append("%s: %s" % (n, t[:70]))
    return r


# ------------------------------------------------------------ entry points
HOOK = re.compile(r"::(should\w+|[vV]isit[A-Z]\w*|Traverse\w+|WalkUpFrom\w+|dataTraverse\w+)$")


def inherited(prog, cls, name, seen=None):
    """Key of the implementation that a class inherits."""
    for b in prog.bases.get(cls, []):
        b = re.sub(r"<.*$", "", b)
        for rec in (b,):
            for m in (prog.records.get(rec) or {}).get("methods", []):
                if m["q"].split("::")[-1] == name and m["key"] in prog.functions:
                    return m["key"]
        k = inherited(prog, b, name)
        if k:
            return k
    return None


def hooks(prog):
    """{(class, method signature)}: functions that a framework calls."""
    out = {}
    for q, rec in prog.records.items():
        crtp = any("RecursiveASTVisitor" in b or "StmtVisitor" in b or "DeclVisitor" in b or "TypeVisitor" in b for b in prog.bases.get(q, []))
        for m in rec["methods"]:
            f = prog.functions.get(m["key"])
            if f is None or not has_code(f) or m["q"].endswith("(dtor)"):
                continue
            if m.get("overrides") or (crtp and HOOK.search(m["q"])):
                out[(q, m["q"], tuple(p["t"] for p in f["params"]))] = m["key"]
    return out


def entry_points(ref, cur):
    r = Rule("entry-points", "no function that is called through a base class or visitor is added or removed, unless it is equal to the one it replaces")
    from diffrun import one_pair
    a, b = hooks(ref), hooks(cur)
    for h, k in sorted(a.items()):
        r.obligations += 1
        if h in b or k in cur.functions:
            continue
        if h[0] not in cur.records:
            r.undecided.append("class %s has no counterpart" % h[0])
            continue
        other = inherited(cur, h[0], h[1].split("::")[-1])
        st = one_pair(ref, k, cur, other) if other else "differs"
        if st == "differs":
            f = ref.functions[k]
            rec = cur.records[h[0]]
            r.bad(rec.get("file", f["file"]), rec.get("l", 0) or f["line"], "%s no longer overrides what it inherits" % h[0], h[1], other and cur.functions[other]["q"] or "the inherited implementation")
    for h, k in sorted(b.items()):
        if h in a or k in ref.functions:
            continue
        if h[0] not in ref.records:
            continue
        r.obligations += 1
        other = inherited(ref, h[0], h[1].split("::")[-1])
        st = one_pair(ref, other, cur, k) if other else "differs"
        if st == "differs":
            f = cur.functions[k]
            r.bad(f["file"], f["line"], "new implementation of what %s inherited before" % h[0], other and ref.functions[other]["q"] or "the inherited implementation", h[1])
    r.samples = ["%s" % h[1] for h in list(sorted(b))[:6]]
    return r


RULES = {"options": options, "macros": macros, "unordered-iteration": order, "ordered-fields": containers, "entry-points": entry_points}
