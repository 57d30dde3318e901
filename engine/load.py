"""Builds the syntax-tree dumper, runs it over every translation unit of the
repository and merges the result into one program model."""
import concurrent.futures
import glob
import hashlib
import json
import lzma
import os
import pickle
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GPB_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18"
FLAGS = ["-DLLVM_VERSION_MAJOR=18", "-I%s/include" % REPO, "-isystem",
         LLVM + "/include", "-std=c++20", "-fno-exceptions", "-w"]


# translation units that instantiate the headers used by generated code
WITNESS = os.path.join(HERE, "witness")
WITNESS_FLAGS = ["-I%s/public" % REPO, "-I/usr/include/python3.12", "-std=c++17", "-w"]
PARSED = os.path.join(VERIF, "spec", "parsed.pickle.xz")
LAMBDA_AT = re.compile(r"\((lambda|anonymous[a-z ]*|unnamed[a-z ]*) at [^()]*?\)")


class AnalysisError(Exception):
    pass


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def dumper_path():
    return os.path.join(BUILD, "astdump-" + sha(os.path.join(HERE, "astdump.cpp"))[:16])


def build_dumper():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "astdump.cpp")
    out = dumper_path()
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O2", "-fno-rtti", "-w", "-I" + LLVM + "/include", src,
           "-o", tmp, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18",
           "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the dumper: " + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def sources():
    return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) + sorted(glob.glob(WITNESS + "/*.cpp"))


def uniq(seq):
    seen, out = set(), []
    for x in seq:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def tree_hash(dumper):
    h = hashlib.sha256(dumper.encode() + REPO.encode())
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True) +
                   glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/public/**/*", recursive=True) +
                   glob.glob(WITNESS + "/*"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + sha(f).encode())
    with open(os.path.join(HERE, "load.py"), "rb") as f:
        h.update(f.read())
    return h.hexdigest()[:24]


def headers_hash(dumper):
    """Contents of everything a unit may include from the repository, the
    flags and the dumper."""
    h = hashlib.sha256(os.path.basename(dumper).encode() + " ".join(FLAGS + WITNESS_FLAGS).replace(REPO, "").encode())
    for f in sorted(glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/**/*", recursive=True) +
                    glob.glob(REPO + "/public/**/*", recursive=True)):
        if os.path.isfile(f) and not f.endswith(".cpp"):
            h.update(rel(f).encode() + b"\0" + sha(f).encode())
    return h.hexdigest()


def rel(f):
    if f.startswith(WITNESS):
        return "witness/" + os.path.basename(f)
    return os.path.relpath(f, REPO)


def parsed_baseline():
    """Parse results of the reviewed tree, by content hash: a unit whose text,
    headers and flags are unchanged is not parsed again."""
    if os.environ.get("GPB_NOCACHE") or not os.path.exists(PARSED):
        return {}
    with lzma.open(PARSED, "rb") as f:
        return pickle.load(f)


def save_parsed():
    os.environ["GPB_NOCACHE"] = "1"
    load()
    del os.environ["GPB_NOCACHE"]
    out = {}
    hh = headers_hash(build_dumper())
    for s in uniq(sources()):
        k = unit_key(hh, s)
        with open(os.path.join(BUILD, "tu-%s.json" % k), encoding="utf-8") as f:
            out[k] = f.read()
    with lzma.open(PARSED, "wb", preset=9) as f:
        pickle.dump(out, f, protocol=4)


def unit_key(hh, s):
    return hashlib.sha256((hh + rel(s) + sha(s)).encode()).hexdigest()[:24]


def dump_one(args):
    dumper, src, out, cached, known = args
    if known is not None:
        with open(out, "w", encoding="utf-8") as f:
            f.write(known)
        return src, None
    if os.path.exists(cached) and not os.environ.get("GPB_NOCACHE"):
        shutil.copyfile(cached, out)
        return src, None
    r = dump_one1(dumper, src, out)
    if r[1] is None:
        with open(out, encoding="utf-8") as f:
            text = LAMBDA_AT.sub(r"(\1)", f.read().replace(REPO + "/", ""))
        with open(out, "w", encoding="utf-8") as f:
            f.write(text)
        shutil.copyfile(out, cached + ".tmp%d" % os.getpid())
        os.replace(cached + ".tmp%d" % os.getpid(), cached)
    return r


def dump_one1(dumper, src, out):
    r = subprocess.run([dumper, out, REPO + "/", src, "--"] + (WITNESS_FLAGS if src.startswith(WITNESS) else FLAGS), capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        return src, r.stderr[-3000:]
    return src, None


class Program:
    def __init__(self):
        self.functions = {}   # key -> function
        self.by_q = {}        # qname -> [key]
        self.enums = {}       # qname -> [(name, value)]
        self.bases = {}       # class qname -> [base qname]
        self.records = {}     # repo classes: qname -> record
        self.globals = {}     # (tu, id) -> global
        self.units = []
        self.overriders = {}

    def fixed_fields(self):
        """Pointer and reference members that are set by constructors only."""
        r = self.__dict__.get("_fixed")
        if r is not None:
            return r
        cand = {}
        for rec in self.records.values():
            for f in rec["fields"]:
                t = f["t"].rstrip()
                if t.endswith(("*", "&", "*const", "* const")) or t.startswith("const "):
                    cand[f["n"]] = t
        bad = set()

        def is_m(n):
            return isinstance(n, list) and len(n) > 4 and n[0] == "member" and n[3] in cand

        def walk(n):
            if isinstance(n, list):
                if n and n[0] == "assign" and is_m(n[3]):
                    bad.add(n[3][3])
                elif n and n[0] == "un" and n[2] in ("++", "--", "&") and is_m(n[3]) and not cand[n[3][3]].endswith("&"):
                    bad.add(n[3][3])
                elif n and n[0] in ("call", "construct") and isinstance(n[2], dict):
                    o = n[2]
                    off = 1 if o.get("m") and not o.get("static") and n[0] == "call" else 0
                    for i, a in enumerate(n[3]):
                        if is_m(a) and not cand[a[3]].endswith("&"):
                            if o.get("op") == "=" and i == 0:
                                bad.add(a[3])
                            pts = o.get("pt", [])
                            if 0 <= i - off < len(pts):
                                pt = pts[i - off]
                                if pt.endswith("&") and not pt.endswith("const &") and not pt.startswith("const "):
                                    bad.add(a[3])
                for c in n:
                    if isinstance(c, (list, dict)):
                        walk(c)
            elif isinstance(n, dict):
                for c in n.values():
                    if isinstance(c, (list, dict)):
                        walk(c)
        for f in self.functions.values():
            walk(f.get("body"))
        r = {n for n in cand if n not in bad}
        self.__dict__["_fixed"] = r
        return r


def load():
    os.makedirs(BUILD, exist_ok=True)
    dumper = dumper_path()
    cache = os.path.join(BUILD, "prog-%s.pickle" % tree_hash(dumper))
    if os.path.exists(cache) and not os.environ.get("GPB_NOCACHE"):
        try:
            with open(cache, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    srcs = uniq(sources())
    if not srcs:
        raise AnalysisError("no translation units below %s/src" % REPO)
    tmpd = os.path.join(BUILD, "dump%d" % os.getpid())
    os.makedirs(tmpd, exist_ok=True)
    hh = headers_hash(dumper)
    known = parsed_baseline()
    jobs = [(dumper, s, os.path.join(tmpd, "%d.json" % i), os.path.join(BUILD, "tu-%s.json" % unit_key(hh, s)),
             known.get(unit_key(hh, s)))
            for i, s in enumerate(srcs)]
    if any(j[4] is None and not os.path.exists(j[3]) for j in jobs) or os.environ.get("GPB_NOCACHE"):
        build_dumper()
    prog = Program()
    prog.parsed_now = [rel(j[1]) for j in jobs if j[4] is None]
    sys.setrecursionlimit(100000)
    try:
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for src, err in ex.map(dump_one, jobs):
                if err is not None:
                    raise AnalysisError("cannot parse %s:\n%s" % (src, err))
        for tu, (_, src, out, _, _) in enumerate(jobs):
            with open(out, encoding="utf-8") as f:
                d = json.load(f)
            merge(prog, tu, src, d)
    finally:
        for _, _, out, _, _ in jobs:
            if os.path.exists(out):
                os.unlink(out)
        os.rmdir(tmpd)
    tmp = cache + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(prog, f, protocol=4)
    os.replace(tmp, cache)
    # keep the cache small
    old = sorted(glob.glob(os.path.join(BUILD, "prog-*.pickle")), key=os.path.getmtime)
    old = old[:-6] + sorted(glob.glob(os.path.join(BUILD, "tu-*.json")), key=os.path.getmtime)[:-120]
    for o in old:
        try:
            os.unlink(o)
        except OSError:
            pass
    return prog


def merge(prog, tu, src, d):
    types = d["types"]

    def fix(node):
        """Replaces type indices by strings and makes ids unique per unit."""
        if isinstance(node, list):
            if len(node) > 1 and isinstance(node[0], str) and isinstance(node[1], int):
                k = node[0]
                if k == "tobool":
                    node[3] = types[node[3]]
                elif k == "cast":
                    node[2] = types[node[2]]
                    node[5] = types[node[5]]
                elif k == "member":
                    node[4] = types[node[4]]
                elif k == "initlist":
                    node[2] = types[node[2]]
                elif k == "new":
                    node[2] = types[node[2]]
                elif k == "zeroinit":
                    node[2] = types[node[2]]
                elif k == "this":
                    node[2] = types[node[2]]
                elif k == "int":
                    node[3] = types[node[3]]
                elif k == "un":
                    node[5] = types[node[5]]
                elif k == "bin":
                    node[5] = types[node[5]]
                    node[6] = types[node[6]]
                elif k == "assign":
                    node[5] = types[node[5]]
                elif k == "other" and len(node) > 4:
                    node[4] = types[node[4]]
            for c in node:
                if isinstance(c, (list, dict)):
                    fix(c)
        elif isinstance(node, dict):
            for k in ("t", "rt", "cls", "ot", "a0", "clst"):
                if k in node and isinstance(node[k], int):
                    node[k] = types[node[k]] if node[k] >= 0 else ""
            for k in ("at", "pt"):
                if k in node:
                    node[k] = [types[x] if isinstance(x, int) else x for x in node[k]]
            for k in ("id", "hid", "lam"):
                if k in node and isinstance(node[k], int):
                    node[k] = "%d.%d" % (tu, node[k])
            if "base" in node and isinstance(node["base"], int):
                node["base"] = types[node["base"]]
            for c in node.values():
                if isinstance(c, (list, dict)):
                    fix(c)

    prog.units.append(src)
    for f in d["functions"]:
        fix(f)
        f["tu"] = tu
        if f["key"] in prog.functions:
            continue
        prog.functions[f["key"]] = f
        prog.by_q.setdefault(f["q"], []).append(f["key"])
    for r in d["records"]:
        if r["q"] not in prog.bases:
            prog.bases[r["q"]] = r["bases"]
        if "fields" in r and r["q"] not in prog.records:
            fix(r)
            prog.records[r["q"]] = r
            for m in r["methods"]:
                for o in m.get("overrides", []):
                    prog.overriders.setdefault(o, []).append(m["key"])
    for q, vals in d["enums"].items():
        prog.enums[q] = [(n, int(v)) for n, v in vals]
    for g in d["globals"]:
        fix(g)
        prog.globals[g["id"]] = g


if __name__ == "__main__":
    p = load()
    print(len(p.units), "units", len(p.functions), "functions", len(p.enums), "enums", len(p.bases), "classes")
