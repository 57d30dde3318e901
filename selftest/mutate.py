"""Development aid: simple mutants of the source; lists those the comparison does not notice.
mutate.py FILE... [--every N] [--only REGEX]"""
import os, re, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
import queue
N = int(os.environ.get("MUT_PROCS", "6"))
RULES = [
 (r"(?<![=!<>])==(?!=)", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"(?<=[(\s])!(?=[A-Za-z_(])", ""), (r"(?<=\s)<(?=\s)", "<="), (r"(?<=\s)>(?=\s)", ">="), (r"(?<=\s)<=(?=\s)", "<"), (r"(?<=\s)>=(?=\s)", ">"),
 (r"\bcontinue;", "break;"), (r"\bcontinue;", ";"), (r"\bbreak;", "continue;"), (r"\bAS_public\b", "AS_protected"), (r"\bAS_private\b", "AS_protected"), (r"\bAS_none\b", "AS_public"),
 (r"(?<![\w.\"])(\d+)(?![\w.\"])", lambda m: str(int(m.group(1)) + 1)), (r"\bif \((?!const|auto|std)", "if (!!0 && "), (r"\bif \((?!const|auto|std)", "if (1 || "),
 (r"\bnullptr\b(?=;)", "{}"), (r"\bisa<", "!isa<"), (r"\bcount\(", "empty() && 1 + 0*count("),
 (r"\bgetCanonicalDecl\(\)", "getMostRecentDecl()"), (r"\bgetDefinition\(\)", "getCanonicalDecl()"), (r"\bgetCanonicalType\(\)", ""), 
 (r"\bpush_back\(", "size(), (void)("), (r"\binsert\(", "size(), (void)("), (r"\bstd::move\(", "("), (r"\+\+", "--"), (r"\breturn (?!true|false|nullptr)(?=[a-z_])", "return !!0 ? decltype(0)(0), decltype(0)(0), {} : "),
]
def mutants(path):
    src = open(path).read().split("\n")
    inblock = False
    for i, l in enumerate(src):
        s = l.strip()
        if not s or s.startswith(("//", "#", "/*", "*", "assert(", "static_assert", "using ", "namespace")) or "assert(" in s: continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\0" * (len(m.group(0)) - 2) + '"', l)
        code = re.sub(r"//.*", lambda m: "\0" * len(m.group(0)), code)
        code = re.sub(r"/\*.*?\*/", lambda m: "\0" * len(m.group(0)), code)
        for r, n in RULES:
            for m in re.finditer(r, code):
                if "\0" in m.group(0): continue
                new = n(m) if callable(n) else n
                yield i, l[:m.start()] + new + l[m.end():]
        for m in re.finditer(r'"((\\.|[^"\\])*)"', l):
            if "//" in l[:m.start()]: continue
            yield i, l[:m.start()] + '"' + m.group(1) + '_"' + l[m.end():]
        if re.match(r"^[A-Za-z_][\w.:>\-\[\]]*(\(|\s*(=|\+=|\|=|<<)).*;$", s) and not re.match(r"(return|auto|const|case|using|typedef|delete|break|continue)\b", s):
            yield i, l[:len(l) - len(l.lstrip())] + ";"
        if re.match(r"^return\b.+;$", s):
            pass
def main():
    args = sys.argv[1:]
    every = 1; only = None
    if "--every" in args: k = args.index("--every"); every = int(args[k + 1]); del args[k:k + 2]
    if "--only" in args: k = args.index("--only"); only = args[k + 1]; del args[k:k + 2]
    jobs = []
    for f in args:
        for j, (i, new) in enumerate(mutants("/repo/" + f)):
            if j % every == 0 and (not only or re.search(only, new)): jobs.append((f, i, new))
    print(len(jobs), "mutants", flush=True)
    q = queue.Queue()
    for i in range(N):
        d = os.environ.get("MUT_DIR", "/tmp/m") + str(i)
        if not os.path.exists(d):
            os.makedirs(d)
            for x in ("src", "include", "public"): shutil.copytree("/repo/" + x, d + "/" + x)
            cc = open("/tmp/w/compile_commands.json").read().replace("/tmp/w/", d + "/")
            open(d + "/compile_commands.json", "w").write(cc)
        q.put(d)
    def run(job):
        f, i, new = job
        d = q.get()
        try:
            src = open("/repo/" + f).read().split("\n")
            old = src[i]; src[i] = new
            open(d + "/" + f, "w").write("\n".join(src))
            env = dict(os.environ, GPB_REPO=d)
            try:
                r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mut_one.py")], capture_output=True, text=True, env=env, timeout=400)
                out = r.stdout.strip() or "crash " + r.stderr[-200:]
            except subprocess.TimeoutExpired: out = "timeout"
            shutil.copy("/repo/" + f, d + "/" + f)
            return job, old, out
        finally: q.put(d)
    from collections import Counter
    c = Counter()
    with ThreadPoolExecutor(N) as ex:
        for (f, i, new), old, out in ex.map(run, jobs):
            k = out.split()[0]; c[k] += 1
            if k not in ("differs", "noparse"):
                print("%s:%d %s\n   - %s\n   + %s" % (f, i + 1, out[:200], old.strip(), new.strip()), flush=True)
    print(dict(c))
main()
