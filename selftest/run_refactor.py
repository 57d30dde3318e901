"""Development aid: applies behaviour-preserving edits to a scratch copy and
runs the comparison; every edit must stay quiet."""
import importlib, os, re, shutil, subprocess, sys
W = os.environ.get("GPB_W", "/tmp/w")
HERE = os.path.dirname(os.path.abspath(__file__))

def reset():
    for d in ("src", "include", "public"):
        subprocess.run(["rsync", "-a", "--delete", "--checksum", "/repo/%s/" % d, "%s/%s/" % (W, d)], check=False) if shutil.which("rsync") else (
            shutil.rmtree(W + "/" + d, ignore_errors=True), shutil.copytree("/repo/" + d, W + "/" + d))

def main(mod, pats):
    R = importlib.import_module(mod).EDITS
    os.makedirs(W, exist_ok=True)
    bad = []
    for name, edits in R.items():
        if pats and not any(p in name for p in pats):
            continue
        reset()
        ok = True
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(W, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1 and not (len(e) > 3 and n >= 1):
                print(name, ": pattern occurs", n, "times in", f, repr(old[:60])); ok = False; break
            s = s.replace(old, new)
            open(p, "w").write(s)
        if not ok:
            bad.append(name); continue
        env = dict(os.environ, GPB_REPO=W, GPB_FAST="1")
        r = subprocess.run([sys.executable, os.path.join(HERE, "..", "engine", "diffrun.py")], capture_output=True, text=True, env=env, timeout=600)
        last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-1500:]
        flag = "ok  "
        if "differs" in last: flag = "DIFF"
        elif r.returncode: flag = "ERR "
        elif "inconclusive" in last: flag = "inc "
        print(flag, name, last[:150], flush=True)
        if flag in ("DIFF", "ERR ", "inc "):
            print(r.stdout[-2500:] if flag != "ERR " else r.stderr[-2500:])
        if flag in ("DIFF", "ERR "): bad.append(name)
    print("bad:", bad)

if __name__ == "__main__":
    sys.path.insert(0, HERE)
    main(sys.argv[1], sys.argv[2:])
