"""Development aid: applies every seeded bug to a scratch copy and runs the
check of its property; prints whether it is reported and by what."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run_refactor
W = run_refactor.W
HERE = os.path.dirname(os.path.abspath(__file__)); S = os.path.join(HERE, "..", "seeded")
for d in sorted(os.listdir(S)):
    if len(sys.argv) > 1 and not any(p in d for p in sys.argv[1:]): continue
    m = json.load(open(f"{S}/{d}/meta.json"))
    run_refactor.reset()
    subprocess.run(["git", "apply", "--directory=", f"{S}/{d}/patch.diff"], cwd=W, check=True)
    env = dict(os.environ, GPB_REPO=W, GPB_EVIDENCE=W + ".ev")
    os.makedirs(W + ".ev", exist_ok=True)
    r = subprocess.run([sys.executable, os.path.join(HERE, "..", "engine", "check.py"), m["property"], "quick"], capture_output=True, text=True, env=env)
    lines = [l for l in r.stdout.splitlines() if l.strip()]
    print("caught" if r.returncode == 1 and any("VIOLATION property=" + m["property"] in l for l in lines) else "MISSED", d, m["property"], r.returncode, (lines[0] if lines else "")[:160], flush=True)
run_refactor.reset()
