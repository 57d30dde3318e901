"""plant.py WORKER [ids...]: try planted bugs in a private copy; keep those that count in /verif/seeded."""
import sys, os, subprocess, json, shutil, time
sys.path.insert(0, os.path.dirname(__file__))
D = sys.argv[1]
mod = 'bugs'
ids = sys.argv[2:]
if ids and ids[0].startswith('@'): mod = ids.pop(0)[1:]
B = __import__(mod).B
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if os.path.exists('/opt/vp/BASELINE.json') else set()
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def log(*a): print(*a, flush=True)
for i, b in enumerate(B):
    if ids and not any(b['id'].startswith(x) for x in ids): continue
    sh(f'git -C {D} checkout -q -- .')
    dst = f'/tmp/cand/{b["id"]}'
    os.makedirs(dst, exist_ok=True)
    bad = None
    for f, old, new, count in b['edits']:
        s = open(f'{D}/{f}').read()
        if s.count(old) != count: bad = f'{f}: {s.count(old)} occurrences'; break
        open(f'{D}/{f}', 'w').write(s.replace(old, new))
    if bad: log(b['id'], 'EDIT', bad); continue
    open(f'{dst}/patch.diff', 'w').write(sh(f'git -C {D} diff').stdout)
    open(f'{dst}/demo.sh', 'w').write(b['demo']); os.chmod(f'{dst}/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(f'{dst}/meta.json', 'w'), indent=1)
    r = sh(f'bash {D}.vp/build.sh')
    if r.returncode: log(b['id'], 'BUILD', r.stdout[-1500:]); sh(f'git -C {D} checkout -q -- .'); continue
    sh(f'bash {D}.vp/test.sh {D}.vp/out.json')
    passed = set(json.load(open(f'{D}.vp/out.json'))['passed'])
    missing = sorted(base - passed)
    d = sh(f'bash {dst}/demo.sh', cwd=D, timeout=300)
    c = sh(f'python3 /verif/engine/check.py {b["prop"]} quick', env=dict(os.environ, GPB_REPO=D, GPB_EVIDENCE=f'{D}.vp/evidence', VERIF_SEED='1'))
    st = {'tests': 'ok' if not missing else f'{len(missing)} fail: {missing[:2]}', 'demo': d.returncode, 'check': c.returncode}
    log(b['id'], b['prop'], st, '' if d.returncode else '  DEMO DID NOT FAIL', '' if c.returncode == 1 else '  MISSED ' + c.stdout[-300:])
    json.dump(st, open(f'{dst}/status.json', 'w'))
    sh(f'git -C {D} checkout -q -- .')
