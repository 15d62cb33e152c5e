#!/usr/bin/env python3
"""tools/seeded.py [-a] [ID...]: runs the property's own quick check (-a: and 600 cases of all the others) on a scratch copy of /repo
with each planted bug of /verif/seeded applied, and prints which checks report it. Not used by any check."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != '-a']
every = '-a' in sys.argv
ids = args or sorted(os.listdir(V + '/seeded'))
w = tempfile.mkdtemp(prefix='seeded.')
def one(i):
    meta = json.load(open(f'{V}/seeded/{i}/meta.json'))
    r = f'{w}/{i}'
    shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', '_build'))
    if subprocess.run(['patch', '-s', '-p1', '-i', f'{V}/seeded/{i}/patch.diff'], cwd=r).returncode: return i, 'patch does not apply', []
    b = f'{w}/{i}.b'
    os.mkdir(b)
    m = subprocess.run(['make', '-s', '-j8', '-f', V + '/harness/Makefile', f'B={b}', f'REPO={r}', f'H={V}/harness', b + '/rmcheck'], capture_output=True, text=True)
    if m.returncode: return i, 'build fails ' + m.stderr[-500:], []
    caught, missed = [], []
    props = [meta['property']] + ([f'C{k:02}' for k in range(1, 39) if f'C{k:02}' != meta['property']] if every else [])
    for p in props:
        os.makedirs(f'{w}/{i}.o', exist_ok=True)
        env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', RC_KNOWN=V + '/KNOWN_FINDINGS.txt', RC_NOSHRINK='1' if every else '')
        if not env['RC_NOSHRINK']: del env['RC_NOSHRINK']
        if p != meta['property']: env['RC_CASES'] = '600'
        o = subprocess.run([b + '/rmcheck', 'run', p, f'{w}/{i}.o', f'{w}/{i}.json'], capture_output=True, text=True, env=env, timeout=900)
        (caught if o.returncode == 1 and f'VIOLATION property={p} ' in o.stdout else missed).append(p)
        if p == meta['property'] and o.returncode == 1: first = [l for l in (o.stdout + o.stderr).splitlines() if 'failed' in l or 'FAIL' in l][:1]
    shutil.rmtree(r, True); shutil.rmtree(b, True); shutil.rmtree(f'{w}/{i}.o', True)
    return i, 'caught' if meta['property'] in caught else 'MISSED', caught
try:
    for i in ids:
        i, res, by = one(i)
        print(f'{i}: {res}  {" ".join(by)}', flush=True)
finally:
    shutil.rmtree(w, True)
