#!/usr/bin/env python3
"""try.py [id...]: applies each planted change to /repo, runs its property's quick check (or ALL with --all), undoes it."""
import json, os, subprocess, sys, time
S = '/verif/seeded'; args = [a for a in sys.argv[1:] if not a.startswith('--')]; every = '--all' in sys.argv
ids = args or sorted(os.listdir(S))
assert not subprocess.run('git -C /repo status --porcelain', shell=True, stdout=subprocess.PIPE).stdout
env = dict(os.environ, OVERCHECK_NO_EVIDENCE='1')
for i in ids:
    m = json.load(open(f'{S}/{i}/meta.json'))
    try:
        subprocess.run(['git', '-C', '/repo', 'apply', f'{S}/{i}/patch.diff'], check=True)
        props = [m['property']] if not every else [f'C{n:02}' for n in range(1, 40) if f'"C{n:02}"' in open('/verif/MANIFEST.json').read()]
        for pr in props:
            t = time.time()
            r = subprocess.run(['/verif/check.sh', pr, 'quick'], cwd='/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = [l for l in r.stdout.splitlines() if l][-2:]
            print(f'{i:28} {pr} rc={r.returncode} {time.time()-t:.0f}s', 'CAUGHT' if r.returncode == 1 else ('quiet' if every else 'MISSED'), '|', (last[0][:150] if r.returncode == 1 and last else ' '.join(last)[:200]), flush=True)
    finally:
        subprocess.run('git -C /repo checkout -q -- .', shell=True, check=True)
