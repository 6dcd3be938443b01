#!/usr/bin/env python3
"""Run the check of each planted bug's property against a copy of /repo with the bug: runseeds.py [id…]"""
import json, os, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/seedcopy'
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w], capture_output=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '--detach', w], capture_output=True, check=True)
    subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    p = subprocess.run(['python3-vt', V + '/check.py', prop, 'quick'], capture_output=True, text=True, cwd=V,
                       env=dict(os.environ, SYMX_REPO=w))
    out = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('NO ANSWER')]
    print(i, 'CAUGHT' if p.returncode == 1 and any(f'property={prop} ' in l for l in out) else 'MISSED', p.returncode,
          f'{time.time() - t:.0f}s', (out or [''])[0][:160], flush=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w], capture_output=True)
