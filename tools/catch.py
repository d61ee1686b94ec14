#!/usr/bin/env python3
"""Runs the check of each planted bug against /repo with the bug applied: catch.py [ID...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    try:
        r = subprocess.run(['python3', f'{V}/check.py', prop], capture_output=True, text=True, cwd=V, timeout=900,
                           env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    hit = r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout
    print(f'{"CAUGHT" if hit else "missed"} {i} {prop} rc={r.returncode} {time.time()-t:.0f}s', flush=True)
    if not hit:
        print((r.stdout + r.stderr)[-600:])
    else:
        print('    ', [l for l in r.stdout.splitlines() if 'VIOLATION' in l][0][:200])
