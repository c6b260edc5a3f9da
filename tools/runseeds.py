#!/usr/bin/env python3
"""Runs, for every planted bug, the check of its property on a scratch copy of /repo with the bug: runseeds.py [-p PROP] [ID...]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'
    w = '/tmp/rs-' + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
    p = json.load(open(d + '/meta.json'))['property']
    t0 = time.time()
    r = subprocess.run(['python3', V + '/engine/check.py', p], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    out = [l for l in r.stdout.splitlines()]
    print(i, p, 'CAUGHT' if r.returncode == 1 else f'MISSED ({r.returncode})', f'{time.time() - t0:.0f}s', '|', ' || '.join(out[:2] if r.returncode == 1 else out[-6:])[:400], flush=True)
    shutil.rmtree(w, ignore_errors=True)
