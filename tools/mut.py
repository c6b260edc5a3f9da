#!/usr/bin/env python3
"""Development aid: apply textual edits to a scratch copy of /repo and run checks on it.
   mut.py FILE : FILE is a python file defining CASES = [(name, [(file, old, new)...], 'C06 C07')...]"""
import os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for name, edits, pids in ns['CASES']:
    if only and name not in only:
        continue
    d = tempfile.mkdtemp(prefix='mut')
    r = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    ok = True
    for f, old, new in edits:
        t = open(f'{r}/{f}').read()
        if old not in t:
            print(name, 'PATTERN NOT FOUND', f, repr(old[:50]))
            ok = False
            break
        open(f'{r}/{f}', 'w').write(t.replace(old, new, ns.get('COUNT', {}).get(name, 1)))
    if ok:
        for pid in pids.split():
            p = subprocess.run(['python3', '/verif/engine/check.py', pid], env=dict(os.environ, VERIF_REPO=r, VERIF_NOEV='1'), capture_output=True, text=True)
            o = [l for l in p.stdout.splitlines()]
            print(f'{name:28} {pid} exit {p.returncode}', '|', o[-1] if o else p.stderr[-300:])
            for l in o[:-1][:6]:
                print('      ', l[:230])
            sys.stdout.flush()
    shutil.rmtree(d)
